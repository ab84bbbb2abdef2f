package distclusverif

import (
	"errors"
	"fmt"
	"math"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	"github.com/wearelumenai/distclus/core"
)

// A world is an algorithm with a scripted implementation, driven by one client in
// virtual time. Everything that happens is recorded with its instant; the oracles
// are functions of that record. Durations of scripted parts are whole milliseconds
// and the client's delays have distinct sub-millisecond parts, so that a client call
// never coincides with an event of the algorithm that it did not cause itself.

const (
	outClust = iota // the iteration returns centroids
	outNone         // no centroids
	outErr          // an error
	outPanic        // a panic
)

type wconf struct {
	iter, perData, dataPer int
	period                 time.Duration // between iterations, 0: no frequency
	timeout                int           // ms, 0: none
	custom                 int           // finishing condition: this number of iterations, 0: none
	never                  bool
	notifier               int // 0 passive, 1 queries the algorithm, 2 takes time, 3 both
	figs                   int // figures of the implementation: 0 nil, 1 fresh, 2 always the same map, 3 reserved names, 4 nil or fresh, 5 many
	durs                   []int
	outs                   []int
	initFail               []int // 0 succeeds, 1 fails, 2 panics
	refuse                 []bool
	scale                  int // 0 or a factor of all the durations above (but the period) and of the client's
}

func (w wconf) String() string {
	return fmt.Sprintf("iter %d perData %d dataPer %d period %v timeout %dms custom %d notifier %d figures %d durations %v outcomes %v initFail %v refuse %v",
		w.iter, w.perData, w.dataPer, w.period, w.timeout, w.custom, w.notifier, w.figs, w.durs, w.outs, w.initFail, w.refuse)
}

type wop struct {
	kind  string
	sleep int // ms before
	arg   int
	dur   int // ms
	rest  int // after a long rest, if nothing runs
}

func (o wop) String() string {
	s := fmt.Sprintf("%d:%s", o.sleep, o.kind)
	if o.kind == "wait" {
		s += fmt.Sprintf("(%d,%dms)", o.arg, o.dur)
	}
	if o.rest > 0 {
		s += fmt.Sprintf("(after %d×37min)", o.rest)
	}
	return s
}

// recorded events
type evIter struct {
	start, end time.Duration
	done       bool
	call       int // rank of the call, from 0
	out        int
	clust      core.Clust
	figs       core.RuntimeFigures
	model      core.OCStatus
	mclust     core.Clust
	mfigs      core.RuntimeFigures
	mconf      core.Conf
	mspace     core.Space
}

type evPush struct {
	at time.Duration
	ok bool
}

type evNotif struct {
	at     time.Duration
	st     core.OCStatus
	sameOC bool
}

type evInit struct {
	at    time.Duration
	ok    bool
	clust core.Clust
}

// obs is what a client sees when everything has settled
type obs struct {
	at     time.Duration
	st     core.OCStatus
	figs   core.RuntimeFigures
	clust  core.Clust
	active int
	notifs int
}

type evOp struct {
	op         wop
	rank       int
	begin, end time.Duration
	err        error
	before     obs
	imm        core.OCStatus // status at once after the call
	after      obs
	n0, n1     int // notifications before and after
}

type world struct {
	cf     wconf
	conf   *core.CtrlConf
	space  core.Space
	algo   *core.Algo
	t0     time.Time
	mu     sync.Mutex
	iters  []*evIter
	pushes []evPush
	notifs []evNotif
	inits  []evInit
	ops    []*evOp
	seen   []obs
	active int
	maxAct int
	dead   bool
	same   core.RuntimeFigures
	snaps  []snap
	probs  map[string]string // property -> first problem
	frozen *world
}

type snap struct {
	what   string
	clust  core.Clust
	clust0 core.Clust
	figs   core.RuntimeFigures
	figs0  core.RuntimeFigures
}

func copyFigs(f core.RuntimeFigures) core.RuntimeFigures {
	r := core.RuntimeFigures{}
	for k, v := range f {
		r[k] = v
	}
	return r
}

func sameFigs(a, b core.RuntimeFigures) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w && !(math.IsNaN(v) && math.IsNaN(w)) {
			return false
		}
	}
	return true
}

func (w *world) now() time.Duration { return time.Since(w.t0) }

func (w *world) fail(id, format string, args ...any) {
	if w.probs[id] == "" {
		w.probs[id] = fmt.Sprintf(format, args...)
	}
}

var errInit = errors.New("scripted initialisation error")
var errPush = errors.New("scripted push error")

// these are values one may panic with, printed as their text
type stringer struct{ text string }

func (s *stringer) String() string { return s.text }

type text string

type boxed struct{ error }

// panicked is a value of some kind to panic with, printed as the given text
func panicked(kind int, s string) any {
	switch kind % 5 {
	case 0:
		return errors.New(s)
	case 1:
		return s
	case 2:
		return &stringer{s}
	case 3:
		return text(s)
	default:
		return boxed{errors.New(s)}
	}
}

func iterErr(call int) error { return fmt.Errorf("scripted error of iteration %d", call) }

func newWorld(cf wconf) *world {
	w := &world{cf: cf, space: lineSpace{}, t0: time.Now(), probs: map[string]string{}, same: core.RuntimeFigures{}}
	w.conf = &core.CtrlConf{Iter: cf.iter, IterPerData: cf.perData, DataPerIter: cf.dataPer}
	if cf.period > 0 {
		w.conf.IterFreq = 1e9 / float64(cf.period)
	}
	if cf.timeout > 0 {
		w.conf.Timeout = time.Duration(cf.timeout)*time.Millisecond + 7
	}
	if cf.custom > 0 || cf.never {
		w.conf.Finishing = finishFunc(func(m core.OCModel) bool {
			return cf.custom > 0 && int(m.RuntimeFigures()[core.Iterations]) >= cf.custom
		})
	}
	w.conf.StatusNotifier = func(oc core.OnlineClust, st core.OCStatus) {
		w.mu.Lock()
		same := oc == core.OnlineClust(w.algo)
		w.notifs = append(w.notifs, evNotif{w.now(), st, same})
		w.mu.Unlock()
		if cf.notifier&1 != 0 {
			oc.Status()
			oc.RuntimeFigures()
			oc.Centroids()
			oc.Predict(1.)
			oc.Conf()
			oc.Space()
		}
		if cf.notifier&2 != 0 {
			time.Sleep(17 * time.Millisecond)
		}
	}
	m := newMock()
	m.init = func(model core.OCModel) (core.Clust, error) {
		st, conf, space := model.Status(), model.Conf(), model.Space()
		figs, before := model.RuntimeFigures(), model.Centroids()
		w.mu.Lock()
		defer w.mu.Unlock()
		n := len(w.inits)
		switch {
		case st.Value != core.Initializing:
			w.fail("C39", "initialisation %d received a model whose status is %v", n, st)
		case conf != core.Conf(w.conf) || space != core.Space(w.space):
			w.fail("C39", "initialisation %d received another configuration or space", n)
		case n == 0 && before != nil:
			w.fail("C39", "the first initialisation received a model with centroids %v", before)
		case n > 0 && (figs[core.Iterations] != 0 || figs["x"] != 0):
			w.fail("C39", "initialisation %d received figures of a previous session: %v", n, figs)
		}
		bad := 0
		if n < len(cf.initFail) {
			bad = cf.initFail[n]
		}
		cl := core.Clust{-float64(n) - 1}
		w.inits = append(w.inits, evInit{w.now(), bad == 0, cl})
		switch bad {
		case 1:
			return cl, errInit
		case 2:
			panic(panicked(n, errInit.Error()))
		}
		return cl, nil
	}
	m.push = func(_ core.Elemt, model core.OCModel) error {
		model.Status() // as the algorithms do
		if cf.notifier&1 != 0 {
			model.RuntimeFigures()
			model.Centroids()
		}
		w.mu.Lock()
		defer w.mu.Unlock()
		n := len(w.pushes)
		bad := n < len(cf.refuse) && cf.refuse[n]
		w.pushes = append(w.pushes, evPush{w.now(), !bad})
		if bad {
			return errPush
		}
		return nil
	}
	m.iter = func(_ int, model core.OCModel) (core.Clust, core.RuntimeFigures, error) { return w.iterate(model) }
	w.algo = core.NewAlgo(w.conf, m, w.space)
	return w
}

func (w *world) iterate(model core.OCModel) (core.Clust, core.RuntimeFigures, error) {
	cf := w.cf
	w.mu.Lock()
	n := len(w.iters)
	if w.dead || n > 400000 {
		w.mu.Unlock()
		panic("the history is over")
	}
	w.active++
	w.maxAct = max(w.maxAct, w.active)
	ev := &evIter{start: w.now(), call: n, model: model.Status(), mclust: model.Centroids(), mfigs: copyFigs(model.RuntimeFigures()), mconf: model.Conf(), mspace: model.Space()}
	w.iters = append(w.iters, ev)
	d := cf.durs[n%len(cf.durs)]
	if n < len(cf.outs) {
		ev.out = cf.outs[n]
	}
	w.mu.Unlock()
	time.Sleep(time.Duration(d) * time.Millisecond)
	w.mu.Lock()
	defer w.mu.Unlock()
	w.active--
	ev.end, ev.done = w.now(), true
	switch cf.figs {
	case 1:
		ev.figs = core.RuntimeFigures{"x": float64(n)}
	case 2:
		w.same["x"] = float64(n)
		w.same[fmt.Sprint("y", n%3)] = float64(n)
		ev.figs = w.same
	case 4: // not every time
		if n%2 == 0 {
			ev.figs = core.RuntimeFigures{fmt.Sprint("z", n%3): float64(n)}
		}
	case 5:
		ev.figs = core.RuntimeFigures{}
		for i := 1 + n*n%80; i > 0; i-- {
			ev.figs[fmt.Sprint("m", i)] = float64(n) / float64(i)
		}
	case 3:
		ev.figs = core.RuntimeFigures{"x": float64(n), core.Iterations: -5, core.PushedData: 1e9, core.Duration: -1, core.LastDataTime: 3}
	}
	switch ev.out {
	case outErr:
		ev.clust = core.Clust{float64(n)}
		return ev.clust, ev.figs, iterErr(n)
	case outPanic:
		panic(panicked(n, iterErr(n).Error()))
	case outNone:
		return nil, ev.figs, nil
	}
	ev.clust = make(core.Clust, n%4) // possibly empty
	for i := range ev.clust {
		ev.clust[i] = float64(n + i)
	}
	figs := ev.figs
	ev.figs = copyFigs(figs) // as they are now
	return ev.clust, figs, nil
}

// observe lets everything settle and looks at the algorithm
func (w *world) observe(what string) obs {
	synctest.Wait()
	o := obs{at: w.now(), st: w.algo.Status(), clust: w.algo.Centroids()}
	f := w.algo.RuntimeFigures()
	o.figs = copyFigs(f)
	w.mu.Lock()
	defer w.mu.Unlock()
	o.active, o.notifs = w.active, len(w.notifs)
	w.snaps = append(w.snaps, snap{what, o.clust, core.Clust(deepCopies(o.clust)), f, o.figs})
	w.seen = append(w.seen, o)
	// what a reader does to the figures it got is its own business
	if len(w.seen)%2 == 0 {
		f[core.Iterations] = 1e6
		f["intruder"] = 1
		w.snaps[len(w.snaps)-1].figs0 = copyFigs(f)
	}
	return o
}

// within runs f, which must return before a (virtual) deadline
func within(d time.Duration, f func()) bool {
	done := make(chan bool)
	go func() {
		f()
		close(done)
	}()
	select {
	case <-done:
		return true
	case <-time.After(d):
		return false
	}
}

const wedged = 300 * time.Second

func (w *world) patience() time.Duration { return wedged * time.Duration(max(1, w.cf.scale)) }

// odd durations: no operation happens a whole number of milliseconds after another one
func odd(i int) time.Duration {
	if i > 12 {
		return 50<<12 + time.Duration(i-12)*8998
	}
	return 50 << i
}

// run plays the history. The result is not empty if the algorithm is wedged.
func (w *world) run(ops []wop) string {
	for i, op := range ops {
		time.Sleep(time.Duration(op.sleep)*time.Millisecond + odd(i))
		if op.rest > 0 && w.algo.Status().Value != core.Running {
			time.Sleep(time.Duration(op.rest) * 37 * time.Minute)
		}
		ev := &evOp{op: op, rank: i, before: w.observe(fmt.Sprint("before operation ", i))}
		w.ops = append(w.ops, ev)
		time.Sleep(1) // what is before is strictly before
		ev.begin, ev.n0 = w.now(), ev.before.notifs
		if !within(w.patience(), func() {
			switch op.kind {
			case "init":
				ev.err = w.algo.Init()
			case "play":
				ev.err = w.algo.Play()
			case "pause":
				ev.err = w.algo.Pause()
			case "stop":
				ev.err = w.algo.Stop()
			case "push":
				ev.err = w.algo.Push(float64(i))
			case "batch":
				ev.err = w.algo.Batch()
			case "wait":
				var f core.Finishing
				if op.arg > 0 {
					f = core.NewIterFinishing(op.arg, 0)
				}
				ev.err = w.algo.Wait(f, time.Duration(op.dur)*time.Millisecond)
			}
			ev.imm = w.algo.Status()
		}) {
			return fmt.Sprintf("operation %d (%v) has not returned after %v", i, op, w.patience())
		}
		ev.end = w.now()
		ev.after = w.observe(fmt.Sprint("after operation ", i))
		ev.n1 = ev.after.notifs
	}
	time.Sleep(40*time.Millisecond + odd(len(ops)))
	w.observe("at the end")
	return ""
}

// shut ends the history: the algorithm must still obey a stop
func (w *world) shut() string {
	if !within(w.patience(), func() { w.algo.Stop() }) {
		return "the final stop has not returned"
	}
	w.mu.Lock()
	w.dead = true
	w.mu.Unlock()
	time.Sleep(time.Duration(w.cf.timeout)*time.Millisecond + time.Second) // time stops with the bubble: no sleeper may remain
	synctest.Wait()
	if w.active > 0 {
		return "an iteration is executed after the final stop"
	}
	return ""
}

// ---- derived facts ----

// wrun is one run, from Running to Ready or Finished
type wrun struct {
	start, end time.Duration
	over       bool
	final      core.OCStatus
	pauses     [][2]time.Duration
	epoch      int
	iters      []*evIter
}

const forever = time.Duration(math.MaxInt64)

// runs derives the runs from the notifications and gives each its iterations
func (w *world) runs() []*wrun {
	var l []*wrun
	epoch, last := 0, core.Created
	for _, n := range w.notifs {
		switch n.st.Value {
		case core.Initializing:
			epoch++
		case core.Running:
			if last == core.Idle && len(l) > 0 && len(l[len(l)-1].pauses) > 0 {
				r := l[len(l)-1]
				r.pauses[len(r.pauses)-1][1] = n.at
			} else {
				l = append(l, &wrun{start: n.at, end: forever, epoch: epoch})
			}
		case core.Idle:
			if len(l) > 0 {
				r := l[len(l)-1]
				r.pauses = append(r.pauses, [2]time.Duration{n.at, forever})
			}
		case core.Ready, core.Finished:
			if (last == core.Running || last == core.Idle) && len(l) > 0 {
				r := l[len(l)-1]
				r.end, r.over, r.final = n.at, true, n.st
				if k := len(r.pauses); k > 0 && r.pauses[k-1][1] == forever {
					r.pauses[k-1][1] = n.at
				}
			}
		}
		last = n.st.Value
	}
	for _, it := range w.iters {
		for i := len(l) - 1; i >= 0; i-- {
			if l[i].start <= it.start {
				l[i].iters = append(l[i].iters, it)
				break
			}
		}
	}
	return l
}

// reinits are the instants at which the figures restart from zero
func (w *world) reinits() (l []time.Duration) {
	last := core.Created
	for _, n := range w.notifs {
		if n.st.Value == core.Initializing && last == core.Finished {
			l = append(l, n.at)
		}
		last = n.st.Value
	}
	return
}

// from is the last re-initialisation at t (t included)
func (w *world) from(t time.Duration) time.Duration {
	from := time.Duration(-1)
	for _, r := range w.reinits() {
		if r <= t {
			from = r
		}
	}
	return from
}

// pushed counts the accepted pushes at t (t included) since the last re-initialisation
func (w *world) pushed(t time.Duration) (n int, last time.Duration) { return w.pushedIn(w.from(t), t) }

func (w *world) pushedIn(from, t time.Duration) (n int, last time.Duration) {
	last = -1
	for _, p := range w.pushes {
		if p.ok && p.at > from && p.at <= t {
			n++
			last = p.at
		}
	}
	return
}

// counted gives the iterations counted at t since the last re-initialisation
func (w *world) counted(t time.Duration) (n int, last *evIter) { return w.countedIn(w.from(t), t) }

func (w *world) countedIn(from, t time.Duration) (n int, last *evIter) {
	for _, it := range w.iters {
		if it.done && it.out == outClust && it.end <= t && it.start >= from {
			n++
			last = it
		}
	}
	return
}

func (w *world) budget(pushed int) (int, bool) {
	return w.cf.iter + w.cf.perData*pushed, w.cf.iter > 0 || w.cf.perData > 0
}

// over tells if a run must end with so many iterations and pushed data
func (w *world) finished(iters, pushed int) bool {
	b, ok := w.budget(pushed)
	return ok && iters >= b || w.cf.custom > 0 && iters >= w.cf.custom
}

func ms(d time.Duration) string { return fmt.Sprintf("%.4fms", float64(d)/1e6) }

func names(l []evNotif) string {
	var s []string
	for _, n := range l {
		s = append(s, showStatus(n.st))
	}
	return "[" + strings.Join(s, " ") + "]"
}

func showStatus(st core.OCStatus) string {
	if st.Error != nil {
		return fmt.Sprintf("%v(%v)", st.Value, st.Error)
	}
	return st.Value.String()
}

func sameErr(a, b error) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a == b || a.Error() == b.Error()
}

func sameStatus(a, b core.OCStatus) bool { return a.Value == b.Value && sameErr(a.Error, b.Error) }

// judge checks everything that was recorded; problems are filed by property
func (w *world) judge() {
	runs := w.runs()
	w.judgeNotifs()
	w.judgeOps(runs)
	w.judgeRuns(runs)
	w.judgeObs(runs)
	for _, s := range w.snaps {
		if !sameAll(s.clust, s.clust0) {
			w.fail("C29", "centroids obtained %s change from %v to %v", s.what, s.clust0, s.clust)
		}
		if !sameFigs(s.figs, s.figs0) {
			w.fail("C29", "figures obtained %s change from %v to %v", s.what, s.figs0, s.figs)
		}
	}
}

// legal successors in the life cycle
func legal(a, b core.ClustStatus) bool {
	switch a {
	case core.Created, core.Finished:
		return b == core.Initializing
	case core.Initializing:
		return b == core.Ready || b == core.Finished
	case core.Ready:
		return b == core.Running || b == core.Finished
	case core.Running:
		return b == core.Idle || b == core.Ready || b == core.Finished
	case core.Idle:
		return b == core.Running || b == core.Finished
	}
	return false
}

func (w *world) judgeNotifs() {
	last := core.Created
	for i, n := range w.notifs {
		if !legal(last, n.st.Value) {
			w.fail("C28", "notification %d is %v after %v: %s", i, n.st.Value, last, names(w.notifs))
		}
		if !n.sameOC {
			w.fail("C28", "notification %d comes with another algorithm", i)
		}
		if n.st.Error != nil && n.st.Value != core.Finished {
			w.fail("C28", "notification %d is %s", i, showStatus(n.st))
		}
		last = n.st.Value
	}
}

// st builds expected sequences of notifications
func st(v core.ClustStatus) core.OCStatus { return core.NewOCStatus(v) }

var fin0 = core.NewOCStatus(core.Finished)

func matches(got []evNotif, want []core.OCStatus) bool {
	if len(got) != len(want) {
		return false
	}
	for i := range want {
		if !sameStatus(got[i].st, want[i]) {
			return false
		}
	}
	return true
}

func anyMatch(got []evNotif, wants ...[]core.OCStatus) bool {
	for _, x := range wants {
		if matches(got, x) {
			return true
		}
	}
	return false
}

func cat(l ...[]core.OCStatus) (r []core.OCStatus) {
	for _, x := range l {
		r = append(r, x...)
	}
	return
}

func seq(l ...core.OCStatus) []core.OCStatus { return l }

// iterFailure is the error of the run going on at t, if an iteration of it failed
func (w *world) failures(from, to time.Duration) (errs []error) {
	for _, it := range w.iters {
		if it.done && it.end >= from && it.end <= to && it.out >= outErr {
			errs = append(errs, iterErr(it.call))
		}
	}
	return
}

// naturalEnds lists how a run alive at from may have ended by itself until to
func (w *world) naturalEnds(from, to time.Duration, idle bool) (l [][]core.OCStatus) {
	if !idle {
		l = append(l, seq(st(core.Ready)))
		for _, e := range w.failures(from, to) {
			l = append(l, seq(core.NewOCStatusError(e)))
		}
	}
	if w.cf.timeout > 0 {
		l = append(l, seq(core.NewOCStatusError(core.ErrTimeout)))
	}
	return
}

// endsOfRun: all the ways a run started may end by itself
func (w *world) judgeOps(runs []*wrun) {
	_ = runs
	timedOut := core.NewOCStatusError(core.ErrTimeout)
	last := obs{st: st(core.Created)}
	nextInit := 0
	newData := 0
	for _, ev := range w.ops {
		k := ev.op.kind
		desc := fmt.Sprintf("operation %d (%v, at %s, %s before)", ev.rank, ev.op, ms(ev.begin), showStatus(ev.before.st))
		// what happened by itself since the last operation
		auto := w.notifs[last.notifs:ev.n0]
		var may [][]core.OCStatus
		may = append(may, nil)
		switch last.st.Value {
		case core.Running, core.Idle:
			for _, e := range w.naturalEnds(last.at, ev.begin, last.st.Value == core.Idle) {
				may = append(may, e)
				if e[0].Value == core.Ready && w.cf.timeout > 0 {
					may = append(may, cat(e, seq(timedOut)))
				}
			}
		case core.Ready:
			if w.cf.timeout > 0 {
				may = append(may, seq(timedOut))
			}
		}
		if w.cf.notifier&2 == 0 {
			if !anyMatch(auto, may...) {
				w.fail("C22", "by itself, between %s and %s, %s became %s", ms(last.at), ms(ev.begin), showStatus(last.st), names(auto))
			}
			want := last.st
			if len(auto) > 0 {
				want = auto[len(auto)-1].st
			}
			if !sameStatus(want, ev.before.st) {
				w.fail("C28", "%s: the last notification is %s, status %s", desc, showStatus(want), showStatus(ev.before.st))
			}
		}

		initOK := !(nextInit < len(w.cf.initFail) && w.cf.initFail[nextInit] > 0)
		inited := func() {
			nextInit++
		}
		initSeq := seq(st(core.Initializing), st(core.Ready))
		if !initOK {
			initSeq = seq(st(core.Initializing), core.NewOCStatusError(errInit))
		}
		b := ev.before.st.Value
		pushed, _ := w.pushed(ev.begin)
		iters, _ := w.counted(ev.begin)
		started := seq(st(core.Running))
		got := w.notifs[ev.n0:ev.n1]
		// results: error expected and sequences of notifications allowed
		type res struct {
			err error
			imm core.ClustStatus
			seq []core.OCStatus
		}
		var allowed []res
		tail := func(r res, iters, pushed int) []res { // the run may be over at once
			if w.finished(iters, pushed) {
				return []res{{r.err, core.Running, cat(r.seq, seq(st(core.Ready)))}, {r.err, core.Ready, cat(r.seq, seq(st(core.Ready)))}}
			}
			return []res{r}
		}
		tag := "C22"
		switch k {
		case "init":
			if b == core.Created || b == core.Finished {
				if initOK {
					allowed = append(allowed, res{nil, core.Ready, initSeq})
				} else {
					allowed = append(allowed, res{errInit, core.Finished, initSeq})
				}
				inited()
			} else {
				allowed = append(allowed, res{core.ErrAlreadyCreated, b, nil})
			}
		case "play":
			switch b {
			case core.Created, core.Finished:
				if initOK {
					if b == core.Finished {
						iters, pushed = 0, 0
					}
					allowed = tail(res{nil, core.Running, cat(initSeq, started)}, iters, pushed)
				} else {
					allowed = append(allowed, res{errInit, core.Finished, initSeq})
				}
				inited()
			case core.Ready:
				allowed = tail(res{nil, core.Running, started}, iters, pushed)
			case core.Idle:
				allowed = tail(res{nil, core.Running, started}, iters, pushed)
			default:
				allowed = append(allowed, res{core.ErrRunning, b, nil})
			}
		case "pause":
			if b == core.Running {
				allowed = append(allowed, res{nil, core.Idle, seq(st(core.Idle))})
				if w.cf.timeout > 0 { // waiting for the end of the iteration as well
					both := seq(st(core.Idle), timedOut)
					allowed = append(allowed, res{nil, core.Idle, both}, res{nil, core.Finished, both})
					both = seq(st(core.Ready), timedOut)
					allowed = append(allowed, res{core.ErrNotRunning, core.Ready, both}, res{core.ErrNotRunning, core.Finished, both})
				}
				for _, e := range w.naturalEnds(ev.begin, ev.end, false) {
					allowed = append(allowed, res{core.ErrNotRunning, e[0].Value, e})
				}
			} else {
				allowed = append(allowed, res{core.ErrNotRunning, b, nil})
			}
		case "stop":
			switch b {
			case core.Ready, core.Idle:
				allowed = append(allowed, res{nil, core.Finished, seq(fin0)})
			case core.Running:
				allowed = append(allowed, res{nil, core.Finished, seq(fin0)})
				for _, e := range w.naturalEnds(ev.begin, ev.end, false) {
					if e[0].Value == core.Ready {
						allowed = append(allowed, res{nil, core.Finished, cat(e, seq(fin0))})
						if w.cf.timeout > 0 {
							allowed = append(allowed, res{core.ErrNotAlive, core.Finished, cat(e, seq(timedOut))})
						}
					} else {
						allowed = append(allowed, res{core.ErrNotAlive, core.Finished, e}, res{nil, core.Finished, e})
					}
				}
			default:
				allowed = append(allowed, res{core.ErrNotAlive, b, nil})
			}
		case "push":
			rank := 0
			for _, p := range w.pushes {
				if p.at < ev.begin {
					rank++
				}
			}
			switch {
			case rank < len(w.cf.refuse) && w.cf.refuse[rank]:
				allowed = append(allowed, res{errPush, b, nil})
				tag = "C26"
			default:
				newData++
				if w.cf.dataPer > 0 && b == core.Ready && newData >= w.cf.dataPer {
					newData = 0
					allowed = tail(res{nil, core.Running, started}, iters, pushed)
				} else {
					allowed = append(allowed, res{nil, b, nil})
				}
				tag = "C27"
			}
		case "wait":
			// notifications during the wait are those of the run by itself
			switch b {
			case core.Created:
				allowed = append(allowed, res{core.ErrNotRunning, b, nil})
			case core.Idle:
				allowed = append(allowed, res{core.ErrIdle, b, nil})
			case core.Ready, core.Finished:
				allowed = append(allowed, res{nil, b, nil})
			default:
				w.judgeWait(ev, desc, got)
			}
		case "batch":
			inited()
			w.judgeBatch(ev, desc, got, initOK)
		default:
			allowed = append(allowed, res{nil, b, nil})
		}
		if allowed != nil {
			ok, okErr := false, false
			for _, r := range allowed {
				notified := matches(got, r.seq) || w.cf.notifier&2 != 0
				if sameErr(r.err, ev.err) {
					okErr = true
				}
				if sameErr(r.err, ev.err) && r.imm == ev.imm.Value && notified {
					ok = true
				}
			}
			if !ok {
				var e []string
				for _, r := range allowed {
					e = append(e, fmt.Sprintf("error %v, %v, transitions %v", r.err, r.imm, r.seq))
				}
				if tag != "C22" && okErr == false {
					tag = "C26"
				}
				w.fail(tag, "%s returned %v, then %s, transitions %s; allowed: %s", desc, ev.err, showStatus(ev.imm), names(got), strings.Join(e, " or "))
			}
			// without waiting for an iteration, a call takes no time
			if blocking := b == core.Running && (k == "pause" || k == "stop"); !blocking && ev.end != ev.begin {
				w.fail("C28", "%s took %s", desc, ms(ev.end-ev.begin))
			}
		}
		last = ev.after
	}
	// at most one notification per change: the last one is the final status
	if w.cf.notifier&2 == 0 && len(w.seen) > 0 && len(w.notifs) > 0 {
		o := w.seen[len(w.seen)-1]
		if n := w.notifs[len(w.notifs)-1].st; o.notifs == len(w.notifs) && !sameStatus(n, o.st) {
			w.fail("C28", "the last notification is %s, the final status %s", showStatus(n), showStatus(o.st))
		}
	}
}

// firstTime is the first instant in [from, to] at which the waited condition holds
func (w *world) firstTime(from, to time.Duration, iters int) time.Duration {
	if iters > 0 {
		if n, _ := w.counted(from); n >= iters {
			return from
		}
		for _, it := range w.iters {
			if it.done && it.end >= from && it.end <= to {
				if n, _ := w.counted(it.end); n >= iters {
					return it.end
				}
			}
		}
		return forever
	}
	for _, n := range w.notifs {
		if n.at >= from && n.at <= to && (n.st.Value == core.Ready || n.st.Value == core.Idle || n.st.Value == core.Finished) {
			return n.at
		}
	}
	return forever
}

func (w *world) judgeWait(ev *evOp, desc string, got []evNotif) {
	neverFinish := ev.op.arg == 0 && ev.op.dur == 0 && w.conf.Finishing == nil && w.cf.timeout == 0 && w.cf.iter == 0 && w.cf.perData == 0
	if neverFinish {
		if ev.err != core.ErrNeverFinish || ev.begin != ev.end || len(got) > 0 {
			w.fail("C24", "%s returned %v after %s", desc, ev.err, ms(ev.end-ev.begin))
		}
		return
	}
	const slack = time.Second
	h := w.firstTime(ev.begin, ev.end, ev.op.arg)
	dur := time.Duration(ev.op.dur) * time.Millisecond
	limit := forever
	if dur > 0 {
		limit = ev.begin + dur
	}
	status := ev.imm
	switch {
	case h <= ev.end && h <= limit:
		// the condition held first: the error of the run, if any
		if !sameErr(ev.err, status.Error) {
			w.fail("C24", "%s returned %v at %s, the condition held at %s, status %s", desc, ev.err, ms(ev.end), ms(h), showStatus(status))
		}
		if ev.end > h+slack {
			w.fail("C24", "%s returned at %s, the condition held at %s", desc, ms(ev.end), ms(h))
		}
	case ev.end < limit:
		w.fail("C24", "%s returned %v at %s, but the condition does not hold and the duration is not elapsed (status %s)", desc, ev.err, ms(ev.end), showStatus(status))
	default:
		// the duration elapsed first
		if ev.end > limit+slack {
			w.fail("C24", "%s returned at %s, the duration elapsed at %s", desc, ms(ev.end), ms(limit))
		}
		if h > ev.end && ev.err != core.ErrTimeout {
			w.fail("C24", "%s returned %v at %s, the duration elapsed at %s before the condition", desc, ev.err, ms(ev.end), ms(limit))
		}
	}
	// waiting does not act on the run
	for _, n := range got {
		ok := n.st.Value == core.Ready || sameErr(n.st.Error, core.ErrTimeout) && w.cf.timeout > 0
		for _, e := range w.failures(ev.begin, ev.end) {
			ok = ok || sameStatus(n.st, core.NewOCStatusError(e))
		}
		if !ok && w.cf.notifier&2 == 0 {
			w.fail("C24", "%s: the run became %s while waiting", desc, showStatus(n.st))
		}
	}
}

func (w *world) judgeBatch(ev *evOp, desc string, got []evNotif, initOK bool) {
	if w.cf.notifier&2 != 0 {
		return
	}
	bad := func(why string) {
		w.fail("C24", "%s returned %v at %s, then %s, transitions %s: %s", desc, ev.err, ms(ev.end), showStatus(ev.imm), names(got), why)
	}
	// the run before is stopped
	i := 0
	for i < len(got) && got[i].st.Value != core.Initializing {
		i++
	}
	if i == len(got) {
		bad("not restarted from scratch")
		return
	}
	rest := got[i:]
	if !initOK {
		if !matches(rest, seq(st(core.Initializing), core.NewOCStatusError(errInit))) || !sameErr(ev.err, errInit) {
			bad("the initialisation fails")
		}
		return
	}
	base := seq(st(core.Initializing), st(core.Ready), st(core.Running))
	start := rest[0].at
	if w.conf.Finishing == nil && w.cf.timeout == 0 && w.cf.iter == 0 && w.cf.perData == 0 { // it can never finish
		if ev.err == nil {
			bad("the run has not been executed")
		}
		return
	}
	// outcome of the run, from the script
	var fail error
	for _, it := range w.iters {
		if it.start >= start && it.done && it.end <= ev.end && it.out >= outErr {
			fail = iterErr(it.call)
			break
		}
	}
	n, _ := w.counted(ev.end)
	p, _ := w.pushed(ev.end)
	timeout := core.NewOCStatusError(core.ErrTimeout)
	switch {
	case fail != nil:
		// (several iterations cannot fail in one run)
		if !matches(rest, cat(base, seq(core.NewOCStatusError(fail)))) || !sameErr(ev.err, fail) {
			bad("the run fails with " + fail.Error())
		}
	case w.cf.timeout > 0 && (matches(rest, cat(base, seq(timeout))) || matches(rest, cat(base, seq(st(core.Ready), timeout)))):
		if !sameErr(ev.err, core.ErrTimeout) && !(ev.err == nil && len(rest) == 5) {
			bad("the run timed out")
		}
	default:
		if !matches(rest, cat(base, seq(st(core.Ready), fin0))) || ev.err != nil || ev.imm.Value != core.Finished {
			bad("the run ends without error")
		}
		if !w.finished(n, p) {
			bad(fmt.Sprintf("only %d iterations executed for %d elements", n, p))
		}
	}
	if !legalEnd(ev.imm) {
		bad("the algorithm is not finished")
	}
}

func legalEnd(s core.OCStatus) bool { return s.Value == core.Finished }

func (w *world) judgeRuns(runs []*wrun) {
	if w.maxAct > 1 {
		w.fail("C25", "%d iterations at the same time", w.maxAct)
	}
	if w.cf.notifier&2 != 0 {
		return // notifications have no exact instants
	}
	published := func(t time.Duration) core.Clust { // last published centroids before t
		var cl core.Clust
		at := time.Duration(-1)
		for _, in := range w.inits {
			if in.at <= t {
				at = in.at
				cl = nil
				if in.ok {
					cl = in.clust
				}
			}
		}
		for _, it := range w.iters {
			if it.done && it.end <= t && it.start >= at && it.out == outClust {
				cl = it.clust
			}
		}
		return cl
	}
	assigned := 0
	for ri, r := range runs {
		assigned += len(r.iters)
		resume, from := r.start, w.from(r.start)
		for i, it := range r.iters {
			desc := fmt.Sprintf("iteration call %d at %s (run %d)", it.call, ms(it.start), ri)
			// only while running
			for _, p := range r.pauses {
				if it.start >= p[0] && it.start < p[1] {
					w.fail("C25", "%s starts while the algorithm is idle (%s to %s)", desc, ms(p[0]), ms(p[1]))
				}
			}
			if it.start > r.end || it.start == r.end && it.start != r.start {
				w.fail("C25", "%s starts after the end of the run at %s (%s)", desc, ms(r.end), showStatus(r.final))
				if r.final.Value == core.Finished {
					w.fail("C22", "%s starts after the run was stopped at %s (%s)", desc, ms(r.end), showStatus(r.final))
				}
			}
			n, _ := w.countedIn(from, it.start)
			p, _ := w.pushedIn(from, it.start)
			if w.finished(n, p) {
				b, _ := w.budget(p)
				w.fail("C25", "%s starts although %d iterations are done for %d elements (budget %d, custom %d)", desc, n, p, b, w.cf.custom)
			}
			// iteration contract
			if it.model.Value != core.Running || it.model.Error != nil {
				w.fail("C39", "%s sees status %s", desc, showStatus(it.model))
			}
			if it.mconf != core.Conf(w.conf) || it.mspace != w.space {
				w.fail("C39", "%s sees another configuration or space", desc)
			}
			if want := published(it.start); !sameAll(it.mclust, want) {
				w.fail("C39", "%s sees centroids %v, published %v", desc, it.mclust, want)
			}
			if it.mfigs[core.Iterations] != float64(n) || it.mfigs[core.PushedData] != float64(p) {
				w.fail("C39", "%s sees figures %v, %d iterations and %d elements pushed", desc, it.mfigs, n, p)
			}
			// failure ends the run with that error
			if it.done && it.out >= outErr {
				if !r.over || r.end != it.end || !sameStatus(r.final, core.NewOCStatusError(iterErr(it.call))) {
					w.fail("C39", "%s fails, the run ends at %s with %s", desc, ms(r.end), showStatus(r.final))
				}
			}
			// frequency
			period := w.cf.period
			if i > 0 {
				prev := r.iters[i-1]
				resumed, first := false, false // a pause between the two, prev is the first after a pause
				for _, p := range r.pauses {
					if p[1] > prev.start && p[1] <= it.start {
						resumed = true
					}
					if p[1] <= prev.start && (i == 1 || p[1] > r.iters[i-2].start) {
						first = true
					}
				}
				gap := it.start - prev.start
				if period > 0 && gap < period && !first {
					w.fail("C32", "%s starts %s after the previous one, frequency %v Hz", desc, ms(gap), w.conf.IterFreq)
				}
				if want := max(period, prev.end-prev.start); gap > want+time.Millisecond && !resumed && prev.done {
					w.fail("C32", "%s starts %s after the previous one (period %v, which lasted %s)", desc, ms(gap), period, ms(prev.end-prev.start))
				}
			} else if it.start > resume+time.Millisecond && len(r.pauses) == 0 {
				w.fail("C32", "%s is the first of the run started at %s", desc, ms(r.start))
			}
			// timeout
			if w.conf.Timeout > 0 && it.start > r.start+w.conf.Timeout {
				w.fail("C31", "%s starts after the timeout of the run started at %s", desc, ms(r.start))
			}
		}
		// at most t*f+1 starts, plus resumptions, in any interval
		if w.cf.period > 0 {
			period := w.cf.period
			for i := range r.iters {
				for j := i + 1; j < len(r.iters); j++ {
					res := 0
					for _, p := range r.pauses {
						if (i == 0 || p[1] > r.iters[i-1].start) && p[1] <= r.iters[j].start {
							res++
						}
					}
					t := r.iters[j].start - r.iters[i].start
					if n := j - i + 1; float64(n) > float64(t)/float64(period)+1+float64(res)+1e-6 {
						w.fail("C32", "run %d: %d iterations in %s with %d resumptions, frequency %v Hz", ri, n, ms(t), res, w.conf.IterFreq)
					}
				}
			}
		}
		if r.over {
			n, _ := w.countedIn(from, r.end)
			p, _ := w.pushedIn(from, r.end)
			switch {
			case r.final.Value == core.Ready:
				if !w.finished(n, p) {
					b, _ := w.budget(p)
					w.fail("C25", "run %d ends ready at %s after %d iterations for %d elements (budget %d, custom %d)", ri, ms(r.end), n, p, b, w.cf.custom)
				}
			case sameErr(r.final.Error, core.ErrTimeout):
				if w.conf.Timeout == 0 || r.end < r.start+w.conf.Timeout {
					w.fail("C31", "run %d started at %s times out at %s", ri, ms(r.start), ms(r.end))
				}
			case r.final.Error == nil:
				asked := false
				for _, ev := range w.ops {
					asked = asked || (ev.op.kind == "stop" || ev.op.kind == "batch") && ev.begin <= r.end && ev.end >= r.end
				}
				if !asked {
					w.fail("C25", "run %d is finished at %s, nobody stopped it", ri, ms(r.end))
				}
			}
		}
		if w.conf.Timeout > 0 {
			// the run must be over one iteration (and temporisation) after its timeout
			limit := r.start + w.conf.Timeout
			for _, it := range r.iters {
				if it.start <= limit {
					if it.done {
						limit = max(limit, it.end, it.start+w.cf.period)
					} else {
						limit = forever
					}
				}
			}
			end := w.seen[len(w.seen)-1].at
			if limit != forever && r.end > limit && end > limit {
				w.fail("C31", "run %d started at %s with timeout %v is not over at %s (end %s, %s)", ri, ms(r.start), w.conf.Timeout, ms(limit), ms(r.end), showStatus(r.final))
			}
		}
	}
	if assigned != len(w.iters) {
		w.fail("C25", "%d iterations are executed outside any run", len(w.iters)-assigned)
	}
	// a timeout error out of a run: only of a run that has just ended, never too early, not after a stop
	last, lastRun := core.Created, -1
	for i, n := range w.notifs {
		if last == core.Ready && sameErr(n.st.Error, core.ErrTimeout) {
			if lastRun < 0 || n.at < runs[lastRun].start+w.conf.Timeout {
				w.fail("C31", "ready algorithm timed out at %s (notification %d)", ms(n.at), i)
			}
		}
		switch n.st.Value {
		case core.Initializing:
			lastRun = -1
		case core.Running:
			if last != core.Idle {
				for k, r := range runs {
					if r.start <= n.at {
						lastRun = k
					}
				}
			}
		}
		last = n.st.Value
	}
}

// judgeObs checks the settled observations
func (w *world) judgeObs(runs []*wrun) {
	if w.cf.notifier&2 != 0 {
		return
	}
	prevIters, prevPushed, prevDur, prevAt := 0., 0., 0., time.Duration(-1)
	for _, o := range w.seen {
		desc := fmt.Sprintf("at %s (%s)", ms(o.at), showStatus(o.st))
		n, lastIt := w.counted(o.at)
		p, lastPush := w.pushed(o.at)
		from, epochs := time.Duration(-1), 0
		for _, r := range w.reinits() {
			if r <= o.at {
				from = r
				epochs++
			}
		}
		// duration: runs since the last re-initialisation
		var dur time.Duration
		var current *wrun
		for _, r := range runs {
			if r.start > o.at || r.start < from {
				continue
			}
			if r.end <= o.at {
				dur += r.end - r.start
				continue
			}
			current = r
			var last *evIter
			for _, it := range r.iters {
				if it.done && it.end <= o.at && it.out == outClust {
					last = it
				}
			}
			if last != nil {
				dur += last.end - r.start
			}
		}
		f := o.figs
		if f[core.Iterations] != float64(n) {
			w.fail("C25", "%s: %v iterations counted, %d executed", desc, f[core.Iterations], n)
			w.fail("C39", "%s: %v iterations counted, %d executed", desc, f[core.Iterations], n)
		}
		if f[core.PushedData] != float64(p) {
			w.fail("C26", "%s: %v pushed data counted, %d accepted", desc, f[core.PushedData], p)
		}
		if f[core.Duration] != float64(dur) {
			w.fail("C40", "%s: duration %v, want %v", desc, time.Duration(f[core.Duration]), dur)
		}
		lastTime := 0.
		if lastPush >= 0 {
			lastTime = float64(w.t0.Add(lastPush).Unix())
		}
		if f[core.LastDataTime] != lastTime {
			w.fail("C40", "%s: last data time %v, want %v", desc, f[core.LastDataTime], lastTime)
		}
		since := prevAt < from // re-initialised meanwhile
		if !since {
			if f[core.Duration] < prevDur || f[core.Iterations] < prevIters || f[core.PushedData] < prevPushed {
				w.fail("C40", "%s: figures %v go backwards", desc, f)
			}
		} else if len(w.ops) > 0 && f[core.Iterations] == float64(n) {
			// judged by the counts above
		}
		prevIters, prevPushed, prevDur, prevAt = f[core.Iterations], f[core.PushedData], f[core.Duration], o.at
		if epochs > 0 || o.at >= from { // restart from zero
			if f[core.Iterations] > float64(n) || f[core.PushedData] > float64(p) || f[core.Duration] > float64(dur) {
				w.fail("C35", "%s: figures %v since the re-initialisation at %s: %d iterations, %d elements, %v", desc, f, ms(from), n, p, dur)
			}
			if f[core.LastDataTime] != lastTime {
				w.fail("C35", "%s: last data time %v, want %v", desc, f[core.LastDataTime], lastTime)
			}
		}
		if o.at-from >= 0 && from >= 0 && time.Duration(f[core.Duration]) > o.at-from {
			w.fail("C40", "%s: duration %v exceeds the time since initialisation", desc, time.Duration(f[core.Duration]))
		}
		// the figures of the last counted iteration are published
		if w.cf.figs > 0 && lastIt != nil {
			want := copyFigs(lastIt.figs)
			want[core.Iterations], want[core.PushedData], want[core.LastDataTime], want[core.Duration] = float64(n), float64(p), lastTime, float64(dur)
			if !sameFigs(f, want) {
				w.fail("C29", "%s: figures %v, want %v", desc, f, want)
			}
		} else {
			for k := range f {
				if k != core.Iterations && k != core.PushedData && k != core.LastDataTime && k != core.Duration {
					w.fail("C29", "%s: figure %s comes from nowhere: %v", desc, k, f)
				}
			}
		}
		// published centroids
		var want core.Clust
		var at time.Duration = -1
		for _, in := range w.inits {
			if in.at <= o.at {
				at, want = in.at, nil
				if in.ok {
					want = in.clust
				}
			}
		}
		for _, it := range w.iters {
			if it.done && it.end <= o.at && it.start >= at && it.out == outClust {
				want = it.clust
			}
		}
		if !sameAll(o.clust, want) {
			w.fail("C29", "%s: centroids %v, last published %v", desc, o.clust, want)
			w.fail("C39", "%s: centroids %v, last published %v", desc, o.clust, want)
		}
		// a running algorithm iterates, the others do not
		switch {
		case o.st.Value != core.Running && o.active > 0:
			w.fail("C25", "%s: an iteration is executed", desc)
		case o.st.Value == core.Running && o.active == 0:
			ok := false
			if current != nil && w.cf.period > 0 && len(current.iters) > 0 {
				for _, it := range current.iters {
					if it.start <= o.at && it.start+w.cf.period > o.at {
						ok = true // temporisation
					}
				}
			}
			if !ok {
				w.fail("C25", "%s: no iteration is executed", desc)
			}
		}
		// errors are those of the run
		if o.st.Error != nil && o.st.Value != core.Finished {
			w.fail("C22", "%s: error with status %v", desc, o.st.Value)
		}
		if o.st.Value == core.Initializing {
			w.fail("C22", "%s: still initialising", desc)
		}
	}
}

// ---- generation ----

type wbias struct {
	timeout, freq, dataPer, faults, push, notif, restart, wait, batch, short bool
}

// periods of iterations whose frequency, a floating point number, gives them back exactly
var periods = func() (l []time.Duration) {
	for _, us := range []int{1000, 5000, 10000, 20000, 25000, 40000, 50000, 100000, 200000, 1250, 1650, 2800, 3300, 6250, 7700, 14300, 33350, 62500, 83300, 142850, 333300, 700000, 1500000} {
		p := time.Duration(us) * time.Microsecond
		if time.Duration(float64(time.Second)/(1e9/float64(p))) == p {
			l = append(l, p)
		}
	}
	return
}()

func drawWorld(t *rapid.T, b wbias) (cf wconf, ops []wop) {
	chance := func(num int, l string) bool { return rapid.IntRange(0, 99).Draw(t, l) >= 100-num }
	pct := func(on bool, hi, lo int) int {
		if on {
			return hi
		}
		return lo
	}
	// sometimes long histories and large budgets
	far := 1
	if rarely(t, 5) {
		far = 10
	}
	if chance(60, "hasiter") {
		cf.iter = rapid.IntRange(1, 8*far).Draw(t, "iter")
	}
	if chance(pct(b.push, 45, 20), "hasper") {
		cf.perData = rapid.IntRange(1, 3*((far+3)/4)).Draw(t, "per")
	}
	if chance(pct(b.dataPer, 85, 15), "hasdpi") {
		cf.dataPer = rapid.IntRange(1, 4*far).Draw(t, "dpi")
	}
	if chance(pct(b.freq, 90, 15), "hasfreq") {
		cf.period = rapid.SampledFrom(periods).Draw(t, "period")
	}
	if chance(pct(b.timeout, 90, 10), "hastimeout") {
		cf.timeout = rapid.IntRange(5, 300).Draw(t, "timeout")
	}
	if chance(20, "hascustom") {
		cf.custom = rapid.IntRange(1, 10*far).Draw(t, "custom")
	}
	cf.figs = rapid.IntRange(0, 5).Draw(t, "figs")
	if b.notif {
		cf.notifier = rapid.IntRange(0, 3).Draw(t, "notifier")
	}
	durs := []int{1, 2, 5, 10, 20, 50, 80}
	if far > 1 {
		durs = durs[2:]
	}
	cf.durs = rapid.SliceOfN(rapid.SampledFrom(durs), 1, 5).Draw(t, "durs")
	outs := []int{outClust, outClust, outClust, outClust, outNone}
	if chance(pct(b.faults, 80, 20), "faulty") {
		outs = append(outs, outErr, outPanic)
	}
	cf.outs = rapid.SliceOfN(rapid.SampledFrom(outs), 0, 20*far).Draw(t, "outs")
	if chance(pct(b.faults, 40, 10), "initfaulty") {
		cf.initFail = rapid.SliceOfN(rapid.IntRange(0, 2), 0, 4).Draw(t, "initFail")
	}
	if chance(pct(b.push, 40, 10), "refusing") {
		cf.refuse = rapid.SliceOfN(rapid.Bool(), 0, 8).Draw(t, "refuse")
	}
	finishing := cf.iter > 0 || cf.perData > 0 || cf.custom > 0 || cf.timeout > 0
	kinds := []string{"play", "play", "play", "push", "push", "pause", "stop", "init"}
	add := func(k string, n int) {
		for ; n > 0; n-- {
			kinds = append(kinds, k)
		}
	}
	if b.push || b.dataPer {
		add("push", 6)
	}
	if b.wait {
		add("wait", 5)
	}
	if b.batch {
		add("batch", 4)
	}
	if b.restart {
		add("stop", 2)
		add("init", 1)
	}
	add("wait", 1)
	add("look", 1)
	if finishing {
		add("batch", 1)
	}
	if far > 1 && rapid.Bool().Draw(t, "manypushes") {
		add("push", 20)
	}
	n := rapid.IntRange(1, min(12*far, 80)).Draw(t, "nops")
	for i := 0; i < n; i++ {
		o := wop{kind: rapid.SampledFrom(kinds).Draw(t, "op")}
		o.sleep = rapid.SampledFrom([]int{0, 0, 1, 3, 8, 15, 30, 60, 150, 400, 1500}).Draw(t, "sleep")
		if rarely(t, 4) {
			o.rest = rapid.SampledFrom([]int{1, 2, 40}).Draw(t, "rest")
		}
		if o.kind == "wait" {
			o.arg = max(0, rapid.IntRange(-3, 8).Draw(t, "cond"))
			o.dur = rapid.SampledFrom([]int{0, 1, 30, 90, 150, 350, 1000}).Draw(t, "dur")
			if o.arg > 0 && o.dur == 0 {
				o.dur = 500 // otherwise it may wait forever
			}
		}
		ops = append(ops, o)
	}
	if rapid.IntRange(0, 3).Draw(t, "startplay") > 0 {
		ops[0].kind = "play"
	}
	if !b.short && rarely(t, 4) { // minutes or hours
		cf.scale = rapid.SampledFrom([]int{7, 60, 900}).Draw(t, "scale")
		cf.timeout *= cf.scale
		for i := range cf.durs {
			cf.durs[i] *= cf.scale
		}
		for i := range ops {
			ops[i].sleep *= cf.scale
			ops[i].dur *= cf.scale
		}
	}
	return
}

// classes describes what a history reached
func (w *world) classes(c *Case) {
	kinds := map[string]bool{}
	for _, n := range w.notifs {
		kinds[n.st.Value.String()] = true
		if n.st.Error != nil {
			switch {
			case n.st.Error == core.ErrTimeout:
				kinds["timed out"] = true
			case sameErr(n.st.Error, errInit):
				kinds["initialisation fails"] = true
			default:
				kinds["iteration fails"] = true
			}
		}
	}
	if len(w.reinits()) > 0 {
		kinds["restarted"] = true
	}
	var l []string
	for k := range kinds {
		l = append(l, k)
	}
	sort.Strings(l)
	for _, k := range l {
		c.Class(true, k)
	}
}
