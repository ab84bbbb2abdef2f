package distclusverif

import (
	"fmt"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	"github.com/wearelumenai/distclus/core"
)

// concOp is what a concurrent client did
type concOp struct {
	client, rank int
	kind         string
	begin, end   time.Duration
	err          error
	imm          core.OCStatus // read just after
}

const concRule = "2..4 concurrent clients with random control calls, pushes, waits and batches over a scripted implementation (durations, errors, panics, refusals, failing initialisations), with seeded random delays at lock operations, in virtual time"

func drawConc(t *rapid.T) (cf wconf, cl [][]cop, pseed int) {
	cf, _ = drawWorld(t, wbias{faults: true, short: true})
	cf.durs = rapid.SliceOfN(rapid.SampledFrom([]int{1, 1, 2, 5, 10}), 1, 4).Draw(t, "cdurs")
	if cf.notifier&2 != 0 {
		cf.notifier = 1
	}
	cf.period = min(cf.period, 10*time.Millisecond)
	pseed = max(0, rapid.IntRange(-300, 500).Draw(t, "perturbation"))
	kinds := []string{"play", "play", "play", "pause", "pause", "stop", "stop", "init", "push", "wait"}
	if rapid.Bool().Draw(t, "batches") {
		kinds = append(kinds, "batch")
	}
	if rapid.Bool().Draw(t, "notifier") {
		cf.notifier = 1
	}
	for i := rapid.IntRange(2, 4).Draw(t, "clients"); i > 0; i-- {
		cl = append(cl, drawClient(t, kinds, 1, 9))
	}
	return
}

// conc plays a concurrent history and checks what must hold whatever the schedule
func (w *world) conc(cl [][]cop, pseed int) string {
	var mu sync.Mutex
	var ops []*concOp
	if m := clients(len(cl), func(i int) {
		for j, o := range cl[i] {
			time.Sleep(time.Duration(o.sleep) * 100 * time.Microsecond)
			r := &concOp{client: i, rank: j, kind: o.kind, begin: w.now(), end: -1}
			mu.Lock()
			ops = append(ops, r)
			mu.Unlock()
			switch o.kind {
			case "init":
				r.err = w.algo.Init()
			case "play":
				r.err = w.algo.Play()
			case "pause":
				r.err = w.algo.Pause()
			case "stop":
				r.err = w.algo.Stop()
			case "push":
				r.err = w.algo.Push(float64(j))
			case "batch":
				r.err = w.algo.Batch()
			case "wait":
				r.err = w.algo.Wait(nil, 20*time.Millisecond)
			}
			r.end = w.now()
			r.imm = w.algo.Status()
		}
	}); m != "" {
		mu.Lock()
		defer mu.Unlock()
		for _, r := range ops {
			if r.end < 0 {
				w.fail("C23", "%s does not return from operation %d (%s): notifications %s", fmt.Sprint("client ", r.client), r.rank, r.kind, names(w.notifs))
			}
		}
		return m
	}
	// the algorithm obeys again
	extra := w.after()
	// failing iterations and outcomes
	for _, r := range ops {
		allowed := map[string][]error{
			"play":  {nil, core.ErrRunning, errInit},
			"pause": {nil, core.ErrNotRunning},
			"stop":  {nil, core.ErrNotAlive},
			"init":  {nil, core.ErrAlreadyCreated, errInit},
			"push":  {nil, errPush},
			"wait":  {nil, core.ErrTimeout, core.ErrIdle, core.ErrNotRunning, core.ErrNeverFinish, errInit},
			"batch": {nil, core.ErrRunning, errInit, core.ErrTimeout, core.ErrIdle, core.ErrNotRunning, core.ErrNeverFinish},
		}[r.kind]
		ok := false
		for _, e := range allowed {
			ok = ok || sameErr(e, r.err)
		}
		if r.kind == "wait" || r.kind == "batch" {
			for _, it := range w.iters {
				ok = ok || it.out >= outErr && sameErr(r.err, iterErr(it.call))
			}
		}
		if !ok {
			w.fail("C22", "client %d: operation %d (%s) returns %v", r.client, r.rank, r.kind, r.err)
		}
	}
	// a client alone reads the consequence of its call
	if len(cl) == 1 {
		for _, r := range ops {
			var want []core.ClustStatus
			switch {
			case r.err != nil:
			case r.kind == "play":
				want = []core.ClustStatus{core.Running, core.Ready, core.Finished}
			case r.kind == "pause" && w.cf.timeout > 0:
				want = []core.ClustStatus{core.Idle, core.Finished}
			case r.kind == "pause":
				want = []core.ClustStatus{core.Idle}
			case r.kind == "stop" || r.kind == "batch":
				want = []core.ClustStatus{core.Finished}
			case r.kind == "init" && w.cf.timeout > 0:
				want = []core.ClustStatus{core.Ready, core.Finished}
			case r.kind == "init":
				want = []core.ClustStatus{core.Ready}
			}
			ok := want == nil
			for _, v := range want {
				ok = ok || r.imm.Value == v
			}
			if !ok {
				for _, id := range []string{"C22", "C28"} {
					w.fail(id, "%s just after operation %d (%s) has succeeded: notifications %s", showStatus(r.imm), r.rank, r.kind, names(w.notifs))
				}
			}
		}
	}
	// every transition has its call
	count := func(kind string) (n int) {
		for _, r := range ops {
			if r.kind == kind && r.err == nil {
				n++
			}
		}
		return
	}
	batch := false
	for _, r := range ops {
		batch = batch || r.kind == "batch"
	}
	if n := w.has(core.Initializing); n != len(w.inits) {
		w.fail("C28", "%d initialisations, %d notified: %s", len(w.inits), n, names(w.notifs))
	}
	if n := w.has(core.Idle); n != count("pause") {
		w.fail("C28", "%d pauses, %d notified: %s", count("pause"), n, names(w.notifs))
		w.fail("C22", "%d pauses, %d notified: %s", count("pause"), n, names(w.notifs))
	}
	stopped := 0
	failed := map[string]int{}
	for _, n := range w.notifs {
		if n.st.Value == core.Finished {
			if n.st.Error == nil {
				stopped++
			} else {
				failed[n.st.Error.Error()]++
			}
		}
	}
	if !batch {
		if n := w.has(core.Running); n != count("play") && w.cf.dataPer == 0 || n < count("play") {
			w.fail("C28", "%d plays, %d notified: %s", count("play"), n, names(w.notifs))
			w.fail("C22", "%d plays, %d notified: %s", count("play"), n, names(w.notifs))
		}
		if stopped != count("stop")+extra {
			w.fail("C28", "%d stops, %d notified: %s", count("stop"), stopped, names(w.notifs))
			w.fail("C22", "%d stops, %d notified: %s", count("stop"), stopped, names(w.notifs))
		}
	}
	for _, it := range w.iters {
		if it.out >= outErr && it.done {
			if n := failed[iterErr(it.call).Error()]; n != 1 {
				w.fail("C23", "iteration %d failed, notified %d times: %s", it.call, n, names(w.notifs))
				w.fail("C39", "iteration %d failed, notified %d times: %s", it.call, n, names(w.notifs))
			}
		}
	}
	nf := 0
	for _, in := range w.inits {
		if !in.ok {
			nf++
		}
	}
	if n := failed[errInit.Error()]; n != nf {
		w.fail("C23", "%d initialisations failed, %d notified", nf, n)
	}
	if n := failed[core.ErrTimeout.Error()]; n > 0 && w.cf.timeout == 0 {
		w.fail("C31", "timed out without timeout")
	}
	w.judgeNotifs()
	if w.maxAct > 1 {
		w.fail("C25", "%d iterations at the same time", w.maxAct)
	}
	// without delays, a refusal has a reason at some instant of the call
	if pseed == 0 && w.cf.notifier&2 == 0 {
		during := func(r *concOp, f func(core.ClustStatus) bool) bool {
			last, from := core.Created, time.Duration(0)
			for i := 0; i <= len(w.notifs); i++ {
				to := forever
				if i < len(w.notifs) {
					to = w.notifs[i].at
				}
				if from <= r.end && to >= r.begin && f(last) {
					return true
				}
				if i < len(w.notifs) {
					last, from = w.notifs[i].st.Value, to
				}
			}
			return false
		}
		is := func(l ...core.ClustStatus) func(core.ClustStatus) bool {
			return func(v core.ClustStatus) bool {
				for _, x := range l {
					if v == x {
						return true
					}
				}
				return false
			}
		}
		for _, r := range ops {
			reason := func(core.ClustStatus) bool { return true }
			switch r.err {
			case core.ErrRunning:
				if r.kind == "play" {
					reason = is(core.Running)
				}
			case core.ErrNotRunning:
				reason = func(v core.ClustStatus) bool { return v != core.Running }
			case core.ErrNotAlive:
				reason = is(core.Created, core.Initializing, core.Finished)
			case core.ErrAlreadyCreated:
				reason = func(v core.ClustStatus) bool { return v != core.Created && v != core.Finished }
			case core.ErrIdle:
				reason = is(core.Idle)
			}
			if !during(r, reason) {
				w.fail("C22", "client %d: operation %d (%s) returns %v at %s, notifications %s", r.client, r.rank, r.kind, r.err, ms(r.end), names(w.notifs))
			}
		}
	}
	// pushes
	pushes := 0
	for _, r := range ops {
		if r.kind == "push" {
			pushes++
		}
	}
	if len(w.pushes) != pushes {
		w.fail("C26", "%d pushes, %d reach the implementation", pushes, len(w.pushes))
	}
	return ""
}

// after: once the clients are done the algorithm can be stopped, initialised and played again
func (w *world) after() (stops int) {
	call := func(what string, f func() error) (err error, ok bool) {
		if !within(wedged, func() { err = f() }) {
			w.fail("C23", "%s does not return after the history: notifications %s", what, names(w.notifs))
			return nil, false
		}
		return err, true
	}
	synctest.Wait()
	time.Sleep(50 * time.Millisecond)
	w.mu.Lock()
	notifs := append([]evNotif{}, w.notifs...)
	w.mu.Unlock()
	st0 := w.algo.Status()
	if len(notifs) > 0 {
		if st0.Value == core.Initializing {
			w.fail("C23", "still initialising: %s", names(notifs))
		}
	}
	err, ok := call("Stop", w.algo.Stop)
	if !ok {
		return
	}
	if err == nil {
		stops++
	}
	if st := w.algo.Status(); (st0.Value == core.Ready || st0.Value == core.Idle || st0.Value == core.Running) && st.Value != core.Finished {
		w.fail("C23", "%s after Stop (%v) from %s", showStatus(st), err, showStatus(st0))
		return
	}
	synctest.Wait()
	w.mu.Lock()
	n := len(w.iters)
	w.mu.Unlock()
	time.Sleep(100 * time.Millisecond)
	w.mu.Lock()
	if len(w.iters) != n || w.active > 0 {
		w.mu.Unlock()
		w.fail("C23", "iterations go on after Stop")
		return
	}
	// the record ends here, the rest is judged at once
	w.frozen = &world{iters: w.iters, notifs: w.notifs, inits: w.inits}
	mark := len(w.iters)
	w.mu.Unlock()
	w.algo.Conf().Ctrl().Timeout = 0 // with delays it may come before the first iteration
	played := false
	for i := 0; i < 10 && !played; i++ {
		err, ok := call("Play", w.algo.Play)
		if !ok {
			return
		}
		if err != nil && !sameErr(err, errInit) {
			w.fail("C23", "Play after the history: %v", err)
			return
		}
		played = err == nil
	}
	if !played {
		w.fail("C23", "the algorithm cannot be played again")
		return
	}
	time.Sleep(20 * time.Millisecond)
	w.mu.Lock()
	n = len(w.iters) - mark
	w.mu.Unlock()
	if b, has := w.budget(0); n == 0 && !(has && b == 0) {
		w.fail("C23", "no iteration is executed when played after the history (%s)", showStatus(w.algo.Status()))
	}
	if _, ok := call("Stop", w.algo.Stop); ok {
		if st := w.algo.Status(); st.Value != core.Finished {
			w.fail("C23", "%s after Stop", showStatus(st))
		}
	}
	w.mu.Lock()
	w.dead = true
	w.mu.Unlock()
	time.Sleep(time.Second)
	synctest.Wait()
	w.mu.Lock()
	w.iters, w.notifs, w.inits = w.frozen.iters, w.frozen.notifs, w.frozen.inits
	w.mu.Unlock()
	return
}

func concSub(c *Check, t *testing.T, n int) {
	c.Sub("concurrent clients", n, func(c2 *Case) {
		cf, cl, pseed := drawConc(c2.T)
		c2.Data("%v; perturbation %d; clients %v", cf, pseed, cl)
		var w *world
		c2.bubble(t, func() string {
			defer perturb(pseed)()
			w = newWorld(cf)
			m := w.conc(cl, pseed)
			if p := w.probs[c.ID]; p != "" {
				return p
			}
			return m
		})
		w.classes(c2)
		c2.Nontrivial(len(w.notifs) > 3)
	})
}

func TestC23(t *testing.T) {
	c := newCheck(t, "C23", concRule+"; afterwards the algorithm must stop, initialise and play again; non-trivial: at least four transitions")
	concSub(c, t, 10000)
	oneClient(c, t, 3000)
	anyError(c, t, 3000)
	commandingNotifier(c, t, 4000)
	worldSub(c, t, "sequential", 5000, wbias{faults: true, restart: true, batch: true}, func(w *world) bool { return len(w.notifs) > 3 })
	c.Sub("long histories", 60, func(c *Case) { longControls(c, t) })
}
