package distclusverif

import (
	"errors"
	"fmt"
	"math"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/wearelumenai/distclus/core"
)

const worldRule = "random histories of 1..12 control calls, pushes, waits and batches by one client at random instants of virtual time, over random configurations, scripted iteration durations and outcomes; judged against the recorded iterations, pushes, notifications and observations"

// worldSub plays generated histories and reports the problems of one property
func worldSub(c *Check, t *testing.T, name string, n int, b wbias, nontrivial func(w *world) bool) {
	c.Sub(name, n, func(c2 *Case) {
		cf, ops := drawWorld(c2.T, b)
		c2.Data("%v; %v", cf, ops)
		var w *world
		c2.bubble(t, func() string {
			w = newWorld(cf)
			if m := w.run(ops); m != "" {
				return m
			}
			w.judge()
			if m := w.shut(); m != "" {
				return m
			}
			return w.probs[c.ID]
		})
		if c.ID == "C22" && len(w.probs) > 0 {
			w.blameRefused(c2, t, ops)
		}
		w.classes(c2)
		c2.Nontrivial(nontrivial(w))
	})
}

// blameRefused plays the history again without the calls that were refused: the problems
// found (whatever they are) must remain, since a refused call changes nothing.
func (w *world) blameRefused(c *Case, t *testing.T, ops []wop) {
	c.Helper()
	without := append([]wop(nil), ops...)
	var refused []string
	for _, ev := range w.ops {
		switch ev.err {
		case core.ErrAlreadyCreated, core.ErrRunning, core.ErrNotRunning, core.ErrNotAlive, core.ErrIdle, core.ErrNeverFinish:
			without[ev.rank].kind = "look"
			refused = append(refused, fmt.Sprintf("%d (%v)", ev.rank, ev.op))
		}
	}
	if len(refused) == 0 {
		return
	}
	var w2 *world
	c.bubble(t, func() string {
		w2 = newWorld(w.cf)
		if m := w2.run(without); m != "" {
			return m
		}
		w2.judge()
		return w2.shut()
	})
	if len(w2.probs) == 0 {
		c.Failf("the refused calls %s change something, without them all is well: %v", strings.Join(refused, ", "), w.probs)
	}
}

func (w *world) has(v core.ClustStatus) int {
	n := 0
	for _, x := range w.notifs {
		if x.st.Value == v {
			n++
		}
	}
	return n
}

func TestC22(t *testing.T) {
	c := newCheck(t, "C22", worldRule+"; and "+concRule+"; non-trivial: at least three transitions and a refused call")
	worldSub(c, t, "life cycle", 12000, wbias{restart: true, faults: true}, func(w *world) bool {
		refused := false
		for _, o := range w.ops {
			refused = refused || o.err != nil
		}
		return refused && len(w.notifs) > 2
	})
	concSub(c, t, 5000)
	oneClient(c, t, 4000)
}

func TestC24(t *testing.T) {
	c := newCheck(t, "C24", worldRule+"; non-trivial: a wait on a running algorithm or a batch")
	c.Sub("long waits", 150, func(c *Case) { longWaits(c, t) })
	worldSub(c, t, "wait and batch", 12000, wbias{wait: true, batch: true, faults: true}, func(w *world) bool {
		for _, o := range w.ops {
			if o.op.kind == "batch" || o.op.kind == "wait" && o.before.st.Value == core.Running {
				return true
			}
		}
		return false
	})
	c.Sub("delayed batch", 8000, func(c *Case) {
		pseed := max(0, rapid.IntRange(-100, 500).Draw(c.T, "perturbation"))
		iters := rapid.IntRange(1, 5).Draw(c.T, "iter")
		runs := rapid.IntRange(1, 3).Draw(c.T, "runs")
		fails := rapid.SliceOfN(rapid.IntRange(0, 6), runs, runs).Draw(c.T, "failing") // 0: none
		initFail := rapid.SliceOfN(rapid.IntRange(0, 4), runs, runs).Draw(c.T, "initFail")
		panics := rapid.Bool().Draw(c.T, "panics")
		dur := rapid.SampledFrom([]int{0, 0, 1, 40, 130}).Draw(c.T, "ms")
		conf := &core.CtrlConf{}
		conf.Iter = iters
		if rapid.IntRange(0, 2).Draw(c.T, "timed") == 2 {
			conf.Timeout = time.Duration(rapid.IntRange(1, 300).Draw(c.T, "timeout"))*time.Millisecond + 501*time.Microsecond
		}
		finished := rapid.Bool().Draw(c.T, "custom")
		c.Data("perturbation %d iter %d runs %d failing %v panics %v initFail %v (4 fails) duration %dms timeout %v custom %v", pseed, iters, runs, fails, panics, initFail, dur, conf.Timeout, finished)
		c.bubble(t, func() string {
			defer perturb(pseed)()
			m := newMock()
			run := 0
			boom := errors.New("scripted failure")
			m.init = func(core.OCModel) (core.Clust, error) {
				if initFail[run] == 4 {
					if panics {
						panic(panicked(run, errInit.Error()))
					}
					return nil, errInit
				}
				return core.Clust{1.}, nil
			}
			n := 0
			m.iter = func(i int, _ core.OCModel) (core.Clust, core.RuntimeFigures, error) {
				time.Sleep(time.Duration(dur) * time.Millisecond)
				n++
				if n == fails[run] {
					if panics {
						panic(panicked(run+iters, boom.Error()))
					}
					return nil, nil, boom
				}
				return core.Clust{1.}, nil, nil
			}
			if finished {
				conf.Iter = 0
				conf.Finishing = finishFunc(func(m core.OCModel) bool { return m.RuntimeFigures()[core.Iterations] >= float64(iters) })
			}
			algo := core.NewAlgo(conf, m, lineSpace{})
			for ; run < runs; run++ {
				n = 0
				var err error
				start := time.Now()
				if !within(wedged, func() { err = algo.Batch() }) {
					return fmt.Sprintf("batch %d does not return", run)
				}
				took := time.Since(start)
				st := algo.Status()
				switch {
				case initFail[run] == 4:
					if !sameErr(err, errInit) || n > 0 {
						return fmt.Sprintf("batch %d gives %v after %d iterations, its initialisation fails", run, err, n)
					}
				case err == nil:
					if n != iters || fails[run] > 0 && fails[run] <= iters {
						return fmt.Sprintf("batch %d gives no error after %d iterations", run, n)
					}
				case sameErr(err, core.ErrTimeout):
					if conf.Timeout == 0 || took < conf.Timeout {
						return fmt.Sprintf("batch %d times out after %v", run, took)
					}
				default:
					if !sameErr(err, boom) || n != fails[run] {
						return fmt.Sprintf("batch %d gives %v after %d iterations", run, err, n)
					}
				}
				late := err == nil && conf.Timeout > 0 && sameErr(st.Error, core.ErrTimeout) // after the run ended
				if st.Value != core.Finished || !sameErr(st.Error, err) && !late {
					return fmt.Sprintf("batch %d gives %v, the algorithm is %s", run, err, showStatus(st))
				}
				c.Class(err != nil, fmt.Sprint("batch fails"))
				c.Nontrivial(true)
			}
			algo.Stop()
			time.Sleep(time.Second)
			return ""
		})
	})
	c.Sub("wait function", 6000, func(c *Case) {
		// the public function, on models that change with time
		type change struct {
			at int // ms
			st core.ClustStatus
			er bool // a model may report an error with any status
		}
		var l []change
		at := 0
		for i := rapid.IntRange(1, 5).Draw(c.T, "changes"); i > 0; i-- {
			l = append(l, change{at, core.ClustStatus(rapid.SampledFrom([]core.ClustStatus{core.Running, core.Running, core.Idle, core.Ready, core.Finished, core.Created, core.Initializing}).Draw(c.T, "status")), rapid.IntRange(0, 4).Draw(c.T, "err") == 4})
			at += rapid.SampledFrom([]int{1, 50, 130, 420, 1700}).Draw(c.T, "for")
		}
		dur := rapid.SampledFrom([]int{0, 0, 60, 350, 1250, 6000, -5}).Draw(c.T, "timeout")
		iters := max(-1, rapid.IntRange(-3, 40).Draw(c.T, "iterations")) // a condition true once so many periods of 70 ms are over
		last := l[len(l)-1]
		if dur <= 0 && iters < 0 && !last.er && last.st != core.Ready && last.st != core.Idle && last.st != core.Finished {
			dur = 700
		}
		c.Data("changes %v timeout %d ms condition %d", l, dur, iters)
		c.bubble(t, func() string {
			start := time.Now()
			boom := errors.New("scripted failure")
			now := func() int { return int(time.Since(start) / time.Millisecond) }
			model := timedModel{func() core.OCStatus {
				st := core.OCStatus{}
				for _, ch := range l {
					if now() >= ch.at {
						st = core.NewOCStatus(ch.st)
						if ch.er {
							st.Error = boom
						}
					}
				}
				return st
			}}
			var fin core.Finishing
			done := func() bool {
				if iters >= 0 {
					return now() >= 70*iters
				}
				st := model.Status()
				return st.Error != nil || st.Value == core.Ready || st.Value == core.Idle || st.Value == core.Finished
			}
			if iters >= 0 {
				fin = finishFunc(func(core.OCModel) bool { return done() })
			}
			var err error
			if !within(wedged, func() { err = core.WaitTimeout(fin, time.Duration(dur)*time.Millisecond, model) }) {
				return "the wait does not return"
			}
			took := time.Since(start)
			if err == core.ErrTimeout {
				if dur <= 0 || took < time.Duration(dur)*time.Millisecond {
					return fmt.Sprintf("timed out after %v", took)
				}
			} else {
				if !done() {
					return fmt.Sprintf("the wait gives %v after %v, %s", err, took, showStatus(model.Status()))
				}
				if err != model.Status().Error {
					return fmt.Sprintf("the wait gives %v, the status is %s", err, showStatus(model.Status()))
				}
			}
			// no later than some polling periods after the end
			if dur > 0 && took > time.Duration(dur)*time.Millisecond+400*time.Millisecond {
				return fmt.Sprintf("the wait takes %v", took)
			}
			c.Class(err == core.ErrTimeout, "timed out wait")
			c.Nontrivial(took > 0)
			return ""
		})
	})
	c.Sub("waiting clients", 8000, func(c *Case) {
		cf, _ := drawWorld(c.T, wbias{faults: true, short: true})
		cf.notifier = 0
		kinds := []string{"play", "play", "play", "pause", "stop", "push"}
		if rapid.IntRange(0, 2).Draw(c.T, "inits") == 2 {
			kinds = append(kinds, "init")
		}
		var ctl []wop
		for i := rapid.IntRange(1, 7).Draw(c.T, "nops"); i > 0; i-- {
			ctl = append(ctl, wop{kind: rapid.SampledFrom(kinds).Draw(c.T, "op"), sleep: rapid.SampledFrom([]int{0, 3, 40, 150, 400, 1300, 2700}).Draw(c.T, "sleep")})
		}
		if rapid.IntRange(0, 4).Draw(c.T, "startplay") > 0 {
			ctl[0].kind = "play"
		}
		waits := make([][]wop, rapid.IntRange(1, 3).Draw(c.T, "waiters"))
		for i := range waits {
			for j := rapid.IntRange(1, 3).Draw(c.T, "nwaits"); j > 0; j-- {
				o := wop{kind: "wait", sleep: rapid.SampledFrom([]int{0, 1, 20, 90, 350, 1400}).Draw(c.T, "sleep")}
				if rapid.IntRange(0, 3).Draw(c.T, "conditional") == 3 {
					o.arg = rapid.IntRange(1, 12).Draw(c.T, "cond")
				}
				o.dur = rapid.SampledFrom([]int{0, 0, 1, 130, 600, 2500, 20000}).Draw(c.T, "dur")
				if o.arg > 0 && o.dur == 0 {
					o.dur = 2500
				}
				if o.arg == 0 && o.dur == 20000 && rapid.Bool().Draw(c.T, "far") {
					o.dur = 1000000000
				}
				waits[i] = append(waits[i], o)
			}
		}
		c.Data("%v; controller %v; waiters %v", cf, ctl, waits)
		type wt struct {
			desc       string
			op         wop
			begin, end time.Duration
			err        error
		}
		c.bubble(t, func() string {
			w := newWorld(cf)
			var done []wt
			over := make(chan bool)
			var stuck string
			go func() {
				defer close(over)
				stuck = clients(len(waits), func(i int) {
					time.Sleep(time.Duration(2*i+3) * time.Microsecond) // nothing happens at the same instant
					for j, o := range waits[i] {
						time.Sleep(time.Duration(o.sleep)*time.Millisecond + time.Duration(j+1)*11*time.Microsecond)
						r := wt{desc: fmt.Sprintf("wait %d of client %d (condition %d, duration %dms)", j, i, o.arg, o.dur), op: o, begin: w.now()}
						var f core.Finishing
						if o.arg > 0 {
							f = core.NewIterFinishing(o.arg, 0)
						}
						r.err = w.algo.Wait(f, time.Duration(o.dur)*time.Millisecond)
						r.end = w.now()
						w.mu.Lock()
						done = append(done, r)
						w.mu.Unlock()
					}
				})
			}()
			for i, o := range ctl {
				time.Sleep(time.Duration(o.sleep)*time.Millisecond + time.Duration(i+1)*100*time.Microsecond + 50*time.Microsecond)
				if !within(wedged, func() {
					switch o.kind {
					case "play":
						w.algo.Play()
					case "pause":
						w.algo.Pause()
					case "stop":
						w.algo.Stop()
					case "init":
						w.algo.Init()
					case "push":
						w.algo.Push(float64(i))
					}
				}) {
					return fmt.Sprintf("%s does not return", o.kind)
				}
			}
			// in the end everybody is released
			time.Sleep(1500*time.Millisecond + 23*time.Microsecond)
			w.algo.Stop()
			if !within(wedged, func() { <-over }) || stuck != "" {
				return fmt.Sprintf("a client still waits after the algorithm was stopped: %s", stuck)
			}
			at := func(x time.Duration) (s core.OCStatus, from time.Duration) {
				s = st(core.Created)
				for _, n := range w.notifs {
					if n.at <= x {
						s, from = n.st, n.at
					}
				}
				return
			}
			quiet := func(v core.ClustStatus) bool { return v == core.Ready || v == core.Idle || v == core.Finished }
			w.mu.Lock()
			defer w.mu.Unlock()
			for _, r := range done {
				b, _ := at(r.begin)
				e, since := at(r.end)
				bad := func(why string) string {
					return fmt.Sprintf("%s, called at %s when %s, returned %v at %s when %s: %s; notifications %s", r.desc, ms(r.begin), showStatus(b), r.err, ms(r.end), showStatus(e), why, names(w.notifs))
				}
				if b.Value != core.Running {
					want := map[core.ClustStatus]error{core.Created: core.ErrNotRunning, core.Initializing: core.ErrNotRunning, core.Idle: core.ErrIdle}[b.Value]
					if r.end != r.begin || !sameErr(r.err, want) {
						return bad(fmt.Sprint("nothing to wait for, want ", want))
					}
					continue
				}
				if r.op.arg == 0 && r.op.dur == 0 && w.conf.Finishing == nil && cf.timeout == 0 && cf.iter == 0 && cf.perData == 0 {
					if r.end != r.begin || r.err != core.ErrNeverFinish {
						return bad("it can never finish")
					}
					c.Class(true, "refused")
					continue
				}
				c.Nontrivial(true)
				limit := forever
				if r.op.dur > 0 {
					limit = r.begin + time.Duration(r.op.dur)*time.Millisecond
				}
				const slack = time.Second
				if r.end > limit && r.end-slack > limit {
					return bad("the duration is exceeded")
				}
				holds := quiet(e.Value)
				if r.op.arg > 0 {
					n, _ := w.counted(r.end)
					holds = n >= r.op.arg
				} else {
					// it may miss a short pause, not a long one
					for i, n := range w.notifs {
						to := forever
						if i+1 < len(w.notifs) && quiet(n.st.Value) && quiet(w.notifs[i+1].st.Value) {
							continue // the last one counts
						}
						if i+1 < len(w.notifs) {
							to = w.notifs[i+1].at
						}
						if n.at > r.begin && quiet(n.st.Value) && n.at < r.end-slack && to > n.at+slack {
							return bad(fmt.Sprintf("the run is over or paused at %s", ms(n.at)))
						}
					}
				}
				switch {
				case holds && r.end < limit:
					if !sameErr(r.err, e.Error) {
						return bad("the condition holds, want the error of the run")
					}
					c.Class(e.Value == core.Idle, "paused while waiting")
					c.Class(e.Error != nil, "failed while waiting")
				case holds && r.op.arg == 0 && since < limit: // and the duration is elapsed
					if !sameErr(r.err, e.Error) {
						return bad("the condition holds before the duration, want the error of the run")
					}
				case holds:
					if !sameErr(r.err, e.Error) && r.err != core.ErrTimeout {
						return bad("want a timeout or the error of the run")
					}
				case r.end < limit:
					return bad("the condition does not hold")
				default:
					if r.err != core.ErrTimeout {
						return bad("want a timeout")
					}
					c.Class(true, "timed out")
				}
			}
			w.dead = true
			return ""
		})
	})
	c.Sub("far", 40, func(c *Case) { far(c, []string{"wait", "condition", "batch"}) })
}

func TestC25(t *testing.T) {
	c := newCheck(t, "C25", worldRule+"; and "+concRule+"; non-trivial: a run ended ready after at least one iteration, or a pause")
	worldSub(c, t, "budget", 10000, wbias{push: true}, func(w *world) bool {
		for _, r := range w.runs() {
			if r.over && r.final.Value == core.Ready && len(r.iters) > 0 || len(r.pauses) > 0 {
				return true
			}
		}
		return false
	})
	concSub(c, t, 5000)
	c.Sub("long budgets", 200, func(c *Case) { longBudget(c, t) })
	c.Sub("large budgets", 1000, func(c *Case) {
		// the run must not end before
		large := 1<<rapid.SampledFrom([]int{15, 16, 24, 31, 32, 33, 40, 50}).Draw(c.T, "large") - rapid.IntRange(0, 3).Draw(c.T, "below")
		byData := rapid.Bool().Draw(c.T, "by data")
		pushed := rapid.IntRange(0, 6).Draw(c.T, "pushed")
		conf := core.CtrlConf{Iter: large, IterPerData: rapid.IntRange(0, 3).Draw(c.T, "per")}
		if byData {
			pushed++
			conf.Iter, conf.IterPerData = rapid.IntRange(0, 3).Draw(c.T, "iter"), large
		}
		c.Data("iter %d per data %d, %d pushes", conf.Iter, conf.IterPerData, pushed)
		c.Nontrivial(true)
		c.bubble(t, func() string {
			m := newMock()
			m.iter = func(n int, _ core.OCModel) (core.Clust, core.RuntimeFigures, error) {
				time.Sleep(time.Millisecond)
				return core.Clust{float64(n)}, nil, nil
			}
			algo := core.NewAlgo(&conf, m, lineSpace{})
			if err := algo.Init(); err != nil {
				return fmt.Sprint("Init: ", err)
			}
			for i := 0; i < pushed; i++ {
				if err := algo.Push(1.); err != nil {
					return fmt.Sprint("push: ", err)
				}
			}
			if err := algo.Play(); err != nil {
				return fmt.Sprint("Play: ", err)
			}
			time.Sleep(time.Second)
			st, n := algo.Status(), algo.RuntimeFigures()[core.Iterations]
			algo.Stop()
			time.Sleep(time.Second)
			if st.Value != core.Running || n < 500 {
				return fmt.Sprintf("the algorithm is %s after %v iterations", showStatus(st), n)
			}
			return ""
		})
	})
	crowdRuns(c, t, 4000)
}

func TestC27(t *testing.T) {
	c := newCheck(t, "C27", worldRule+"; non-trivial: a push to a ready algorithm with DataPerIter")
	worldSub(c, t, "auto-play", 15000, wbias{dataPer: true}, func(w *world) bool {
		for _, o := range w.ops {
			if o.op.kind == "push" && o.before.st.Value == core.Ready && w.cf.dataPer > 0 {
				return true
			}
		}
		return false
	})
	c.Sub("thresholds", 400, func(c *Case) { dataThreshold(c, t) })
	crowdRuns(c, t, 4000)
}

func TestC28(t *testing.T) {
	c := newCheck(t, "C28", worldRule+"; and "+concRule+", notifiers passive, querying the algorithm and predicting, taking time; non-trivial: at least four notifications")
	worldSub(c, t, "notifications", 10000, wbias{notif: true, faults: true, restart: true}, func(w *world) bool { return len(w.notifs) > 3 })
	concSub(c, t, 5000)
	oneClient(c, t, 2000)
	commandingNotifier(c, t, 3000)
	c.Sub("long histories", 300, func(c *Case) { longBacklog(c, t) })
}

func TestC31(t *testing.T) {
	c := newCheck(t, "C31", worldRule+", with a timeout; non-trivial: a run timed out or several runs")
	worldSub(c, t, "timeouts", 15000, wbias{timeout: true, restart: true}, func(w *world) bool {
		for _, n := range w.notifs {
			if sameErr(n.st.Error, core.ErrTimeout) {
				return true
			}
		}
		return len(w.runs()) > 1
	})
	c.Sub("far timeouts", 600, func(c *Case) { longTimeouts(c, t) })
	c.Sub("interruption", 4000, func(c *Case) {
		// the public function: timeouts disabled or not at random instants
		type timer struct{ dur, disable, again int } // ms, negative: never
		var l []timer
		for i := rapid.IntRange(1, 4).Draw(c.T, "timers"); i > 0; i-- {
			l = append(l, timer{rapid.IntRange(1, 300).Draw(c.T, "timeout"), rapid.IntRange(-100, 300).Draw(c.T, "disable"), rapid.IntRange(-100, 300).Draw(c.T, "again")})
		}
		unit := rapid.SampledFrom([]time.Duration{time.Millisecond, time.Millisecond, time.Millisecond, time.Second, time.Minute, 437 * time.Second, 30 * 24 * time.Hour}).Draw(c.T, "unit")
		pseed := max(0, rapid.IntRange(-100, 100).Draw(c.T, "perturbation"))
		c.Data("timers (in %v) %+v perturbation %d", unit, l, pseed)
		c.bubble(t, func() string {
			defer perturb(pseed)()
			msgs := make([]string, len(l))
			if m := clientsWithin(wedged+1000*unit, len(l), func(i int) {
				x := l[i]
				start := time.Now()
				var mu sync.Mutex
				var calls []time.Duration
				var got []error
				to := core.InterruptionTimeout(time.Duration(x.dur)*unit, func(e error) error {
					mu.Lock()
					defer mu.Unlock()
					calls, got = append(calls, time.Since(start)), append(got, e)
					return nil
				})
				if !to.Enabled() {
					msgs[i] = "a new timeout is not enabled"
				}
				off := time.Duration(-1)
				at := []int{x.disable, x.again}
				if at[0] > at[1] {
					at[0], at[1] = at[1], at[0]
				}
				for _, ms := range at {
					if ms < 0 {
						continue
					}
					time.Sleep(time.Duration(ms)*unit + 500*time.Microsecond - time.Since(start))
					to.Disable()
					if off < 0 {
						off = time.Since(start)
					}
					if to.Enabled() {
						msgs[i] = "a disabled timeout is enabled"
					}
				}
				time.Sleep(400*unit - time.Since(start) + time.Second)
				mu.Lock()
				defer mu.Unlock()
				dur := time.Duration(x.dur) * unit
				switch {
				case len(calls) > 1:
					msgs[i] = fmt.Sprintf("timer %d interrupts %d times", i, len(calls))
				case len(calls) == 1 && calls[0] < dur:
					msgs[i] = fmt.Sprintf("timer %d interrupts after %v", i, calls[0])
				case len(calls) == 1 && got[0] != core.ErrTimeout:
					msgs[i] = fmt.Sprintf("timer %d interrupts with %v", i, got[0])
				case len(calls) == 1 && off >= 0 && off < dur:
					msgs[i] = fmt.Sprintf("timer %d disabled after %v interrupts after %v", i, off, calls[0])
				case len(calls) == 0 && (off < 0 || off > dur+100*time.Millisecond):
					msgs[i] = fmt.Sprintf("timer %d does not interrupt", i)
				}
				c.Nontrivial(off >= 0 && off < dur)
			}); m != "" {
				return m
			}
			return strings.Join(msgs, "")
		})
	})
	coincidence(c, t, 4000)
	c.Sub("far", 200, func(c *Case) { far(c, []string{"interruption", "interruption", "run", "batch"}) })
}

// timedModel is a model whose status changes
type timedModel struct{ status func() core.OCStatus }

func (m timedModel) Centroids() core.Clust               { return nil }
func (m timedModel) Conf() core.Conf                     { return &core.CtrlConf{} }
func (m timedModel) Impl() core.Impl                     { return nil }
func (m timedModel) Space() core.Space                   { return lineSpace{} }
func (m timedModel) Status() core.OCStatus               { return m.status() }
func (m timedModel) RuntimeFigures() core.RuntimeFigures { return core.RuntimeFigures{} }

func TestC32(t *testing.T) {
	c := newCheck(t, "C32", worldRule+", with an iteration frequency; runs at frequencies of 1e-7 to 1e6 Hz with scripted durations of up to three periods; non-trivial: a run of at least three iterations, one shorter than the period")
	worldSub(c, t, "frequency", 15000, wbias{freq: true}, func(w *world) bool {
		for _, r := range w.runs() {
			if w.cf.period > 0 && len(r.iters) > 2 {
				return true
			}
		}
		return false
	})
	c.Sub("any frequency", 4000, func(c *Case) {
		// a batch at any frequency, with iterations of any duration
		f := math.Exp(rapid.Float64Range(math.Log(0.1), math.Log(1e6)).Draw(c.T, "frequency"))
		if rapid.Bool().Draw(c.T, "round") {
			f = math.Ceil(f)
		}
		n := rapid.IntRange(2, 40).Draw(c.T, "n")
		low := rarely(c.T, 3)
		if low {
			f *= 1e-6
			n = min(n, 8)
		} else if rarely(c.T, 6) {
			n = rapid.IntRange(100, 700).Draw(c.T, "long")
		}
		period := 1e9 / f
		durs := make([]time.Duration, n)
		for i := range durs {
			if rapid.Bool().Draw(c.T, "slow") {
				durs[i] = time.Duration(rapid.Float64Range(0, 3).Draw(c.T, "dur") * period)
			} else {
				durs[i] = time.Duration(rapid.Float64Range(0, 0.3).Draw(c.T, "dur") * period)
			}
		}
		c.Data("frequency %v, durations %v", f, durs)
		var starts []time.Duration
		c.bubble(t, func() string {
			m := newMock()
			t0 := time.Now()
			m.iter = func(int, core.OCModel) (core.Clust, core.RuntimeFigures, error) {
				i := len(starts)
				starts = append(starts, time.Since(t0))
				if i < n {
					time.Sleep(durs[i])
				}
				return core.Clust{1.}, nil, nil
			}
			algo := core.NewAlgo(&core.CtrlConf{Iter: n, IterFreq: f}, m, lineSpace{})
			var err error
			if low { // waiting is polling
				err = algo.Play()
				time.Sleep(time.Duration(4 * float64(n) * period))
			} else {
				err = algo.Batch()
			}
			time.Sleep(time.Second)
			if err != nil || len(starts) != n {
				return fmt.Sprintf("%d iterations, %v", len(starts), err)
			}
			for i := range starts {
				for j := i + 1; j < n; j++ {
					t := float64(starts[j] - starts[i])
					if float64(j-i) > t*f/1e9*(1+1e-6)+2*float64(j-i)*f/1e9+1e-6 { // a period may be a nanosecond short
						return fmt.Sprintf("%d iterations start in %v", j-i+1, starts[j]-starts[i])
					}
				}
				if i > 0 {
					if gap, most := float64(starts[i]-starts[i-1]), max(period, float64(durs[i-1])); gap > most*(1+1e-6)+2 {
						return fmt.Sprintf("iteration %d starts %v after the previous one, which lasts %v", i, starts[i]-starts[i-1], durs[i-1])
					}
				}
			}
			return ""
		})
		slow, fast := false, false
		for _, d := range durs {
			slow, fast = slow || float64(d) > period, fast || float64(d) < period
		}
		c.Nontrivial(fast)
		c.Class(slow && fast, "slow and fast iterations")
	})
}

func TestC39(t *testing.T) {
	c := newCheck(t, "C39", worldRule+"; non-trivial: an iteration without centroids, an error or a panic, and an ordinary iteration")
	worldSub(c, t, "contract", 15000, wbias{faults: true, push: true}, func(w *world) bool {
		kinds := map[int]bool{}
		for _, it := range w.iters {
			kinds[it.out] = true
		}
		return len(kinds) > 1
	})
	c.Sub("malformed", 1500, func(c *Case) { malformed(c, t) })
}

// fuse is a space, one of whose operations panics: the at-th, and the following ones if it lasts
type fuse struct {
	core.Space
	calls, blown *atomic.Int64
	at           int64
	lasts        bool
}

const fuseText = "scripted panic of the space"

func (s fuse) tick() {
	if n := s.calls.Add(1); n == s.at || s.lasts && n > s.at {
		s.blown.Add(1)
		panic(panicked(int(s.at), fuseText))
	}
}

func (s fuse) Dist(a, b core.Elemt) float64 {
	s.tick()
	return s.Space.Dist(a, b)
}

func (s fuse) Combine(a core.Elemt, wa int, b core.Elemt, wb int) core.Elemt {
	s.tick()
	return s.Space.Combine(a, wa, b, wb)
}

func malformed(c *Case, t *testing.T) {
	kind := rapid.IntRange(0, 2).Draw(c.T, "algorithm")
	es := drawPoints(c.T, 8, 30)
	for i, e := range es { // all different, for k-means++
		e.([]float64)[0] += float64(i) / 64
		if len(e.([]float64)) > 1 {
			e.([]float64)[1] -= float64(i) / 8
		}
	}
	r := drawReal(c.T, kind, len(es))
	if len(es[0].([]float64)) == 1 {
		r.cos = false // all of them have the same direction
	}
	at := int64(rapid.IntRange(1, []int{5, 60, 1500}[rapid.IntRange(0, 2).Draw(c.T, "when")]).Draw(c.T, "at"))
	lasts := rapid.Bool().Draw(c.T, "lasts")
	finishing := rapid.SampledFrom([]int{0, 0, 0, 1, 3}).Draw(c.T, "finishing") // the call of the predicate which panics
	sessions := rapid.IntRange(1, 3).Draw(c.T, "sessions")
	stepped := rapid.Bool().Draw(c.T, "stepped")
	c.Data("%v over %s: operation %d of the space panics, the next ones too %v; call %d of the finishing predicate panics; %d sessions, played %v", r, show(es), at, lasts, finishing, sessions, stepped)
	c.bubble(t, func() string {
		space := fuse{r.space(), new(atomic.Int64), new(atomic.Int64), at, lasts}
		conf := r.conf(r.seed)
		// what the finishing predicate sees last
		var clust core.Clust
		iters, calls := 0., 0
		conf.Ctrl().Finishing = finishFunc(func(m core.OCModel) bool {
			clust, iters = core.Clust(deepCopies(m.Centroids())), m.RuntimeFigures()[core.Iterations]
			if calls++; calls == finishing {
				space.blown.Add(1)
				panic(panicked(calls, fuseText))
			}
			return false
		})
		if r.kind == 2 {
			es = es[:2]
		}
		algo := r.buildIn(space, conf, es)
		partial := false
		for i := 0; i < sessions; i++ {
			if r.kind == 2 { // which consumes its elements
				for j := 0; j <= r.iter; j++ {
					if err := algo.Push(es[j%len(es)]); err != nil {
						return fmt.Sprintf("session %d: push gives %v", i, err)
					}
				}
			}
			before := space.blown.Load()
			clust, iters = nil, 0
			var err error
			ok := within(wedged, func() {
				if !stepped {
					err = algo.Batch()
					return
				}
				if err = algo.Init(); err == nil {
					if err = algo.Play(); err == nil {
						err = algo.Wait(nil, 0)
						if err == nil {
							err = algo.Status().Error
						}
					}
				}
			})
			if !ok {
				return fmt.Sprintf("session %d does not end", i)
			}
			st := algo.Status()
			if space.blown.Load() == before {
				want := core.Finished
				if stepped {
					want = core.Ready
				}
				if err != nil || st.Value != want || st.Error != nil {
					return fmt.Sprintf("session %d, without a panic, gives %v and leaves %s", i, err, showStatus(st))
				}
				if stepped {
					algo.Stop()
				}
				if n := algo.RuntimeFigures()[core.Iterations]; n != float64(r.iter) {
					return fmt.Sprintf("session %d, without a panic, executes %v iterations of %d", i, n, r.iter)
				}
				c.Class(i > 0 && partial, "an ordinary session after a failed one")
				continue
			}
			partial = true
			if err == nil || err.Error() != fuseText || st.Value != core.Finished || !sameErr(st.Error, err) {
				return fmt.Sprintf("session %d, with a panic, gives %v and leaves %s", i, err, showStatus(st))
			}
			if got := algo.Centroids(); !sameBits(got, clust) {
				return fmt.Sprintf("session %d, with a panic, publishes %s after %s", i, show(got), show(clust))
			}
			if n := algo.RuntimeFigures()[core.Iterations]; n != iters {
				return fmt.Sprintf("session %d, with a panic, counts %v iterations after %v", i, n, iters)
			}
			c.Class(iters > 0, "panic after an iteration")
			c.Class(clust == nil, "panic before the first iteration")
		}
		c.Nontrivial(partial)
		return ""
	})
}

func TestC40(t *testing.T) {
	c := newCheck(t, "C40", worldRule+"; non-trivial: at least two runs or a pause")
	worldSub(c, t, "figures", 15000, wbias{push: true, restart: true}, func(w *world) bool {
		rs := w.runs()
		for _, r := range rs {
			if len(r.pauses) > 0 {
				return true
			}
		}
		return len(rs) > 1
	})
}

var _ = fmt.Sprint
