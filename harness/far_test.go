package distclusverif

import (
	"fmt"
	"math"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/wearelumenai/distclus/core"
)

// far: durations of centuries are never over. In real time, as virtual time would have to reach them;
// what still sleeps at the end is left behind.
func far(c *Case, kinds []string) {
	type client struct {
		kind  string
		dur   time.Duration
		iters int
		ms    int
	}
	durs := []time.Duration{time.Hour, 1 << 55, 1 << 60, 1 << 62, 1<<62 + 1<<61, math.MaxInt64 - 1, math.MaxInt64}
	var l []client
	for i := rapid.IntRange(1, 8).Draw(c.T, "clients"); i > 0; i-- {
		l = append(l, client{rapid.SampledFrom(kinds).Draw(c.T, "kind"), rapid.SampledFrom(durs).Draw(c.T, "duration"),
			rapid.IntRange(1, 5).Draw(c.T, "iterations"), rapid.IntRange(0, 5).Draw(c.T, "ms")})
	}
	c.Data("%+v", l)
	c.Nontrivial(true)
	msgs := make(chan string, len(l))
	one := func(x client) (msg string) {
		m := newMock()
		m.iter = func(int, core.OCModel) (core.Clust, core.RuntimeFigures, error) {
			time.Sleep(time.Duration(x.ms) * time.Millisecond)
			return core.Clust{1.}, nil, nil
		}
		conf := &core.CtrlConf{Iter: x.iters}
		if x.kind == "run" || x.kind == "batch" {
			conf.Timeout = x.dur
		}
		algo := core.NewAlgo(conf, m, lineSpace{})
		end := func(what string, err error) string {
			st, n := algo.Status(), algo.RuntimeFigures()[core.Iterations]
			if err != nil || st.Error != nil || n != float64(x.iters) || st.Value != core.Ready && st.Value != core.Finished {
				return fmt.Sprintf("%s gives %v with %v, %s after %v of %d iterations", what, err, x.dur, showStatus(st), n, x.iters)
			}
			return ""
		}
		switch x.kind {
		case "interruption":
			var n atomic.Int32
			to := core.InterruptionTimeout(x.dur, func(error) error { n.Add(1); return nil })
			time.Sleep(time.Duration(1+x.ms) * time.Millisecond)
			on := to.Enabled()
			to.Disable()
			if n.Load() > 0 || !on {
				return fmt.Sprintf("a timeout of %v interrupts at once (enabled %v)", x.dur, on)
			}
			return ""
		case "batch":
			return end("batch", algo.Batch())
		case "run":
			if err := algo.Play(); err != nil {
				return fmt.Sprint("Play: ", err)
			}
			for i := 0; algo.Status().Value == core.Running && i < 20000; i++ {
				time.Sleep(time.Millisecond)
			}
			msg = end("run", nil)
		case "wait":
			if err := algo.Play(); err != nil {
				return fmt.Sprint("Play: ", err)
			}
			msg = end("wait", algo.Wait(nil, x.dur))
		case "condition":
			start := time.Now()
			err := core.WaitTimeout(finishFunc(func(core.OCModel) bool { return time.Since(start) >= time.Duration(x.ms)*time.Millisecond }), x.dur, algo)
			if err != nil {
				return fmt.Sprintf("a wait of %v gives %v", x.dur, err)
			}
		}
		algo.Stop()
		return
	}
	for _, x := range l {
		go func() { msgs <- one(x) }()
	}
	for range l {
		if m := <-msgs; m != "" {
			c.Failf("%s", m)
		}
	}
}

// dataThreshold: large thresholds of pushed data, many pushes
func dataThreshold(c *Case, t *testing.T) {
	limit := rapid.SampledFrom([]int{3, 40, 300, 3000, 40000}).Draw(c.T, "about")
	n := rapid.IntRange(0, limit).Draw(c.T, "dataperiter")
	type op struct {
		kind string
		n    int
	}
	var ops []op
	kinds := []string{"push", "push", "push", "push", "init", "play", "stop", "stop init"}
	total := 0
	for i := rapid.IntRange(1, 12).Draw(c.T, "nops"); i > 0; i-- {
		o := op{kind: rapid.SampledFrom(kinds).Draw(c.T, "op")}
		if o.kind == "push" {
			o.n = rapid.IntRange(1, 2*limit/3+1).Draw(c.T, "n")
			if rapid.Bool().Draw(c.T, "exactly") {
				o.n = max(1, n-rapid.IntRange(0, 1).Draw(c.T, "less"))
			}
			total += o.n
		}
		ops = append(ops, o)
	}
	if rapid.IntRange(0, 3).Draw(c.T, "startinit") > 0 {
		ops[0] = op{kind: "init"}
	}
	refuse := rapid.SampledFrom([]int{0, 0, 2, 7}).Draw(c.T, "refuse") // one out of
	c.Data("threshold %d operations %v one out of %d refused", n, ops, refuse)
	c.bubble(t, func() string {
		m := newMock()
		over := false
		m.iter = func(int, core.OCModel) (core.Clust, core.RuntimeFigures, error) {
			time.Sleep(time.Millisecond)
			over = true
			return core.Clust{1.}, nil, nil
		}
		calls := 0
		m.push = func(core.Elemt, core.OCModel) error {
			calls++
			if refuse > 0 && calls%refuse == 0 {
				return errPush
			}
			return nil
		}
		conf := &core.CtrlConf{DataPerIter: n, Finishing: finishFunc(func(core.OCModel) bool { return over })}
		algo := core.NewAlgo(conf, m, lineSpace{})
		defer func() {
			algo.Stop()
			time.Sleep(time.Second)
		}()
		state, fresh, starts := core.Created, 0, 0
		for i, o := range ops {
			switch o.kind {
			case "init":
				if algo.Init() == nil {
					state = core.Ready
				}
			case "stop init":
				algo.Stop()
				if algo.Init() == nil {
					state = core.Ready
				}
			case "stop":
				algo.Stop()
				if state = algo.Status().Value; state != core.Created && state != core.Finished {
					return fmt.Sprintf("operation %d: stopped, the algorithm is %v", i, state)
				}
			case "play":
				over = false
				if err := algo.Play(); err != nil {
					return fmt.Sprintf("operation %d: Play gives %v", i, err)
				}
				time.Sleep(3 * time.Millisecond)
				state = core.Ready
			case "push":
				for j := 0; j < o.n; j++ {
					over = false
					err := algo.Push(1.)
					if refused := refuse > 0 && calls%refuse == 0; refused != (err != nil) {
						return fmt.Sprintf("operation %d: push %d gives %v", i, j, err)
					}
					want := state
					if err == nil {
						fresh++
						if state == core.Ready && n > 0 && fresh >= n {
							want, fresh = core.Running, 0
							starts++
						}
					}
					if got := algo.Status().Value; got != want {
						return fmt.Sprintf("operation %d: after push %d of %d the algorithm is %v, want %v (%d elements since the last start)", i, j, o.n, got, want, fresh)
					}
					if want == core.Running {
						time.Sleep(3 * time.Millisecond)
					}
				}
			}
			if got := algo.Status().Value; got != state {
				return fmt.Sprintf("operation %d: the algorithm is %v, want %v", i, got, state)
			}
		}
		c.Nontrivial(starts > 0)
		c.Class(starts > 0 && n > 100, "large threshold reached")
		return ""
	})
}
