package distclusverif

import (
	"context"
	"errors"
	"fmt"
	"io"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"golang.org/x/exp/rand"
	"pgregory.net/rapid"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/streaming"
)

// crowdQueue: many pushers at the very same time on a queue with few free places
func crowdQueue(c *Case, t *testing.T) {
	size := rapid.SampledFrom([]int{1, 1, 2, 3, 5, 40}).Draw(c.T, "buffer")
	n0 := rapid.IntRange(0, size).Draw(c.T, "initial")
	crowd := rapid.IntRange(2, 12).Draw(c.T, "pushers")
	each := rapid.IntRange(1, 6).Draw(c.T, "each")
	rounds := rapid.IntRange(1, 30).Draw(c.T, "rounds")
	pseed := max(0, rapid.IntRange(-500, 200).Draw(c.T, "perturbation"))
	c.Data("buffer %d, initially %d, %d pushers of %d elements at once, %d rounds, perturbation %d", size, n0, crowd, each, rounds, pseed)
	c.Nontrivial(n0+crowd*each > size)
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(4)) // really at the same time
	c.bubble(t, func() string {
		defer perturb(pseed)()
		for round := 0; round < rounds; round++ {
			var initial []core.Elemt
			for i := 0; i < n0; i++ {
				initial = append(initial, []float64{float64(-i)})
			}
			algo := streaming.NewAlgo(streaming.Conf{BufferSize: size, RGen: rand.New(rand.NewSource(1))}, lineVectors{}, initial)
			var ready atomic.Int32
			var mu sync.Mutex
			ok := 0
			if m := clients(crowd, func(i int) {
				for ready.Add(1); ready.Load() < int32(crowd); {
					runtime.Gosched()
				}
				for k := 0; k < each; k++ {
					if algo.Push([]float64{float64(i)}) == nil {
						mu.Lock()
						ok++
						mu.Unlock()
					}
				}
			}); m != "" {
				return fmt.Sprintf("round %d: %s", round, m)
			}
			if want := min(size-n0, crowd*each); ok != want {
				return fmt.Sprintf("round %d: %d pushes of %d accepted with %d free places", round, ok, crowd*each, size-n0)
			}
			if n := algo.RuntimeFigures()[core.PushedData]; n != float64(ok) {
				return fmt.Sprintf("round %d: %v pushed data counted, %d accepted", round, n, ok)
			}
		}
		return ""
	})
}

// lineVectors is the space of vectors of one dimension
type lineVectors struct{}

func (lineVectors) Dist(a, b core.Elemt) float64 {
	d := a.([]float64)[0] - b.([]float64)[0]
	if d < 0 {
		d = -d
	}
	return d
}
func (lineVectors) Combine(a core.Elemt, wa int, b core.Elemt, wb int) core.Elemt {
	return []float64{(a.([]float64)[0]*float64(wa) + b.([]float64)[0]*float64(wb)) / float64(wa+wb)}
}
func (lineVectors) Copy(a core.Elemt) core.Elemt { return []float64{a.([]float64)[0]} }
func (lineVectors) Dim(data []core.Elemt) int    { return 1 }

// crowdBuffer: concurrent pushers, appliers and readers of a data buffer
func crowdBuffer(c *Case, t *testing.T) {
	size := rapid.SampledFrom([]int{0, 0, -1, 1, 3, 10, 50}).Draw(c.T, "frame")
	n0 := rapid.IntRange(0, 12).Draw(c.T, "initial")
	type step struct {
		running bool
		sleep   int
	}
	pushers := make([][]step, rapid.IntRange(1, 4).Draw(c.T, "pushers"))
	staged := rapid.Bool().Draw(c.T, "staged")
	for i := range pushers {
		pushers[i] = make([]step, rapid.IntRange(1, 30).Draw(c.T, "pushes"))
		for j := range pushers[i] {
			pushers[i][j] = step{staged || rapid.IntRange(0, 3).Draw(c.T, "running") > 0, rapid.SampledFrom([]int{0, 0, 0, 1, 3, 10}).Draw(c.T, "sleep")}
		}
	}
	applies := rapid.IntRange(0, 30).Draw(c.T, "applies")
	pause := rapid.SampledFrom([]int{0, 1, 5}).Draw(c.T, "pause")
	pseed := max(0, rapid.IntRange(-100, 500).Draw(c.T, "perturbation"))
	c.Data("frame %d, initially %d, pushers (running, sleep in 100µs) %v, %d applies every %d00µs, perturbation %d", size, n0, pushers, applies, pause, pseed)
	c.Nontrivial(applies > 0)
	c.bubble(t, func() string {
		defer perturb(pseed)()
		var initial []core.Elemt
		for i := 0; i < n0; i++ {
			initial = append(initial, [2]int{-1, i})
		}
		b := core.NewDataBuffer(initial, size)
		type read struct{ data, kept []core.Elemt }
		var reads []read
		if m := clients(len(pushers)+1, func(i int) {
			if i == len(pushers) {
				for k := 0; k < applies; k++ {
					time.Sleep(time.Duration(pause) * 100 * time.Microsecond)
					b.Apply()
					d := b.Data()
					reads = append(reads, read{d, append([]core.Elemt{}, d...)})
				}
				return
			}
			for j, s := range pushers[i] {
				time.Sleep(time.Duration(s.sleep) * 100 * time.Microsecond)
				b.Push([2]int{i, j}, s.running)
			}
		}); m != "" {
			return m
		}
		b.Apply()
		for i, r := range reads {
			if !sameAll(r.data, r.kept) {
				return fmt.Sprintf("data read at apply %d later become %v, were %v", i, r.data, r.kept)
			}
		}
		all := n0
		for _, p := range pushers {
			all += len(p)
		}
		keep := all
		if size > 0 {
			keep = min(all, size)
		}
		data := b.Data()
		if len(data) != keep {
			return fmt.Sprintf("%d elements after %d, frame %d: %v", len(data), all, size, data)
		}
		// those of each source are its last ones, in order
		next := map[int]int{-1: n0 - 1}
		for i, p := range pushers {
			next[i] = len(p) - 1
		}
		for i := len(data) - 1; i >= 0; i-- {
			e, ok := data[i].([2]int)
			if !ok || next[e[0]] != e[1] {
				return fmt.Sprintf("element %v out of order (or twice, or one of its source is lost) in %v", data[i], data)
			}
			next[e[0]]--
		}
		return ""
	})
}

// oneClient is a single client with delays at lock operations: the status it reads after each call
// is a consequence of the call
func oneClient(c *Check, t *testing.T, n int) {
	c.Sub("one client, delays", n, func(c2 *Case) {
		cf, cl, pseed := drawConc(c2.T)
		cl = cl[:1]
		cl[0] = append(cl[0], drawClient(c2.T, []string{"play", "pause", "stop", "init", "pause", "play"}, 1, 12)...)
		pseed = max(1, pseed)
		c2.Data("%v; perturbation %d; client %v", cf, pseed, cl)
		var w *world
		c2.bubble(t, func() string {
			defer perturb(pseed)()
			w = newWorld(cf)
			m := w.conc(cl, pseed)
			if p := w.probs[c.ID]; p != "" {
				return p
			}
			return m
		})
		w.classes(c2)
		c2.Nontrivial(len(w.notifs) > 3)
	})
}

// coincidence: commands at the very instant of the timeout
func coincidence(c *Check, t *testing.T, n int) {
	c.Sub("coincidence", n, func(c2 *Case) {
		tick := rapid.SampledFrom([]time.Duration{time.Millisecond, 2 * time.Millisecond, 5 * time.Millisecond, 20 * time.Millisecond}).Draw(c2.T, "timeout")
		type cmd struct {
			kind string
			at   time.Duration // since the start of the run, or of the previous command
		}
		near := []time.Duration{tick, tick, tick, tick - 1, tick - 2, tick + 1, tick - 300*time.Microsecond, tick - time.Millisecond, tick / 2, 0, 0}
		var l []cmd
		for i := rapid.IntRange(2, 14).Draw(c2.T, "commands"); i > 0; i-- {
			l = append(l, cmd{rapid.SampledFrom([]string{"play", "play", "stop", "stop", "pause", "init", "batch"}).Draw(c2.T, "command"), rapid.SampledFrom(near).Draw(c2.T, "after")})
		}
		dur := rapid.SampledFrom([]time.Duration{100 * time.Microsecond, tick / 2, tick, tick / 3}).Draw(c2.T, "iteration")
		iters := max(0, rapid.IntRange(-5, 5).Draw(c2.T, "iter"))
		pseed := max(0, rapid.IntRange(-100, 500).Draw(c2.T, "perturbation"))
		c2.Data("timeout %v iterations of %v, limit %d, perturbation %d commands %v", tick, dur, iters, pseed, l)
		c2.bubble(t, func() string {
			defer perturb(pseed)()
			t0 := time.Now()
			type notif struct {
				st core.OCStatus
				at time.Duration
			}
			var mu sync.Mutex
			var notifs []notif
			m := newMock()
			m.iter = func(int, core.OCModel) (core.Clust, core.RuntimeFigures, error) {
				time.Sleep(dur)
				return core.Clust{1.}, nil, nil
			}
			algo := core.NewAlgo(&core.CtrlConf{Timeout: tick, Iter: iters, StatusNotifier: func(_ core.OnlineClust, s core.OCStatus) {
				mu.Lock()
				notifs = append(notifs, notif{s, time.Since(t0)})
				mu.Unlock()
			}}, m, lineSpace{})
			var starts []time.Duration // of the calls that succeed, each gives one status Running
			if msg := clients(1, func(int) {
				for _, x := range l {
					time.Sleep(x.at)
					begin := time.Since(t0)
					var err error
					switch x.kind {
					case "play":
						err = algo.Play()
					case "stop":
						algo.Stop()
					case "pause":
						algo.Pause()
					case "init":
						algo.Init()
					case "batch":
						algo.Batch()
					}
					if err == nil && x.kind == "play" || x.kind == "batch" {
						starts = append(starts, begin)
					}
				}
			}); msg != "" {
				return msg
			}
			time.Sleep(3*tick + time.Second)
			if !within(wedged, func() { algo.Stop() }) {
				return "the final stop does not return"
			}
			synctest.Wait()
			time.Sleep(time.Second)
			mu.Lock()
			defer mu.Unlock()
			timedOut, k := 0, 0
			last := core.Created
			asked := time.Duration(-1)
			for _, n := range notifs {
				if n.st.Value == core.Running {
					if k == len(starts) {
						return fmt.Sprintf("%d starts, more notified: %v", k, notifs)
					}
					if last != core.Idle {
						asked = starts[k]
					}
					k++
				}
				if sameErr(n.st.Error, core.ErrTimeout) {
					timedOut++
					if asked < 0 || n.at < asked+tick {
						return fmt.Sprintf("timed out at %v, the run was asked at %v: %v", n.at, asked, notifs)
					}
				}
				last = n.st.Value
			}
			if k != len(starts) {
				return fmt.Sprintf("%d starts, %d notified: %v", len(starts), k, notifs)
			}
			c2.Nontrivial(timedOut > 0 && len(starts) > 1)
			return ""
		})
	})
}

// crowdRuns: pushers and players at the same time on a ready algorithm
func crowdRuns(c *Check, t *testing.T, n int) {
	c.Sub("crowd", n, func(c2 *Case) {
		per := rapid.IntRange(0, 5).Draw(c2.T, "dataperiter")
		iter := rapid.SampledFrom([]int{0, 0, 1, 2, 5, 30}).Draw(c2.T, "iter")
		perData := 0
		if iter > 0 {
			perData = rapid.IntRange(0, 2).Draw(c2.T, "iterperdata")
		}
		dur := rapid.SampledFrom([]time.Duration{time.Millisecond, 100 * time.Microsecond, 5 * time.Millisecond}).Draw(c2.T, "iteration")
		pushers := rapid.IntRange(1, 6).Draw(c2.T, "pushers")
		each := rapid.IntRange(1, 4).Draw(c2.T, "each")
		players := max(0, rapid.IntRange(-2, 3).Draw(c2.T, "players"))
		rounds := rapid.IntRange(1, 8).Draw(c2.T, "rounds")
		parallel := rarely(c2.T, 2)
		pseed := max(0, rapid.IntRange(-100, 500).Draw(c2.T, "perturbation"))
		c2.Data("%d pushers of %d elements and %d players at once, dataPerIter %d iter %d iterPerData %d, iterations of %v, %d rounds, perturbation %d, parallel %v", pushers, each, players, per, iter, perData, dur, rounds, pseed, parallel)
		c2.Nontrivial(pushers+players > 1 && (players > 0 || per > 0 && pushers*each >= per))
		if parallel {
			defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(4))
		}
		c2.bubble(t, func() string {
			defer perturb(pseed)()
			for round := 0; round < rounds; round++ {
				var active, worst, calls, reached atomic.Int32
				m := newMock()
				m.iter = func(int, core.OCModel) (core.Clust, core.RuntimeFigures, error) {
					calls.Add(1)
					if active.Add(1) > 1 {
						worst.Store(1)
					}
					time.Sleep(dur)
					active.Add(-1)
					return core.Clust{1.}, nil, nil
				}
				m.push = func(core.Elemt, core.OCModel) error { reached.Add(1); return nil }
				var starts atomic.Int32
				algo := core.NewAlgo(&core.CtrlConf{DataPerIter: per, Iter: iter, IterPerData: perData, StatusNotifier: func(_ core.OnlineClust, s core.OCStatus) {
					if s.Value == core.Running {
						starts.Add(1)
					}
				}}, m, lineSpace{})
				if err := algo.Init(); err != nil {
					return fmt.Sprint("Init: ", err)
				}
				crowd := int32(pushers + players)
				var ready, played atomic.Int32
				if msg := clients(int(crowd), func(i int) {
					for ready.Add(1); ready.Load() < crowd; {
						runtime.Gosched()
					}
					if i >= pushers {
						if algo.Play() == nil {
							played.Add(1)
						}
						return
					}
					for k := 0; k < each; k++ {
						algo.Push(float64(i))
					}
				}); msg != "" {
					return fmt.Sprintf("round %d: %s", round, msg)
				}
				total := pushers * each
				time.Sleep(200*time.Millisecond + time.Duration(iter+perData*total+5)*(dur+40*time.Millisecond))
				figs, st := algo.RuntimeFigures(), algo.Status()
				if !within(wedged, func() { algo.Stop() }) {
					return "Stop does not return"
				}
				time.Sleep(100 * time.Millisecond)
				synctest.Wait()
				if worst.Load() > 0 {
					return fmt.Sprintf("round %d: several iterations at the same time (%d starts)", round, starts.Load())
				}
				if figs[core.PushedData] != float64(total) || reached.Load() != int32(total) {
					return fmt.Sprintf("round %d: %d pushes, %d reach the implementation, %v counted", round, total, reached.Load(), figs[core.PushedData])
				}
				auto := per > 0 && total >= per
				n := int(starts.Load())
				switch {
				case !auto && n != int(played.Load()):
					return fmt.Sprintf("round %d: %d starts, %d plays", round, n, played.Load())
				case iter == 0 && (auto || players > 0) && n != 1:
					return fmt.Sprintf("round %d: %d starts of a run that does not end", round, n)
				case auto && players == 0 && (n < 1 || n > total/per):
					return fmt.Sprintf("round %d: %d starts by %d pushes, one every %d", round, n, total, per)
				case iter > 0 && int(calls.Load()) > iter+perData*total:
					return fmt.Sprintf("round %d: %d iterations, budget %d", round, calls.Load(), iter+perData*total)
				case iter > 0 && st.Value != core.Ready:
					return fmt.Sprintf("round %d: %s in the end", round, showStatus(st))
				case iter > 0 && (n > 0 && int(calls.Load()) < iter || n == 0 && calls.Load() > 0):
					return fmt.Sprintf("round %d: %d iterations in %d runs", round, calls.Load(), n)
				}
			}
			return ""
		})
	})
}

// anyError: whatever the error of an initialisation, an iteration or a push, and whoever panics, the
// call or the status reports it and the algorithm obeys afterwards
func anyError(c *Check, t *testing.T, n int) {
	custom := errors.New("custom")
	errs := []error{custom, core.ErrAlreadyCreated, core.ErrRunning, core.ErrNotRunning, core.ErrNotAlive, core.ErrIdle, core.ErrTimeout,
		core.ErrNeverFinish, fmt.Errorf("wrapped: %w", core.ErrAlreadyCreated), fmt.Errorf("wrapped: %w", custom), errors.Join(custom, core.ErrRunning), context.Canceled, io.EOF}
	c.Sub("any error", n, func(c2 *Case) {
		type step struct {
			call string
			fail bool
		}
		e := rapid.SampledFrom(errs).Draw(c2.T, "error")
		steps := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) step {
			return step{rapid.SampledFrom([]string{"init", "play", "batch", "stop", "push", "finishing"}).Draw(t, "call"), rapid.Bool().Draw(t, "fails")}
		}), 1, 10).Draw(c2.T, "steps")
		partial := rapid.Bool().Draw(c2.T, "partial")
		fails := false
		for _, s := range steps {
			fails = fails || s.fail
		}
		c2.Nontrivial(fails)
		c2.Data("error %q steps %v, centroids with the error %v", e, steps, partial)
		c2.bubble(t, func() string {
			failing := false
			m := newMock()
			result := func() (core.Clust, error) {
				if failing && partial {
					return core.Clust{-1.}, e
				} else if failing {
					return nil, e
				}
				return core.Clust{1.}, nil
			}
			iterated := 0
			m.init = func(core.OCModel) (core.Clust, error) { return result() }
			m.iter = func(int, core.OCModel) (core.Clust, core.RuntimeFigures, error) {
				iterated++
				time.Sleep(time.Millisecond)
				return core.Clust{2.}, nil, nil
			}
			m.push = func(core.Elemt, core.OCModel) error {
				if failing {
					return e
				}
				return nil
			}
			panicking := false
			conf := &core.CtrlConf{Iter: 3, Finishing: finishFunc(func(core.OCModel) bool {
				if panicking {
					panic("finishing panics")
				}
				return false
			})}
			algo := core.NewAlgo(conf, m, lineSpace{})
			pushed := 0
			for i, s := range steps {
				failing, panicking = s.fail && s.call != "finishing", s.fail && s.call == "finishing"
				before := algo.Status()
				iterated = 0
				var err error
				if !within(wedged, func() {
					switch s.call {
					case "init":
						err = algo.Init()
					case "play":
						err = algo.Play()
					case "batch", "finishing":
						err = algo.Batch()
					case "stop":
						err = algo.Stop()
					case "push":
						err = algo.Push(1.)
					}
				}) {
					return fmt.Sprintf("step %d (%v) does not return", i, s)
				}
				after := algo.Status()
				time.Sleep(50 * time.Millisecond)
				synctest.Wait()
				st, figs := algo.Status(), algo.RuntimeFigures()
				failing = false
				starts := before.Value == core.Created || before.Value == core.Finished
				if s.call == "batch" || s.call == "finishing" {
					starts = true
				}
				desc := fmt.Sprintf("step %d (%v) from %s returns %v, then %s and %s, %d iterations", i, s, showStatus(before), err, showStatus(after), showStatus(st), iterated)
				batch := s.call == "batch" || s.call == "finishing"
				if batch && before.Value != core.Created || (s.call == "init" || s.call == "play") && before.Value == core.Finished {
					pushed = 0
				}
				var ok bool
				switch {
				case s.call == "push" && s.fail:
					ok = err == e && st == before
				case s.call == "push":
					pushed++
					ok = err == nil && st == before
				case s.call == "stop":
					ok = starts == (err == core.ErrNotAlive) && (starts || err == nil && st.Value == core.Finished && st.Error == nil)
				case s.call == "finishing" && s.fail:
					ok = err != nil && err.Error() == "finishing panics" && st.Value == core.Finished && sameErr(st.Error, err)
				case s.call == "finishing" || s.call == "batch" && !s.fail:
					ok = err == nil && st.Value == core.Finished && st.Error == nil && iterated == 3
				case starts && s.fail: // the initialisation fails
					ok = err == e && after.Value == core.Finished && after.Error == e && st == after && iterated == 0 && algo.Centroids() == nil
				case s.call == "init" && starts:
					ok = err == nil && st.Value == core.Ready && iterated == 0
				case s.call == "init":
					ok = err == core.ErrAlreadyCreated && st == before
				case s.call == "play" && starts:
					ok = err == nil && st.Value == core.Ready && iterated == 3
				case s.call == "play":
					ok = err == nil && st.Value == core.Ready
				}
				if !ok {
					return desc
				}
				if figs[core.PushedData] != float64(pushed) {
					return fmt.Sprintf("%s: %v pushed data, %d accepted", desc, figs[core.PushedData], pushed)
				}
			}
			algo.Stop()
			return ""
		})
	})
}

// commandingNotifier: the notifier itself commands the algorithm
func commandingNotifier(c *Check, t *testing.T, n int) {
	c.Sub("commanding notifier", n, func(c2 *Case) {
		kinds := []string{"", "", "play", "stop", "pause", "init", "push", "wait", "batch"}
		var react [7]string
		for i := range react {
			react[i] = rapid.SampledFrom(kinds).Draw(c2.T, "reaction")
		}
		limit := rapid.IntRange(1, 12).Draw(c2.T, "reactions")
		cl := [][]cop{drawClient(c2.T, []string{"play", "pause", "stop", "init", "push"}, 1, 8)}
		iter := max(0, rapid.IntRange(-3, 5).Draw(c2.T, "iter"))
		timeout := time.Duration(max(0, rapid.IntRange(-10, 10).Draw(c2.T, "timeout"))) * time.Millisecond
		per := max(0, rapid.IntRange(-3, 2).Draw(c2.T, "dataperiter"))
		pseed := max(0, rapid.IntRange(-200, 300).Draw(c2.T, "perturbation"))
		c2.Data("reactions by status %q, at most %d, iter %d timeout %v dataPerIter %d perturbation %d client %v", react, limit, iter, timeout, per, pseed, cl)
		c2.bubble(t, func() string {
			defer perturb(pseed)()
			m := newMock()
			m.iter = func(int, core.OCModel) (core.Clust, core.RuntimeFigures, error) {
				time.Sleep(time.Millisecond)
				return core.Clust{1.}, nil, nil
			}
			var mu sync.Mutex
			var seen []core.OCStatus
			reacted, inside := 0, 0
			wrong := ""
			algo := core.NewAlgo(&core.CtrlConf{Iter: iter, Timeout: timeout, DataPerIter: per, StatusNotifier: func(a core.OnlineClust, s core.OCStatus) {
				mu.Lock()
				if inside++; inside > 1 {
					wrong = "two notifications at the same time"
				}
				seen = append(seen, s)
				k := ""
				if int(s.Value) < len(react) && reacted < limit {
					if k = react[s.Value]; k != "" {
						reacted++
					}
				}
				mu.Unlock()
				switch k {
				case "play":
					a.Play()
				case "stop":
					a.Stop()
				case "pause":
					a.Pause()
				case "init":
					a.Init()
				case "push":
					a.Push(1.)
				case "wait":
					a.Wait(nil, 20*time.Millisecond)
				case "batch":
					if iter > 0 || timeout > 0 {
						a.Batch()
					}
				}
				mu.Lock()
				inside--
				mu.Unlock()
			}}, m, lineSpace{})
			if msg := clients(1, func(int) {
				for _, o := range cl[0] {
					time.Sleep(time.Duration(o.sleep) * 100 * time.Microsecond)
					switch o.kind {
					case "play":
						algo.Play()
					case "stop":
						algo.Stop()
					case "pause":
						algo.Pause()
					case "init":
						algo.Init()
					case "push":
						algo.Push(1.)
					}
				}
			}); msg != "" {
				return msg + fmt.Sprintf(" with a notifier that commands: notified %v", seen)
			}
			time.Sleep(2 * time.Second)
			mu.Lock()
			limit = 0
			mu.Unlock()
			if !within(wedged, func() { algo.Stop() }) {
				return fmt.Sprintf("the final stop does not return: notified %v", seen)
			}
			time.Sleep(time.Second)
			synctest.Wait()
			mu.Lock()
			defer mu.Unlock()
			if inside > 0 {
				return fmt.Sprintf("a command of the notifier does not return: notified %v", seen)
			}
			if wrong != "" {
				return wrong
			}
			last := core.Created
			for i, s := range seen {
				if !legal(last, s.Value) {
					return fmt.Sprintf("notification %d: %v after %v (%v)", i, s.Value, last, seen)
				}
				last = s.Value
			}
			if st := algo.Status(); len(seen) > 0 && !sameStatus(st, seen[len(seen)-1]) || len(seen) == 0 && st.Value != core.Created {
				return fmt.Sprintf("%s, last notified %v", showStatus(st), seen)
			}
			c2.Nontrivial(reacted > 0 && len(seen) > 3)
			return ""
		})
	})
}
