package distclusverif

import (
	"fmt"
	"reflect"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"golang.org/x/exp/rand"
	"pgregory.net/rapid"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
	"github.com/wearelumenai/distclus/mcmc"
	"github.com/wearelumenai/distclus/streaming"
)

// Long histories: what holds for a few iterations, pushes, pauses or sessions holds for thousands.

// manyOf draws a number whose magnitude is uniform up to 2^top
func manyOf(t *rapid.T, top int, l string) int {
	e := rapid.SampledFrom(upToInt(top)).Draw(t, l+" magnitude")
	return 1<<e + rapid.IntRange(0, 1<<e-1).Draw(t, l)
}

func upToInt(n int) (l []int) {
	for i := 0; i < n; i++ {
		l = append(l, i)
	}
	return
}

// longBudget: a run executes its budget exactly, however large
func longBudget(c *Case, t *testing.T) {
	n := manyOf(c.T, 16, "iterations")
	pushed, how := 0, rapid.SampledFrom([]string{"iter", "data", "both", "condition"}).Draw(c.T, "how")
	empty := rapid.SampledFrom([]int{0, 0, 2, 5}).Draw(c.T, "empty") // one out of, not counted
	conf := core.CtrlConf{}
	want := n
	switch how {
	case "iter":
		conf.Iter = n
	case "data":
		pushed = manyOf(c.T, 12, "pushed")
		conf.IterPerData = (n + pushed - 1) / pushed
		want = pushed * conf.IterPerData
	case "both":
		pushed = rapid.IntRange(1, 9).Draw(c.T, "pushed")
		conf.IterPerData = rapid.IntRange(1, 5).Draw(c.T, "per")
		conf.Iter = n
		want = n + pushed*conf.IterPerData
	default:
		conf.Iter = rapid.SampledFrom([]int{0, 1 << 30}).Draw(c.T, "iter")
		conf.Finishing = finishFunc(func(m core.OCModel) bool { return m.RuntimeFigures()[core.Iterations] >= float64(n) })
	}
	c.Data("%s: iter %d per data %d pushed %d, one out of %d iterations empty, %d wanted", how, conf.Iter, conf.IterPerData, pushed, empty, want)
	c.Nontrivial(want > 256)
	m := newMock()
	counted := 0
	var wrong string
	m.iter = func(i int, model core.OCModel) (core.Clust, core.RuntimeFigures, error) {
		if f := model.RuntimeFigures()[core.Iterations]; f != float64(counted) && wrong == "" {
			wrong = fmt.Sprintf("an iteration is given an iterations figure of %v, %d were counted", f, counted)
		}
		if cl := model.Centroids(); wrong == "" && counted > 0 && (len(cl) != 1 || cl[0] != core.Elemt(float64(counted))) {
			wrong = fmt.Sprintf("after %d iterations the next one is given %v", counted, cl)
		}
		if empty > 0 && i%empty == 0 {
			return nil, nil, nil
		}
		counted++
		return core.Clust{float64(counted)}, core.RuntimeFigures{"own": float64(counted)}, nil
	}
	c.bubble(t, func() string {
		algo := core.NewAlgo(&conf, m, lineSpace{})
		must(algo.Init())
		for i := 0; i < pushed; i++ {
			must(algo.Push(1.))
		}
		must(algo.Play())
		if err := algo.Wait(core.NewStatusFinishing(true, core.Ready, core.Finished), 200*time.Second); err != nil {
			return fmt.Sprintf("Wait: %v", err)
		}
		st, fig, cl := algo.Status(), algo.RuntimeFigures(), algo.Centroids()
		switch {
		case wrong != "":
			return fmt.Sprintf("%s", wrong)
		case st.Value != core.Ready || st.Error != nil:
			return fmt.Sprintf("the run ends %s", showStatus(st))
		case counted != want || fig[core.Iterations] != float64(want):
			return fmt.Sprintf("%d iterations are executed and counted %v", counted, fig[core.Iterations])
		case len(cl) != 1 || cl[0] != core.Elemt(float64(want)) || fig["own"] != float64(want):
			return fmt.Sprintf("the iteration published is %v (own figure %v) instead of %d", cl, fig["own"], want)
		}
		if err := algo.Play(); err != nil {
			return fmt.Sprintf("playing again: %v", err)
		}
		must(algo.Wait(core.NewStatusFinishing(true, core.Ready, core.Finished), 200*time.Second))
		if counted != want {
			return fmt.Sprintf("%d more iterations although the budget is spent", counted-want)
		}
		return ""
	})
}

// longPushes: every push counts, however many
func longPushes(c *Case, t *testing.T) {
	n := manyOf(c.T, 17, "pushes")
	pushers := rapid.IntRange(1, 3).Draw(c.T, "pushers")
	running := rapid.Bool().Draw(c.T, "running")
	refuse := rapid.SampledFrom([]int{0, 0, 3, 100}).Draw(c.T, "refuse")
	c.Data("%d pushes by each of %d, running %v, one out of %d refused", n, pushers, running, refuse)
	c.Nontrivial(n > 1000)
	n = (n + pushers - 1) / pushers
	m := newMock()
	m.iter = func(i int, _ core.OCModel) (core.Clust, core.RuntimeFigures, error) {
		time.Sleep(50 * time.Microsecond)
		return core.Clust{1.}, nil, nil
	}
	var mu sync.Mutex
	got := make([]int, pushers)
	var wrong string
	m.push = func(e core.Elemt, _ core.OCModel) error {
		x := e.([2]int)
		if refuse > 0 && x[1]%refuse == 1 {
			return errPush
		}
		mu.Lock()
		defer mu.Unlock()
		for refuse > 0 && got[x[0]]%refuse == 1 {
			got[x[0]]++
		}
		if got[x[0]] != x[1] && wrong == "" {
			wrong = fmt.Sprintf("push %d of pusher %d reaches the implementation instead of push %d", x[1], x[0], got[x[0]])
		}
		got[x[0]]++
		return nil
	}
	algo := core.NewAlgo(&core.CtrlConf{}, m, lineSpace{})
	if running {
		must(algo.Play())
	}
	var wg sync.WaitGroup
	var accepted atomic.Int64
	for p := 0; p < pushers; p++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < n; i++ {
				if algo.Push([2]int{p, i}) == nil {
					accepted.Add(1)
				}
			}
		}()
	}
	wg.Wait()
	if running {
		time.Sleep(2 * time.Millisecond) // for an iteration to be published
	}
	f := algo.RuntimeFigures()[core.PushedData]
	if running {
		algo.Stop()
	}
	if wrong != "" {
		c.Failf("%s", wrong)
	}
	want := 0
	for i := 0; i < n; i++ {
		if refuse == 0 || i%refuse != 1 {
			want += pushers
		}
	}
	if int(accepted.Load()) != want || f != float64(want) {
		c.Failf("%d pushes accepted, %v counted, want %d", accepted.Load(), f, want)
	}
}

// longBacklog: the notifier learns every transition of a long history, even when it is late
func longBacklog(c *Case, t *testing.T) {
	n := manyOf(c.T, 11, "cycles")
	kind := rapid.SampledFrom([]string{"pause", "sessions", "runs"}).Draw(c.T, "kind")
	late := rapid.Bool().Draw(c.T, "late")
	c.Data("%d cycles of %s, late notifier %v", n, kind, late)
	c.Nontrivial(n > 32)
	c.bubble(t, func() string {
		var got []core.ClustStatus
		gate := make(chan bool)
		conf := &core.CtrlConf{StatusNotifier: func(_ core.OnlineClust, st core.OCStatus) {
			if late {
				<-gate
			}
			got = append(got, st.Value)
		}}
		over := true
		if kind == "runs" {
			conf.Finishing = finishFunc(func(core.OCModel) bool { return over })
		}
		m := newMock()
		m.iter = func(int, core.OCModel) (core.Clust, core.RuntimeFigures, error) {
			over = true
			time.Sleep(time.Microsecond)
			return core.Clust{1.}, nil, nil
		}
		algo := core.NewAlgo(conf, m, lineSpace{})
		must(algo.Init())
		want := []core.ClustStatus{core.Initializing, core.Ready}
		if kind == "pause" {
			must(algo.Play())
			want = append(want, core.Running)
		}
		for i := 0; i < n; i++ {
			var err, err2 error
			switch kind {
			case "pause":
				err, err2 = algo.Pause(), algo.Play()
				want = append(want, core.Idle, core.Running)
			case "sessions":
				err, err2 = algo.Stop(), algo.Init()
				want = append(want, core.Finished, core.Initializing, core.Ready)
			default:
				over = false
				err = algo.Play()
				time.Sleep(time.Millisecond)
				want = append(want, core.Running, core.Ready)
			}
			if err != nil || err2 != nil {
				return fmt.Sprintf("cycle %d: %v, %v", i, err, err2)
			}
		}
		algo.Stop()
		want = append(want, core.Finished)
		close(gate)
		time.Sleep(time.Second)
		if !reflect.DeepEqual(got, want) {
			i := 0
			for i < len(got) && i < len(want) && got[i] == want[i] {
				i++
			}
			return fmt.Sprintf("%d notifications for %d transitions, the first difference is at %d: %v instead of %v",
				len(got), len(want), i, got[i:min(i+5, len(got))], want[i:min(i+5, len(want))])
		}
		return ""
	})
}

// longSnapshots: what was published thousands of iterations ago has not changed
func longSnapshots(c *Case, t *testing.T) {
	n := manyOf(c.T, 12, "iterations")
	kind := rapid.IntRange(0, 2).Draw(c.T, "algorithm")
	if kind == 2 {
		n = n%400 + 1
	}
	par := rapid.Bool().Draw(c.T, "par")
	seed := rapid.IntRange(1, 1<<30).Draw(c.T, "seed")
	frame := rapid.SampledFrom([]int{0, 0, 6}).Draw(c.T, "frame")
	pushing := rapid.Bool().Draw(c.T, "pushing")
	c.Data("%d iterations, %s par %v seed %d frame %d pushing %v", n, kindNames[kind], par, seed, frame, pushing)
	c.Nontrivial(n > 32)
	g := rand.New(rand.NewSource(uint64(seed)))
	var data []core.Elemt
	for i := 0; i < 9; i++ {
		data = append(data, []float64{g.NormFloat64(), g.NormFloat64()})
	}
	type snap struct {
		cl, copied   core.Clust
		fig, copied2 core.RuntimeFigures
	}
	var snaps []snap
	var algo *core.Algo
	ctrl := core.CtrlConf{Iter: n, Finishing: finishFunc(func(m core.OCModel) bool {
		s := snap{cl: m.Centroids(), fig: m.RuntimeFigures()}
		s.copied = core.Clust(deepCopies(s.cl))
		s.copied2 = core.RuntimeFigures{}
		for k, v := range s.fig {
			s.copied2[k] = v
		}
		snaps = append(snaps, s)
		if pushing && len(snaps)%3 == 0 {
			algo.Push([]float64{g.NormFloat64(), g.NormFloat64()})
		}
		return false
	})}
	if pushing && frame == 0 {
		frame = 12
	}
	if kind == 2 {
		for len(data) < n+1 {
			data = append(data, []float64{g.NormFloat64(), g.NormFloat64()})
		}
		algo = streaming.NewAlgo(streaming.Conf{CtrlConf: ctrl, BufferSize: 2*n + 20, Mu: []float64{0.5, 0.3, -5}[seed%3], Sigma: []float64{0.1, 0.5, 2}[seed/3%3], RGen: g}, euclid.NewSpace(), data)
	} else if kind == 1 {
		algo = mcmc.NewAlgo(mcmc.Conf{CtrlConf: ctrl, InitK: 2, MaxK: 5, Amp: 0.01, FrameSize: frame, Par: par, NumCPU: 2, RGen: g}, euclid.NewSpace(), data, kmeans.GivenInitializer, noise{rand.New(rand.NewSource(uint64(seed) + 1)), 0.3, 0, data})
	} else {
		algo = kmeans.NewAlgo(kmeans.Conf{CtrlConf: ctrl, K: 3, FrameSize: frame, Par: par, NumCPU: 2, RGen: g}, euclid.NewSpace(), data, kmeans.GivenInitializer)
	}
	c.bubble(t, func() string {
		if err := algo.Batch(); err != nil {
			return fmt.Sprint("Batch: ", err)
		}
		return ""
	})
	// the counted iterations are over when their number is n: the condition is not asked again
	if len(snaps) != n {
		c.Failf("the finishing condition is asked %d times", len(snaps))
	}
	for i, s := range snaps {
		if s.fig[core.Iterations] != float64(i) {
			c.Failf("snapshot %d shows %v iterations", i, s.fig[core.Iterations])
		}
		if !sameAll(s.cl, s.copied) || !reflect.DeepEqual(s.fig, s.copied2) {
			c.Failf("what was published after %d iterations, %s %v, is now %s %v", i, show(s.copied), s.copied2, show(s.cl), s.fig)
		}
	}
}

// longSessions: the hundredth session of an algorithm is as its first one
func longSessions(c *Case, t *testing.T) {
	n := manyOf(c.T, 9, "sessions")
	iter := min(manyOf(c.T, 10, "iter"), max(1, 20000/n))
	seed := rapid.IntRange(1, 1<<30).Draw(c.T, "seed")
	kind := rapid.IntRange(0, 2).Draw(c.T, "algorithm")
	pushes := rapid.SampledFrom([]int{0, 0, 1}).Draw(c.T, "pushes")
	c.Data("%d sessions of %d iterations, %s seed %d, %d pushes per session", n, iter, kindNames[kind], seed, pushes)
	c.Nontrivial(n > 16)
	src := &reseed{rand.NewSource(uint64(seed))}
	g := rand.New(rand.NewSource(uint64(seed)))
	var data []core.Elemt
	first := 8
	if kind == 2 { // all of them are consumed by each session
		first, pushes = iter+1, iter+1
	}
	for i := 0; i < first; i++ {
		data = append(data, []float64{g.NormFloat64(), g.NormFloat64()})
	}
	ctrl := core.CtrlConf{Iter: iter}
	build := func(data []core.Elemt, gen *rand.Rand) *core.Algo {
		switch kind {
		case 2:
			return streaming.NewAlgo(streaming.Conf{CtrlConf: ctrl, BufferSize: iter + 1, Mu: []float64{0.5, 0.3, 1}[seed%3], Sigma: []float64{0.1, 0.5}[seed/3%2], OutAfter: 2 + seed/6%9, RGen: gen}, euclid.NewSpace(), data)
		case 1:
			return mcmc.NewAlgo(mcmc.Conf{CtrlConf: ctrl, InitK: 2, MaxK: 5, Amp: 0.01, RGen: gen}, euclid.NewSpace(), data, kmeans.RandInitializer, mcmc.NewDirac())
		}
		return kmeans.NewAlgo(kmeans.Conf{CtrlConf: ctrl, K: 3, RGen: gen}, euclid.NewSpace(), data, kmeans.RandInitializer)
	}
	c.bubble(t, func() string {
		algo := build(data, rand.New(src))
		for s := 0; s < n; s++ {
			src.Seed(uint64(seed + s))
			if err := algo.Batch(); err != nil {
				return fmt.Sprintf("session %d: %v", s, err)
			}
			if s%7 == 0 || s == n-1 || kind == 2 {
				fresh := build(data, rand.New(rand.NewSource(uint64(seed+s))))
				if err := fresh.Batch(); err != nil {
					return fmt.Sprintf("fresh algorithm of session %d: %v", s, err)
				}
				a, b := algo.RuntimeFigures(), fresh.RuntimeFigures()
				for _, f := range []core.RuntimeFigures{a, b} {
					delete(f, core.Duration)
				}
				if !sameAll(algo.Centroids(), fresh.Centroids()) || !reflect.DeepEqual(a, b) {
					return fmt.Sprintf("session %d gives %s %v, a fresh algorithm %s %v", s, show(algo.Centroids()), a, show(fresh.Centroids()), b)
				}
			}
			if kind == 2 {
				data = nil
			}
			for i := 0; i < pushes; i++ {
				e := []float64{g.NormFloat64(), g.NormFloat64()}
				data = append(data, e)
				must(algo.Push(e))
			}
		}
		return ""
	})
}

// reseed is a source that may be seeded again under a generator
type reseed struct{ rand.Source }

// largeQueue: a large queue accepts exactly its size and is consumed in order. Every element becomes a center.
func largeQueue(c *Case, t *testing.T) {
	size := manyOf(c.T, 12, "size")
	initial := rapid.IntRange(0, min(size, 3*size/2)).Draw(c.T, "initial")
	extra := rapid.IntRange(0, 5).Draw(c.T, "extra")
	rounds := rapid.IntRange(1, 3).Draw(c.T, "rounds")
	if size > 1000 {
		rounds = 1
	}
	c.Data("queue of %d, %d initial elements, %d too many, %d rounds", size, initial, extra, rounds)
	c.Nontrivial(size > 16)
	var data []core.Elemt
	for i := 0; i < initial; i++ {
		data = append(data, float64(i))
	}
	next := initial
	algo := streaming.NewAlgo(streaming.Conf{BufferSize: size, Mu: -100, Sigma: 0.1, OutAfter: 1 << 40, RGen: rand.New(rand.NewSource(1))}, lineSpace{}, data)
	held, all := initial, []core.Elemt(data)
	must0 := func(what string, err error) {
		if err != nil {
			c.Failf("%s: %v", what, err)
		}
	}
	for r := 0; r < rounds; r++ {
		for i := 0; i < size+extra; i++ {
			err := algo.Push(float64(next))
			if (err == nil) != (held < size) {
				c.Failf("push with %d elements in a queue of %d: %v", held, size, err)
			}
			if err == nil {
				held++
				all = append(all, float64(next))
				next++
			}
		}
		if r == 0 {
			must0("Init", algo.Init())
		}
		must0("Play", algo.Play())
		want := len(all) - 1
		for begin := time.Now(); algo.RuntimeFigures()[core.Iterations] < float64(want) && time.Since(begin) < 100*time.Second; {
			time.Sleep(time.Millisecond)
		}
		must0("Pause", algo.Pause())
		held = 0
		got := algo.Centroids()
		if n := algo.RuntimeFigures()[core.Iterations]; n != float64(want) {
			c.Failf("%v iterations counted, %d elements were accepted", n, want+1)
		}
		for i := range all {
			if i >= len(got) || got[i] != all[i] {
				c.Failf("%d centers for %d elements, they differ at %d", len(got), len(all), i)
			}
		}
		if len(got) != len(all) {
			c.Failf("%d centers for %d elements", len(got), len(all))
		}
		// the next round starts from a pause
	}
	algo.Stop()
}

// longWaits: waits of hours, for runs of hours
func longWaits(c *Case, t *testing.T) {
	length := func(l string) time.Duration {
		return time.Second + time.Duration(manyOf(c.T, 15, l))*time.Second*time.Duration(rapid.IntRange(90, 110).Draw(c.T, l+" percent"))/100
	}
	limit, end := length("limit"), length("end")
	if rapid.IntRange(0, 2).Draw(c.T, "same order") > 0 {
		end = limit * time.Duration(rapid.IntRange(80, 120).Draw(c.T, "of limit")) / 100
	}
	iters := rapid.IntRange(1, 20).Draw(c.T, "iterations")
	custom := rapid.Bool().Draw(c.T, "condition")
	c.Data("wait limited to %v for a run of %v in %d iterations, own condition %v", limit, end, iters, custom)
	c.Nontrivial(limit > time.Hour || end > time.Hour)
	c.bubble(t, func() string {
		m := newMock()
		m.iter = func(int, core.OCModel) (core.Clust, core.RuntimeFigures, error) {
			time.Sleep(end / time.Duration(iters))
			return core.Clust{1.}, nil, nil
		}
		algo := core.NewAlgo(&core.CtrlConf{Iter: iters}, m, lineSpace{})
		must(algo.Play())
		var condition core.Finishing
		if custom {
			condition = core.NewIterFinishing(iters, 0)
		}
		begin := time.Now()
		err := algo.Wait(condition, limit)
		spent := time.Since(begin)
		algo.Stop()
		time.Sleep(time.Second)
		const step = 300 * time.Millisecond
		switch {
		case err != nil && err != core.ErrTimeout:
			return fmt.Sprint("Wait: ", err)
		case err == nil && spent < end-step:
			return fmt.Sprintf("Wait returns after %v", spent)
		case err != nil && (end < limit-step || spent < limit):
			return fmt.Sprintf("Wait gives up after %v", spent)
		case spent > limit+step:
			return fmt.Sprintf("Wait lasts %v", spent)
		case end > limit+step && err == nil:
			return fmt.Sprintf("Wait does not report that its limit is over, after %v", spent)
		}
		return ""
	})
}

// longControls: commands return, however many of them and however late the notifier, which queries the algorithm, is
func longControls(c *Case, t *testing.T) {
	n := manyOf(c.T, 11, "cycles")
	kinds := rapid.SliceOfN(rapid.SampledFrom([]string{"pause", "stop", "init", "play", "push", "batch", "wait", "predict", "copy", "late init"}), 1, 6).Draw(c.T, "kinds")
	slow := rapid.SampledFrom([]time.Duration{0, 20 * time.Millisecond, time.Second, time.Hour}).Draw(c.T, "notifier takes")
	queries := rapid.Bool().Draw(c.T, "queries")
	timeout := rapid.SampledFrom([]time.Duration{0, 0, 37 * time.Microsecond, time.Minute}).Draw(c.T, "timeout")
	c.Data("%d times %v; the notifier takes %v, queries %v; timeout %v", n, kinds, slow, queries, timeout)
	c.Nontrivial(n > 16)
	c.bubble(t, func() string {
		conf := &core.CtrlConf{Iter: 3, Timeout: timeout}
		closed := make(chan bool)
		conf.StatusNotifier = func(oc core.OnlineClust, _ core.OCStatus) {
			select {
			case <-time.After(slow):
			case <-closed:
			}
			if queries {
				oc.Status()
				oc.RuntimeFigures()
				oc.Predict(1.)
			}
		}
		defer func() { close(closed); time.Sleep(2 * time.Minute) }() // past every timeout that was set
		m := newMock()
		m.iter = func(int, core.OCModel) (core.Clust, core.RuntimeFigures, error) {
			time.Sleep(10 * time.Microsecond)
			return core.Clust{1.}, nil, nil
		}
		algo := core.NewAlgo(conf, m, lineSpace{})
		do := map[string]func(){
			"pause": func() { algo.Pause() }, "stop": func() { algo.Stop() }, "init": func() { algo.Init() }, "play": func() { algo.Play() },
			"push": func() { algo.Push(1.) }, "batch": func() { algo.Batch() }, "wait": func() { algo.Wait(nil, time.Second) },
			"predict": func() { algo.Predict(1.) }, "copy": func() { algo.Copy(conf, lineSpace{}) },
			"late init": func() { time.Sleep(time.Millisecond); algo.Init() },
		}
		for i := 0; i < n; i++ {
			for _, k := range kinds {
				began := time.Now()
				if !within(20*time.Second, do[k]) {
					return fmt.Sprintf("cycle %d: %s does not return", i, k)
				}
				// none waits for a notifier: iterations take microseconds and waits poll every 100 ms
				if d := time.Since(began); slow > time.Second && d > 2*time.Second {
					return fmt.Sprintf("cycle %d: %s takes %v", i, k, d)
				}
			}
		}
		if !within(20*time.Second, func() { algo.Stop() }) {
			return "the last Stop does not return"
		}
		return ""
	})
}

// longTimeouts: a run is interrupted at its timeout, however far it is, counted from its own start
func longTimeouts(c *Case, t *testing.T) {
	timeout := 100000 + time.Duration(manyOf(c.T, 52, "timeout")) // up to a month or so
	runs := rapid.IntRange(1, 4).Draw(c.T, "runs")
	steps := make([]int, runs) // of a run, in hundredths of the timeout; the last one is interrupted
	for i := range steps {
		steps[i] = rapid.IntRange(1, 95).Draw(c.T, "part")
	}
	each := timeout / 100
	paused := rapid.IntRange(0, 60).Draw(c.T, "paused at")
	c.Data("timeout %v, iterations of %v, %d runs of %v iterations, paused at %d", timeout, each, runs, steps, paused)
	c.Nontrivial(timeout > time.Minute)
	c.bubble(t, func() string {
		var ended time.Time
		conf := &core.CtrlConf{Timeout: timeout, StatusNotifier: func(_ core.OnlineClust, st core.OCStatus) {
			if st.Value == core.Finished {
				ended = time.Now()
			}
		}}
		left := 0
		conf.Finishing = finishFunc(func(core.OCModel) bool { return left == 0 })
		m := newMock()
		m.iter = func(int, core.OCModel) (core.Clust, core.RuntimeFigures, error) {
			time.Sleep(each)
			left--
			return core.Clust{1.}, nil, nil
		}
		algo := core.NewAlgo(conf, m, lineSpace{})
		for i, n := range steps[:runs-1] {
			left = n
			must(algo.Play())
			time.Sleep(time.Duration(n)*each + each/2)
			if st := algo.Status(); st.Value != core.Ready || st.Error != nil {
				return fmt.Sprintf("run %d, of %v, ends %s", i, time.Duration(n)*each, showStatus(st))
			}
		}
		left = 1 << 30
		began := time.Now()
		must(algo.Play())
		if paused > 0 {
			time.Sleep(time.Duration(paused)*each - each/2)
			if err := algo.Pause(); err != nil {
				return fmt.Sprintf("%v after its start, a run with a timeout of %v cannot be paused: %v", time.Since(began), timeout, err)
			}
			if steps[runs-1] > 50 {
				must(algo.Play())
			}
		}
		time.Sleep(timeout - time.Since(began) - each)
		if st := algo.Status(); !st.Alive() {
			return fmt.Sprintf("%v after its start, a run with a timeout of %v is %s", time.Since(began), timeout, showStatus(st))
		}
		time.Sleep(3 * each)
		st := algo.Status()
		algo.Stop()
		time.Sleep(time.Second)
		if st.Value != core.Finished || st.Error != core.ErrTimeout {
			return fmt.Sprintf("%v after its start, a run with a timeout of %v is %s", time.Since(began), timeout, showStatus(st))
		}
		if d := ended.Sub(began); d < timeout || d > timeout+each {
			return fmt.Sprintf("a run with a timeout of %v and iterations of %v is interrupted after %v", timeout, each, d)
		}
		return ""
	})
}
