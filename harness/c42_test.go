package distclusverif

import (
	"bytes"
	"fmt"
	"math"
	"runtime"
	"sync"
	"testing"
	"testing/synctest"
	"time"
	"weak"

	"golang.org/x/exp/rand"
	"pgregory.net/rapid"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/kmeans"
	"github.com/wearelumenai/distclus/mcmc"
	"github.com/wearelumenai/distclus/streaming"
)

// heavy is an element whose life can be observed
type heavy struct {
	X   float64
	pad [15]float64
}
type heavySpace struct{ pop *population }

func (heavySpace) Dist(a, b core.Elemt) float64 { return math.Abs(a.(*heavy).X - b.(*heavy).X) }
func (s heavySpace) Combine(a core.Elemt, wa int, b core.Elemt, wb int) core.Elemt {
	return s.pop.born((a.(*heavy).X*float64(wa) + b.(*heavy).X*float64(wb)) / float64(wa+wb))
}
func (s heavySpace) Copy(a core.Elemt) core.Elemt { return s.pop.born(a.(*heavy).X) }
func (heavySpace) Dim(data []core.Elemt) int      { return 1 }

// population remembers the elements without holding them
type population struct {
	mu    sync.Mutex
	l     []weak.Pointer[heavy]
	total int
}

func (p *population) born(x float64) core.Elemt {
	e := &heavy{X: x}
	p.mu.Lock()
	p.l = append(p.l, weak.Make(e))
	p.total++
	p.mu.Unlock()
	return e
}

// alive is the number of elements still held; the others are forgotten
func (p *population) alive() int {
	runtime.GC()
	p.mu.Lock()
	defer p.mu.Unlock()
	n := 0
	for _, w := range p.l {
		if w.Value() != nil {
			p.l[n] = w
			n++
		}
	}
	clear(p.l[n:])
	p.l = p.l[:n]
	return n
}

func TestC42(t *testing.T) {
	c := newCheck(t, "C42", "k-means and MCMC with a frame, streaming: random rounds of many more pushes than may be held, in every state, each followed by a run; the elements still reachable are counted after a garbage collection; the go routines of long histories of control calls, timeouts, waits and notifications are counted; non-trivial: at least ten times more elements pushed than may be held, or at least 20 runs")
	c.Sub("elements", 40, func(c *Case) {
		kind := rapid.IntRange(0, 2).Draw(c.T, "kind")
		par := rapid.Bool().Draw(c.T, "par")
		frame := rapid.IntRange(1, 40).Draw(c.T, "frame")
		k := min(frame, rapid.IntRange(1, 4).Draw(c.T, "k"))
		seed := uint64(rapid.IntRange(1, 1<<30).Draw(c.T, "seed"))
		values := rapid.IntRange(5, 1000).Draw(c.T, "values")
		initial := rapid.IntRange(k, 200).Draw(c.T, "initial")
		type round struct {
			state string // of the algorithm when elements are pushed
			n     int
		}
		var rounds []round
		// whatever the buffers kept between two rounds, most of the elements must have been released at the end
		states := rapid.SliceOfN(rapid.SampledFrom([]string{"finished", "ready", "running", "paused", "alternating"}), 1, 4).Draw(c.T, "states")
		backlog := rapid.IntRange(40, 200).Draw(c.T, "backlog")
		held, total := 8*frame+300+2*backlog, 0
		for i := 0; total < 4*held; i++ {
			r := round{states[i%len(states)], rapid.IntRange(1, backlog).Draw(c.T, "n")}
			if i%len(states) > 0 || r.n < backlog/2 {
				r.n = backlog
			}
			total += r.n
			rounds = append(rounds, r)
		}
		c.Data("%s par %v frame or queue %d k %d seed %d values %d initially %d rounds %v", kindNames[kind], par, frame, k, seed, values, initial, rounds)
		c.Nontrivial(true)
		c.Class(true, kindNames[kind])
		c.bubble(t, func() string {
			pop := &population{}
			g := rand.New(rand.NewSource(seed))
			born := func() core.Elemt { return pop.born(float64(g.Intn(values))) }
			var data []core.Elemt
			if kind == 2 {
				initial = min(initial, frame)
			}
			for i := 0; i < initial; i++ {
				data = append(data, born())
			}
			// each iteration lasts 1 ms, runs do not end by themselves
			ctrl := core.CtrlConf{}
			var inner *core.Algo
			switch kind {
			case 0:
				inner = kmeans.NewAlgo(kmeans.Conf{CtrlConf: ctrl, K: k, FrameSize: frame, Par: par, NumCPU: 3, RGen: g}, heavySpace{pop}, data, kmeans.GivenInitializer)
			case 1:
				inner = mcmc.NewAlgo(mcmc.Conf{CtrlConf: ctrl, InitK: k, MaxK: k + 2, FrameSize: frame, Par: par, NumCPU: 3, Amp: 0.1, RGen: g}, heavySpace{pop}, data, kmeans.GivenInitializer, mcmc.NewDirac())
			default:
				inner = streaming.NewAlgo(streaming.Conf{CtrlConf: ctrl, BufferSize: frame, RGen: g}, heavySpace{pop}, data)
			}
			clear(data)
			algo := core.NewAlgo(inner.Conf(), &slowImpl{Impl: inner.Impl()}, heavySpace{pop})
			for i, r := range rounds {
				switch r.state {
				case "finished":
					algo.Stop()
				case "ready":
					algo.Stop()
					algo.Init()
				case "running", "alternating":
					algo.Play()
				case "paused":
					algo.Play()
					time.Sleep(100 * time.Microsecond)
					algo.Pause()
				}
				for j := 0; j < r.n; j++ {
					algo.Push(born())
					switch {
					case kind == 2 && j%frame == 0 && r.state != "ready" && r.state != "finished":
						algo.Play()
						time.Sleep(time.Duration(frame+1) * time.Millisecond)
					case r.state == "running":
						time.Sleep(100 * time.Microsecond)
					case r.state == "alternating" && j%50 == 0:
						algo.Pause()
						algo.Play()
					}
				}
				algo.Play()
				time.Sleep(time.Duration(5+frame) * time.Millisecond)
				limit := held
				if kind == 2 {
					limit += len(algo.Centroids())
				}
				if n := pop.alive(); n > limit {
					algo.Stop()
					return fmt.Sprintf("round %d: of %d elements %d are still held, with a frame or a queue of %d", i, pop.total, n, frame)
				}
			}
			algo.Stop()
			time.Sleep(time.Second)
			if n := pop.alive(); n > held+len(algo.Centroids()) {
				return fmt.Sprintf("at the end: of %d elements %d are still held, with a frame or a queue of %d", pop.total, n, frame)
			}
			runtime.KeepAlive(algo)
			return ""
		})
	})
	c.Sub("activity", 300, func(c *Case) {
		ops := rapid.SliceOfN(rapid.SampledFrom([]string{"play", "play", "pause", "stop", "init", "push", "batch", "wait", "sleep", "copy"}), 1, 12).Draw(c.T, "ops")
		times := rapid.IntRange(20, 60).Draw(c.T, "times")
		timeout := rapid.SampledFrom([]int{0, 0, 3, 40, 300}).Draw(c.T, "timeout")
		iter := rapid.IntRange(1, 5).Draw(c.T, "iter")
		dpi := rapid.IntRange(0, 2).Draw(c.T, "dataPerIter")
		fail := rapid.IntRange(0, 30).Draw(c.T, "fail")
		notified := rapid.Bool().Draw(c.T, "notified")
		c.Data("%d times %v timeout %dms iter %d dataPerIter %d failing every %d notified %v", times, ops, timeout, iter, dpi, fail, notified)
		runs := 0
		c.bubble(t, func() string {
			conf := &core.CtrlConf{Iter: iter, DataPerIter: dpi, Timeout: time.Duration(timeout)*time.Millisecond + 11*time.Microsecond}
			if timeout == 0 {
				conf.Timeout = 0
			}
			if notified {
				conf.StatusNotifier = func(oc core.OnlineClust, st core.OCStatus) {
					oc.Status()
					if st.Value == core.Running {
						runs++
					}
				}
			}
			m := newMock()
			calls := 0
			m.iter = func(int, core.OCModel) (core.Clust, core.RuntimeFigures, error) {
				time.Sleep(time.Millisecond)
				calls++
				if fail > 0 && calls%fail == 0 {
					return nil, nil, errInit
				}
				return core.Clust{1.}, nil, nil
			}
			algo := core.NewAlgo(conf, m, lineSpace{})
			settle := func() int {
				time.Sleep(time.Duration(timeout+50) * time.Millisecond)
				synctest.Wait()
				buf := make([]byte, 1<<20)
				return bytes.Count(buf[:runtime.Stack(buf, true)], []byte("synctest bubble"))
			}
			base := settle()
			for i := 0; i < times; i++ {
				for _, o := range ops {
					switch o {
					case "play":
						algo.Play()
					case "pause":
						algo.Pause()
					case "stop":
						algo.Stop()
					case "init":
						algo.Init()
					case "push":
						algo.Push(1.)
					case "batch":
						algo.Batch()
					case "wait":
						algo.Wait(nil, 20*time.Millisecond)
					case "copy":
						algo.Copy(conf, lineSpace{})
					case "sleep":
						time.Sleep(2 * time.Millisecond)
					}
				}
				// at most a run and a status being notified, once timeouts have elapsed
				if n := settle(); n > base+2 {
					algo.Stop()
					return fmt.Sprintf("%d more go routines than at the beginning after %d times", n-base, i+1)
				}
			}
			algo.Stop()
			if n := settle(); n > base {
				return fmt.Sprintf("%d go routines remain when all is finished", n-base)
			}
			return ""
		})
		c.Nontrivial(times >= 20)
	})
}
