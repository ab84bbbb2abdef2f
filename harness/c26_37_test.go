package distclusverif

import (
	"errors"
	"fmt"
	"math"
	"testing"
	"testing/synctest"
	"time"

	"golang.org/x/exp/rand"
	"pgregory.net/rapid"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/cosinus"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
	"github.com/wearelumenai/distclus/mcmc"
	"github.com/wearelumenai/distclus/streaming"
)

// bagAlgo builds an algorithm of one centroid, which holds the data an iteration used
func bagAlgo(useMCMC, par bool, cpu, frame int, ctrl core.CtrlConf, space core.Space, data []core.Elemt, wrap func(core.Impl) core.Impl) *core.Algo {
	gen := rand.New(rand.NewSource(7))
	var inner *core.Algo
	if useMCMC {
		// one centroid for ever, every proposal accepted
		inner = mcmc.NewAlgo(mcmc.Conf{CtrlConf: ctrl, InitK: 1, MaxK: 1, ProbaK: []float64{0, 1, 0}, FrameSize: frame, Par: par, NumCPU: cpu, RGen: gen},
			space, data, kmeans.GivenInitializer, mcmc.NewDirac())
	} else {
		inner = kmeans.NewAlgo(kmeans.Conf{CtrlConf: ctrl, K: 1, FrameSize: frame, Par: par, NumCPU: cpu, RGen: gen}, space, data, kmeans.GivenInitializer)
	}
	return core.NewAlgo(inner.Conf(), wrap(inner.Impl()), space)
}

// watchSpace notes the elements it is given
type watchSpace struct {
	bagSpace
	seen map[int]bool
}

func (s *watchSpace) note(l ...core.Elemt) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, e := range l {
		if x := ids(e); len(x) == 1 && s.seen != nil {
			s.seen[x[0]] = true
		}
	}
}

func (s *watchSpace) Dist(a, b core.Elemt) float64 {
	s.note(a, b)
	return s.bagSpace.Dist(a, b)
}

func (s *watchSpace) Combine(a core.Elemt, wa int, b core.Elemt, wb int) core.Elemt {
	s.note(a, b)
	return s.bagSpace.Combine(a, wa, b, wb)
}

// watcher tells the elements each iteration used
type watcher struct {
	core.Impl
	space *watchSpace
	used  []map[int]bool
}

func (w *watcher) Iterate(m core.OCModel) (core.Clust, core.RuntimeFigures, error) {
	w.space.mu.Lock()
	w.space.seen = map[int]bool{}
	w.used = append(w.used, w.space.seen)
	w.space.mu.Unlock()
	defer func() {
		w.space.mu.Lock()
		defer w.space.mu.Unlock()
		w.space.seen = nil
	}()
	return w.Impl.Iterate(m)
}

func TestC26(t *testing.T) {
	c := newCheck(t, "C26", "k-means and MCMC with one centroid in a space of bags (the centroid tells exactly which elements an iteration used): frames, initial data, 1..3 concurrent pushers and a controller, refusals, random lock delays; every iteration's data, the elements that reach the implementation and the figures are checked against the accepted pushes; sequential and concurrent histories over a scripted implementation; non-trivial: an element pushed during a run")
	c.Sub("many pushes", 80, func(c *Case) { longPushes(c, t) })
	c.Sub("delivery", 10000, func(c *Case) {
		useMCMC, par := rapid.Bool().Draw(c.T, "mcmc"), rapid.Bool().Draw(c.T, "par")
		cpu := rapid.IntRange(1, 9).Draw(c.T, "cpu")
		n0 := rapid.IntRange(1, 6).Draw(c.T, "n0")
		frame := max(0, rapid.IntRange(-6, 8).Draw(c.T, "frame"))
		var ctrl core.CtrlConf
		if rapid.IntRange(0, 3).Draw(c.T, "limited") == 3 {
			ctrl.Iter = rapid.IntRange(1, 6).Draw(c.T, "iter")
		}
		if rapid.IntRange(0, 3).Draw(c.T, "perdata") == 3 {
			ctrl.IterPerData = rapid.IntRange(1, 2).Draw(c.T, "ipd")
		}
		if rapid.IntRange(0, 3).Draw(c.T, "autoplay") == 3 {
			ctrl.DataPerIter = rapid.IntRange(1, 3).Draw(c.T, "dpi")
		}
		pseed := max(0, rapid.IntRange(-500, 500).Draw(c.T, "perturbation"))
		mod := max(0, rapid.IntRange(-6, 5).Draw(c.T, "refusals"))
		var cl [][]cop
		for i := rapid.IntRange(1, 3).Draw(c.T, "pushers"); i > 0; i-- {
			cl = append(cl, drawClient(c.T, []string{"push"}, 0, 12))
		}
		pushers := len(cl)
		kinds := []string{"play", "play", "play", "pause", "sleep", "sleep"}
		if rapid.Bool().Draw(c.T, "stops") {
			kinds = append(kinds, "stop", "init")
		}
		cl = append(cl, drawClient(c.T, kinds, 0, 10))
		if rapid.IntRange(0, 3).Draw(c.T, "first") > 0 {
			cl[pushers] = append([]cop{{"play", 0}}, cl[pushers]...)
		}
		c.Data("mcmc %v par %v cpu %d initially %d frame %d iter %d perData %d dataPer %d perturbation %d refusals %d clients %v", useMCMC, par, cpu, n0, frame, ctrl.Iter, ctrl.IterPerData, ctrl.DataPerIter, pseed, mod, cl)
		c.bubble(t, func() string {
			defer perturb(pseed)()
			space := newBagSpace()
			sq := &seqr{}
			recs := map[int]pushRec{}
			var initial []core.Elemt
			next := 0
			for ; next < n0; next++ {
				initial = append(initial, bag(next))
				recs[next] = pushRec{id: next, client: -1, begin: next - 100, end: next - 100, ok: true}
			}
			var sp *spy
			algo := bagAlgo(useMCMC, par, cpu, frame, ctrl, space, initial, func(i core.Impl) core.Impl {
				sp = &spy{Impl: i, seq: sq, sleep: time.Millisecond, refuse: func(n int) bool { return mod > 0 && n%6 == mod }}
				return sp
			})
			var mu = &sp.mu
			finalPush := func(client int) {
				mu.Lock()
				r := pushRec{id: next, client: client}
				next++
				mu.Unlock()
				r.begin = sq.tick()
				r.err = algo.Push(bag(r.id))
				r.ok = r.err == nil
				r.end = sq.tick()
				mu.Lock()
				recs[r.id] = r
				mu.Unlock()
			}
			reinits := [][2]int{}
			if m := clients(len(cl), func(i int) {
				for _, o := range cl[i] {
					time.Sleep(time.Duration(o.sleep) * 100 * time.Microsecond)
					switch o.kind {
					case "push":
						finalPush(i)
					case "play", "init":
						b := sq.tick()
						before := len(sp.inits)
						if o.kind == "play" {
							algo.Play()
						} else {
							algo.Init()
						}
						if len(sp.inits) > before {
							reinits = append(reinits, [2]int{b, sq.tick()})
						}
					case "pause":
						algo.Pause()
					case "stop":
						algo.Stop()
					}
				}
			}); m != "" {
				return m
			}
			synctest.Wait()
			// counted exactly once
			from, until := -1000, -1000
			if len(reinits) > 1 { // the first is not a re-initialisation
				from, until = reinits[len(reinits)-1][0], reinits[len(reinits)-1][1]
			}
			lo, hi := 0, 0
			for id, r := range recs {
				if id >= n0 && r.ok {
					if r.begin > until {
						lo++
					}
					if r.end > from {
						hi++
					}
				}
				if id >= n0 && !r.ok && r.err != errPush {
					return fmt.Sprintf("push %d returns %v", id, r.err)
				}
			}
			if f := algo.RuntimeFigures()[core.PushedData]; f < float64(lo) || f > float64(hi) {
				return fmt.Sprintf("%v pushed data counted, %d to %d accepted", f, lo, hi)
			}
			reached := map[int]int{}
			for _, id := range sp.pushes {
				reached[id]++
			}
			for id := n0; id < next; id++ {
				if reached[id] != 1 {
					return fmt.Sprintf("element %d reaches the implementation %d times", id, reached[id])
				}
			}
			// two more iterations, with what is pushed before a run
			if !within(wedged, func() { algo.Stop() }) {
				return "Stop does not return"
			}
			live := len(sp.iters)
			finalPush(pushers)
			algo.Conf().Ctrl().Iter = 3
			if !within(wedged, func() {
				algo.Play()
				time.Sleep(200 * time.Millisecond)
				algo.Stop()
			}) {
				return "the last run does not end"
			}
			time.Sleep(time.Second)
			// what the iterations used
			starts := map[int]int{}
			ends := map[int]int{}
			byClient := map[int][]int{}
			for id := 0; id < next; id++ {
				if r := recs[id]; r.ok {
					byClient[r.client] = append(byClient[r.client], id)
				}
			}
			for j, it := range sp.iters {
				desc := fmt.Sprintf("iteration %d", j)
				if it.err != nil || len(it.clust) != 1 {
					return fmt.Sprintf("%s: %v, centroids %v", desc, it.err, it.clust)
				}
				used := map[int]bool{}
				for _, x := range clustIDs(it.clust) {
					if used[x] {
						return fmt.Sprintf("%s uses element %d twice: %v", desc, x, clustIDs(it.clust))
					}
					if r, ok := recs[x]; !ok || !r.ok || r.begin > it.end {
						return fmt.Sprintf("%s uses element %d, accepted %v, pushed at %d, over at %d", desc, x, ok && r.ok, r.begin, it.end)
					}
					used[x] = true
				}
				total := 0
				for cl := -1; cl <= pushers; cl++ {
					l := byClient[cl]
					a, b := -1, 0 // used range
					for i, x := range l {
						if used[x] {
							if a < 0 {
								a = i
							} else if b != i {
								return fmt.Sprintf("%s uses elements %v, of which those of client %d, %v, are not contiguous", desc, clustIDs(it.clust), cl, l)
							}
							b = i + 1
						}
					}
					must := 0 // accepted before the previous iteration began
					for i, x := range l {
						if cl < 0 || j > 0 && recs[x].end < sp.iters[j-1].begin {
							must = i + 1
						}
					}
					must = max(must, ends[cl])
					switch {
					case a < 0: // none used: all older than the frame, or not yet delivered
						if must > starts[cl] && frame == 0 {
							return fmt.Sprintf("%s uses elements %v, without those of client %d: %v were accepted before", desc, clustIDs(it.clust), cl, l[:must])
						}
						starts[cl], ends[cl] = must, must
					case b < must:
						return fmt.Sprintf("%s uses elements %v, without those of client %d: %v were accepted before", desc, clustIDs(it.clust), cl, l[:must])
					case a < starts[cl]:
						return fmt.Sprintf("%s uses elements %v, those of client %d were forgotten until %d of %v", desc, clustIDs(it.clust), cl, starts[cl], l)
					default:
						if a > 0 && frame == 0 {
							return fmt.Sprintf("%s uses elements %v, without %v of client %d", desc, clustIDs(it.clust), l[:a], cl)
						}
						starts[cl], ends[cl] = a, b
					}
					total += ends[cl]
				}
				want := total
				if frame > 0 {
					want = min(frame, total)
				}
				if frame == 0 && len(used) != want || frame > 0 && (len(used) > frame || len(used) < want) {
					return fmt.Sprintf("%s uses %d elements %v, frame %d, at least %d delivered", desc, len(used), clustIDs(it.clust), frame, total)
				}
				// the window is the last ones: an element pushed after a used one is used too
				for x, r := range recs {
					if r.ok && !used[x] && j > 0 && r.end < sp.iters[j-1].begin {
						for y := range used {
							if recs[y].end < r.begin {
								return fmt.Sprintf("%s uses elements %v, with %d but without %d pushed after it", desc, clustIDs(it.clust), y, x)
							}
						}
					}
				}
			}
			if n := len(sp.iters); n > 1 {
				used := clustIDs(sp.iters[n-1].clust)
				has := false
				for _, x := range used {
					has = has || x == next-1
				}
				if recs[next-1].ok && !has {
					return fmt.Sprintf("the last run uses %v, without the last element %d", used, next-1)
				}
			}
			during := false
			for id, r := range recs {
				for j, it := range sp.iters {
					if id >= n0 && j < live && r.begin < it.end && r.end > it.begin {
						during = true
					}
				}
			}
			c.Class(pushers > 1, "concurrent pushers")
			c.Class(frame > 0, "frame")
			c.Class(mod > 0, "refusals")
			c.Nontrivial(during)
			return ""
		})
	})
	c.Sub("any chain", 5000, func(c *Case) {
		kind := rapid.IntRange(0, 3).Draw(c.T, "algo") // 0: kmeans
		par := rapid.Bool().Draw(c.T, "par")
		cpu := rapid.IntRange(1, 6).Draw(c.T, "cpu")
		k := rapid.IntRange(1, 4).Draw(c.T, "k")
		mc := mcmc.Conf{InitK: k, MaxK: k + rapid.IntRange(0, 3).Draw(c.T, "more"), Par: par, NumCPU: cpu,
			B:      rapid.SampledFrom([]float64{0, 1e-12, 1e-3, 0.5, 3, 1e9}).Draw(c.T, "B"),
			Amp:    rapid.SampledFrom([]float64{0, 1e-9, 0.01, 1, 100, 1e8}).Draw(c.T, "amp"),
			ProbaK: rapid.SampledFrom([][]float64{nil, {0, 1, 0}, {1, 0, 0}, {0, 0, 1}, {1, 1, 1}, {3, 1, 5}}).Draw(c.T, "probaK"),
		}
		n0 := k + rapid.IntRange(0, 4).Draw(c.T, "n0")
		frame := max(0, rapid.IntRange(-6, 12).Draw(c.T, "frame"))
		seed := rapid.IntRange(0, 1<<20).Draw(c.T, "seed")
		pseed := max(0, rapid.IntRange(-500, 500).Draw(c.T, "perturbation"))
		var ctrl core.CtrlConf
		ctrl.Iter = rapid.IntRange(1, 8).Draw(c.T, "iter")
		ctrl.IterPerData = rapid.IntRange(0, 2).Draw(c.T, "ipd")
		mod := max(0, rapid.IntRange(-6, 5).Draw(c.T, "refusals"))
		cl := [][]cop{drawClient(c.T, []string{"push", "push", "push", "sleep"}, 0, 12), drawClient(c.T, []string{"play", "play", "play", "pause", "stop", "sleep"}, 1, 8)}
		c.Data("kmeans %v %+v cpu %d initially %d frame %d %+v perturbation %d refusals %d clients %v", kind == 0, mc, cpu, n0, frame, ctrl, pseed, mod, cl)
		c.bubble(t, func() string {
			defer perturb(pseed)()
			space := &watchSpace{bagSpace: newBagSpace()}
			sq := &seqr{}
			recs := make([]pushRec, n0)
			var initial []core.Elemt
			for i := range recs {
				initial = append(initial, bag(i))
				recs[i] = pushRec{id: i, begin: -1, end: -1, ok: true}
			}
			gen := rand.New(rand.NewSource(uint64(seed)))
			var inner *core.Algo
			if kind == 0 {
				inner = kmeans.NewAlgo(kmeans.Conf{CtrlConf: ctrl, K: k, FrameSize: frame, Par: par, NumCPU: cpu, RGen: gen}, space, initial, kmeans.GivenInitializer)
			} else {
				mc.CtrlConf, mc.FrameSize, mc.RGen = ctrl, frame, gen
				inner = mcmc.NewAlgo(mc, space, initial, kmeans.GivenInitializer, mcmc.NewDirac())
			}
			w := &watcher{Impl: inner.Impl(), space: space}
			sp := &spy{Impl: w, seq: sq, sleep: time.Millisecond, refuse: func(n int) bool { return mod > 0 && n%6 == mod }}
			algo := core.NewAlgo(inner.Conf(), sp, space)
			push := func() {
				r := pushRec{id: len(recs), begin: sq.tick()}
				r.err = algo.Push(bag(r.id))
				r.ok, r.end = r.err == nil, sq.tick()
				recs = append(recs, r)
			}
			if m := clients(2, func(i int) {
				for _, o := range cl[i] {
					time.Sleep(time.Duration(o.sleep) * 100 * time.Microsecond)
					switch o.kind {
					case "push":
						push()
					case "play":
						algo.Play()
					case "pause":
						algo.Pause()
					case "stop":
						algo.Stop()
					}
				}
			}); m != "" {
				return m
			}
			if !within(wedged, func() {
				algo.Stop()
				push()
				algo.Conf().Ctrl().Iter = 4
				algo.Play()
				time.Sleep(200 * time.Millisecond)
				algo.Stop()
			}) {
				return "the last run does not end"
			}
			time.Sleep(time.Second)
			rejected := false
			for j, it := range sp.iters {
				if it.err != nil {
					return fmt.Sprintf("iteration %d: %v", j, it.err)
				}
				rejected = rejected || j > 0 && sameAll(it.clust, sp.iters[j-1].clust)
				used := w.used[j]
				for _, r := range recs {
					if used[r.id] && (!r.ok || r.begin > it.end) {
						return fmt.Sprintf("iteration %d uses element %d, accepted %v, pushed at %d, over at %d", j, r.id, r.ok, r.begin, it.end)
					}
					if used[r.id] || !r.ok || r.id >= n0 && (j == 0 || r.end > sp.iters[j-1].begin) {
						continue
					}
					after := 0 // elements that may have taken its place in the frame
					for _, o := range recs {
						if o.ok && o.id > r.id && o.begin < it.end {
							after++
						}
					}
					if frame == 0 || after < frame {
						return fmt.Sprintf("iteration %d uses elements %v without %d, accepted at %d, the previous one began at %d", j, used, r.id, r.end, sp.iters[max(0, j-1)].begin)
					}
				}
			}
			c.Class(rejected, "same centroids")
			c.Class(kind == 0, "kmeans")
			c.Nontrivial(len(recs) > n0+1 && len(sp.iters) > 3)
			return ""
		})
	})
	worldSub(c, t, "sequential", 4000, wbias{push: true, restart: true}, func(w *world) bool { return len(w.pushes) > 1 && len(w.iters) > 1 })
	concSub(c, t, 2000)
	crowdRuns(c, t, 2000)
}

// ---- provided algorithms in any configuration ----

// shiftDistrib is a deterministic user-defined distribution: its samples depend on the position only
type shiftDistrib struct{ scale float64 }

func hash01(x float64, salt uint64) float64 {
	h := math.Float64bits(x)*0x9E3779B97F4A7C15 + salt
	h ^= h >> 29
	h *= 0xBF58476D1CE4E5B9
	h ^= h >> 32
	return float64(h>>11) / (1 << 53)
}

func (d shiftDistrib) Sample(mu core.Elemt, time int) core.Elemt {
	v := append([]float64{}, mu.([]float64)...)
	for i := range v {
		v[i] += d.scale * (2*hash01(v[i], uint64(time*31+i)) - 1)
	}
	return v
}

func (d shiftDistrib) Pdf(x, mu core.Elemt, time int) float64 {
	p := 0.
	for _, v := range x.([]float64) {
		p += math.Cos(v + float64(time))
	}
	return p
}

// real is a generated provided algorithm on vectors
type real struct {
	kind    int // 0 k-means, 1 MCMC, 2 streaming
	par     bool
	cpu     int
	frame   int
	k, maxk int
	iter    int
	proba   []float64
	amp     float64
	buffer  int
	init    string
	cos     bool
	seed    int
	outs    int
	mu      float64 // of the threshold of streaming
}

var kindNames = []string{"k-means", "mcmc", "streaming"}

func (r real) String() string {
	return fmt.Sprintf("%s par %v cpu %d frame %d k %d maxK %d iter %d probaK %v amp %v buffer %d initializer %s cosine %v seed %d outAfter %d mu %v", kindNames[r.kind], r.par, r.cpu, r.frame, r.k, r.maxk, r.iter, r.proba, r.amp, r.buffer, r.init, r.cos, r.seed, r.outs, r.mu)
}

func drawReal(t *rapid.T, kind, held int) (r real) {
	r.kind = kind
	r.par = rapid.Bool().Draw(t, "par")
	r.cpu = rapid.IntRange(1, 10).Draw(t, "cpu")
	r.frame = max(0, rapid.IntRange(-5, 8).Draw(t, "frame"))
	all := held
	if r.frame > 0 {
		if held > 30 && rapid.Bool().Draw(t, "large frame") {
			r.frame = rapid.IntRange(10, 2*held).Draw(t, "frame size")
		}
		held = min(held, r.frame)
	}
	r.k = rapid.IntRange(1, min(4, held)).Draw(t, "k")
	r.maxk = rapid.IntRange(r.k, 6).Draw(t, "maxk")
	r.iter = rapid.IntRange(1, 8).Draw(t, "iter")
	r.proba = [][]float64{nil, {1, 1, 1}, {0, 1, 0}, {2, 0, 3}}[rapid.IntRange(0, 3).Draw(t, "proba")]
	r.amp = []float64{0, 0.001, 0.1, 1}[rapid.IntRange(0, 3).Draw(t, "amp")]
	r.buffer = rapid.IntRange(30, 60).Draw(t, "buffer")
	if all > 30 {
		r.buffer += all
	}
	r.init = []string{"given", "rand", "pp"}[rapid.IntRange(0, 2).Draw(t, "init")]
	r.cos = rapid.IntRange(0, 3).Draw(t, "cos") == 3
	r.seed = rapid.IntRange(1, 1<<30).Draw(t, "seed")
	r.outs = rapid.IntRange(2, 6).Draw(t, "outafter")
	if kind == 2 {
		r.mu = rapid.SampledFrom([]float64{0, 0, 0.01, -5}).Draw(t, "mu") // most elements become centers, or all
	}
	return
}

func (r real) space() core.Space {
	if r.cos {
		return cosinus.NewSpace()
	}
	return euclid.NewSpace()
}

func (r real) conf(seed int) core.Conf {
	gen := rand.New(rand.NewSource(uint64(seed)))
	ctrl := core.CtrlConf{Iter: r.iter}
	switch r.kind {
	case 0:
		return &kmeans.Conf{CtrlConf: ctrl, K: r.k, Par: r.par, NumCPU: r.cpu, FrameSize: r.frame, RGen: gen}
	case 1:
		return &mcmc.Conf{CtrlConf: ctrl, InitK: r.k, MaxK: r.maxk, Par: r.par, NumCPU: r.cpu, FrameSize: r.frame, ProbaK: append([]float64(nil), r.proba...), Amp: r.amp, RGen: gen}
	default:
		return &streaming.Conf{CtrlConf: ctrl, BufferSize: r.buffer, OutAfter: r.outs, Mu: r.mu, RGen: gen}
	}
}

func (r real) build(conf core.Conf, data []core.Elemt) *core.Algo {
	return r.buildIn(r.space(), conf, data)
}

func (r real) buildIn(space core.Space, conf core.Conf, data []core.Elemt) *core.Algo {
	init := kmeans.CreateInitializer(r.init)
	switch r.kind {
	case 0:
		return kmeans.NewAlgo(*conf.(*kmeans.Conf), space, data, init)
	case 1:
		return mcmc.NewAlgo(*conf.(*mcmc.Conf), space, data, init, shiftDistrib{0.3})
	default:
		return streaming.NewAlgo(*conf.(*streaming.Conf), space, data)
	}
}

// slow makes the iterations of an algorithm take time
func slow(a *core.Algo) (*core.Algo, *spy) {
	sp := &spy{Impl: a.Impl(), seq: &seqr{}, sleep: time.Millisecond}
	return core.NewAlgo(a.Conf(), sp, a.Space()), sp
}

func drawPoints(t *rapid.T, lo, hi int) []core.Elemt {
	dim := rapid.IntRange(1, 3).Draw(t, "dim")
	kind := rapid.IntRange(0, 2).Draw(t, "kind")
	n := rapid.IntRange(lo, hi).Draw(t, "npoints")
	draw := func() []float64 { return vector(t, dim, kind, "x") }
	if hi > 10 && rarely(t, 6) { // many of them
		n = hi + rapid.IntRange(1, 20).Draw(t, "dozens")*17
		draw = seededVectors(t, dim, kind)
	}
	l := make([]core.Elemt, n)
	for i := range l {
		v := draw()
		v[0] = math.Abs(v[0]) + 0.5 // fit for cosine averages
		l[i] = v
	}
	return l
}

func TestC29(t *testing.T) {
	c := newCheck(t, "C29", "random histories (play, pause, stop, push, read) of k-means, MCMC and streaming; everything obtained is compared with a copy made when it was obtained, and what is published with the output of the last counted iteration; sequential histories over a scripted implementation, which may return always the same figures map; non-trivial: centroids changed between two reads")
	c.Sub("old snapshots", 150, func(c *Case) { longSnapshots(c, t) })
	c.Sub("provided algorithms", 15000, func(c *Case) {
		es := drawPoints(c.T, 2, 20)
		n0 := rapid.IntRange(2, len(es)).Draw(c.T, "n0")
		r := drawReal(c.T, rapid.IntRange(0, 2).Draw(c.T, "algorithm"), n0)
		if rapid.Bool().Draw(c.T, "infinite") {
			r.iter = 0
		}
		ops := drawClient(c.T, []string{"play", "play", "pause", "stop", "push", "push", "push", "read", "read", "copy"}, 1, 20)
		c.Data("%v; elements %s initially %d; %v", r, show(es), n0, ops)
		c.bubble(t, func() string {
			algo, sp := slow(r.build(r.conf(r.seed), es[:n0]))
			defer func() { time.Sleep(time.Second) }()
			next := n0
			var snaps []snap
			moved := false
			var last core.Clust
			look := func(what string, settled bool) string {
				s := snap{what: what, clust: algo.Centroids(), figs: algo.RuntimeFigures()}
				s.clust0 = core.Clust(deepCopies(s.clust))
				if len(snaps)%2 == 0 {
					s.figs["intruder"] = 1
					s.figs[core.Iterations] += 1000
				}
				s.figs0 = copyFigs(s.figs)
				snaps = append(snaps, s)
				if !settled {
					return ""
				}
				moved = moved || last != nil && !sameAll(last, s.clust)
				last = s.clust0
				want := core.Clust(nil)
				var figs core.RuntimeFigures
				begin := -1
				if n := len(sp.inits); n > 0 {
					want, begin = sp.inits[n-1].clust, sp.inits[n-1].begin
				}
				count := 0
				for _, it := range sp.iters {
					if it.begin > begin && it.err == nil && it.clust != nil {
						want, figs = it.clust, it.figs
						count++
					}
				}
				if !sameAll(s.clust0, want) {
					return fmt.Sprintf("%s: centroids %s, the last output is %s", what, show(s.clust0), show(want))
				}
				f := algo.RuntimeFigures()
				if len(sp.inits) > 0 && f[core.Iterations] != float64(count) {
					return fmt.Sprintf("%s: %v iterations counted, want %d", what, f[core.Iterations], count)
				}
				for k, v := range figs {
					if f[k] != v && !(math.IsNaN(v) && math.IsNaN(f[k])) {
						return fmt.Sprintf("%s: figure %s is %v, the last output is %v", what, k, f[k], v)
					}
				}
				if _, ok := f["intruder"]; ok {
					return what + ": the figures hold what a caller put in an obtained map"
				}
				return ""
			}
			for i, o := range ops {
				time.Sleep(time.Duration(o.sleep)*100*time.Microsecond + 50<<i)
				what := fmt.Sprintf("operation %d (%s)", i, o.kind)
				if !within(wedged, func() {
					switch o.kind {
					case "play":
						algo.Play()
					case "pause":
						algo.Pause()
					case "stop":
						algo.Stop()
					case "push":
						if next < len(es) {
							algo.Push(es[next])
							next++
						}
					case "copy":
						if cp, err := algo.Copy(r.conf(r.seed+1), r.space()); err == nil {
							if r.kind < 2 && r.iter > 0 {
								cp.Batch()
							} else {
								cp.Init()
								cp.Push(deepCopy(es[0]))
							}
						}
					}
				}) {
					return what + " does not return"
				}
				synctest.Wait()
				if m := look(what, true); m != "" {
					algo.Stop()
					return m
				}
				look(what, false)
			}
			if !within(wedged, func() { algo.Stop() }) {
				return "Stop does not return"
			}
			for _, s := range snaps {
				if !sameAll(s.clust, s.clust0) {
					return fmt.Sprintf("centroids obtained after %s change from %s to %s", s.what, show(s.clust0), show(s.clust))
				}
				if !sameFigs(s.figs, s.figs0) {
					return fmt.Sprintf("figures obtained after %s change from %v to %v", s.what, s.figs0, s.figs)
				}
			}
			c.Class(true, kindNames[r.kind])
			c.Nontrivial(moved)
			return ""
		})
	})
	worldSub(c, t, "scripted", 6000, wbias{push: true, restart: true, faults: true}, func(w *world) bool { return len(w.iters) > 2 })
}

// subject is an algorithm with a model of the data it holds
type subject struct {
	r     real
	algo  *core.Algo
	sp    *spy
	win   *windowModel // ranks in all
	all   []core.Elemt
	queue []int // streaming
}

func newSubject(r real, conf core.Conf, es []core.Elemt, n0 int) *subject {
	s := &subject{r: r, all: es, win: &windowModel{}}
	if r.kind < 2 {
		s.win.size = r.frame
	}
	inner := r.build(conf, es[:n0:n0])
	for i := 0; i < n0; i++ {
		s.win.add(i)
		s.queue = append(s.queue, i)
	}
	s.algo, s.sp = slow(inner)
	s.sp.Impl = &applied{Impl: s.sp.Impl, s: s}
	return s
}

// applied follows what the implementation holds
type applied struct {
	core.Impl
	s *subject
}

func (a *applied) Init(m core.OCModel) (core.Clust, error) {
	cl, err := a.Impl.Init(m)
	a.s.win.apply()
	if err == nil && len(a.s.queue) > 0 {
		a.s.queue = a.s.queue[1:]
	}
	return cl, err
}

func (a *applied) Iterate(m core.OCModel) (core.Clust, core.RuntimeFigures, error) {
	cl, f, err := a.Impl.Iterate(m)
	a.s.win.apply()
	if cl != nil && len(a.s.queue) > 0 {
		a.s.queue = a.s.queue[1:]
	}
	return cl, f, err
}

// push pushes an element, at an instant at which nothing else happens
func (s *subject) push(i int) {
	alive := s.algo.Status().Alive()
	if s.algo.Push(s.all[i]) == nil {
		s.win.push(i, alive)
		s.queue = append(s.queue, i)
	}
}

func (s *subject) do(kind string, next *int) {
	switch kind {
	case "init":
		s.algo.Init()
	case "play":
		s.algo.Play()
	case "pause":
		s.algo.Pause()
	case "stop":
		s.algo.Stop()
	case "push":
		if *next < len(s.all) {
			s.push(*next)
			*next++
		}
	}
}

type look struct {
	st    core.OCStatus
	clust core.Clust
	figs  core.RuntimeFigures
}

func lookAt(a core.OnlineClust) look {
	l := look{a.Status(), core.Clust(deepCopies(a.Centroids())), a.RuntimeFigures()}
	delete(l.figs, core.LastDataTime)
	l.figs[core.Iterations] += 0 // zero when absent
	l.figs[core.PushedData] += 0
	return l
}

func (l look) String() string {
	return fmt.Sprintf("%s, centroids %s, figures %v", showStatus(l.st), show(l.clust), l.figs)
}

func (l look) same(o look) bool {
	return sameStatus(l.st, o.st) && sameAll(l.clust, o.clust) && sameFigs(l.figs, o.figs)
}

func TestC30(t *testing.T) {
	c := newCheck(t, "C30", "k-means, MCMC and streaming algorithms after a random history are copied with another random configuration and space; the copy and an algorithm freshly built on the modelled data undergo the same operations and must show the same status, centroids and figures; the original is compared with a twin that was never copied; invalid configurations; non-trivial: the original had run and the copy runs")
	c.Sub("copies", 7000, func(c *Case) {
		es := drawPoints(c.T, 2, 22)
		n0 := rapid.IntRange(2, len(es)).Draw(c.T, "n0")
		kind := rapid.IntRange(0, 2).Draw(c.T, "algorithm")
		r, r2 := drawReal(c.T, kind, n0), drawReal(c.T, kind, n0)
		if rapid.Bool().Draw(c.T, "infinite") {
			r.iter = 0
		}
		r2.init = r.init // initialisers are not configuration
		if kind == 2 {
			r2.iter = 0
		}
		kinds := []string{"play", "play", "pause", "stop", "push", "push", "init"}
		pre := drawClient(c.T, kinds, 0, 10)
		if rapid.IntRange(0, 3).Draw(c.T, "run first") > 0 {
			pre = append([]cop{{"play", 0}, {"sleep", 30}}, pre...)
		}
		if kind == 2 && r.mu < 0 && rapid.Bool().Draw(c.T, "consumed first") {
			r.iter = 0
			pre = append([]cop{{"play", 0}, {"read", 11 * n0}}, pre...)
		}
		auto := [2]int{max(0, rapid.IntRange(-3, 4).Draw(c.T, "dataPerIter")), max(0, rapid.IntRange(-3, 4).Draw(c.T, "dataPerIter2"))}
		perData := [2]int{max(0, rapid.IntRange(-3, 2).Draw(c.T, "iterPerData")), max(0, rapid.IntRange(-3, 2).Draw(c.T, "iterPerData2"))}
		if kind == 2 {
			perData[1] = 0
		}
		onOrig := drawClient(c.T, kinds, 0, 6)
		onCopy := drawClient(c.T, []string{"batch", "batch", "init", "push", "push", "play", "stop"}, 1, 8)
		c.Data("%v; copy %v; elements %s initially %d; data per iter %v iter per data %v; before %v; copy %v original %v", r, r2, show(es), n0, auto, perData, pre, onCopy, onOrig)
		var spent []time.Duration
		scenario := func(copying bool) (res []look, msg string) {
			conf0 := r.conf(r.seed)
			conf0.Ctrl().DataPerIter, conf0.Ctrl().IterPerData = auto[0], perData[0]
			s := newSubject(r, conf0, es, n0)
			next := n0
			at := 0
			step := func(o cop) bool {
				time.Sleep(time.Duration(o.sleep)*100*time.Microsecond + 50<<at)
				at++
				ok := within(wedged, func() { s.do(o.kind, &next) })
				synctest.Wait()
				return ok
			}
			for _, o := range pre {
				if !step(o) {
					return nil, o.kind + " does not return"
				}
			}
			res = append(res, lookAt(s.algo))
			data := pick(es, s.win.visible)
			if kind == 2 {
				data = s.algo.Centroids()
				if data == nil && len(s.sp.inits) > 0 {
					// its last initialisation failed: what it holds is not specified
					s.algo.Stop()
					return nil, ""
				}
			}
			data = deepCopies(data)
			var cp, fresh core.OnlineClust
			free := next
			if copying {
				conf, conf2 := r2.conf(r2.seed), r2.conf(r2.seed)
				for _, cf := range []core.Conf{conf, conf2} {
					cf.Ctrl().DataPerIter, cf.Ctrl().IterPerData = auto[1], perData[1]
				}
				if kind == 2 {
					conf.Ctrl().IterFreq, conf2.Ctrl().IterFreq = 500, 500
				}
				var err error
				cp, err = s.algo.Copy(conf, r2.space())
				if err != nil {
					return nil, fmt.Sprint("Copy: ", err)
				}
				if cp == core.OnlineClust(s.algo) {
					return nil, "Copy returns the original"
				}
				if cp.Conf() != conf || cp.Space() != r2.space() {
					return nil, "the copy does not have the given configuration and space"
				}
				if st := cp.Status(); !sameStatus(st, core.NewOCStatus(core.Created)) {
					return nil, "the copy is " + showStatus(st)
				}
				fresh = r2.build(conf2, data)
				if a, b := lookAt(cp), lookAt(fresh); !a.same(b) {
					return nil, fmt.Sprintf("the copy shows %v, an algorithm just built %v", a, b)
				}
			}
			for i := 0; i < max(len(onCopy), len(onOrig)); i++ {
				if i < len(onCopy) {
					o := onCopy[i]
					began := time.Now()
					var a, b look
					each := func(oc core.OnlineClust) string {
						var err error
						if !within(wedged, func() {
							switch o.kind {
							case "batch":
								if kind == 2 {
									err = oc.Play()
									time.Sleep(20333 * time.Microsecond)
									if e := oc.Stop(); err == nil {
										err = e
									}
								} else {
									err = oc.Batch()
								}
							case "init":
								err = oc.Init()
							case "play":
								err = oc.Play()
							case "stop":
								err = oc.Stop()
							case "push":
								err = oc.Push(deepCopy(es[free%len(es)]))
							}
						}) {
							return o.kind + " does not return"
						}
						return fmt.Sprint(err)
					}
					if copying {
						// at the same instants
						var ea, eb string
						done := make(chan bool)
						go func() {
							eb = each(fresh)
							close(done)
						}()
						ea = each(cp)
						<-done
						synctest.Wait()
						a, b = lookAt(cp), lookAt(fresh)
						if o.kind == "push" {
							free++
						}
						delete(a.figs, core.Duration)
						delete(b.figs, core.Duration)
						if ea != eb || !a.same(b) {
							res = nil
							msg = fmt.Sprintf("operation %d (%s) on the copy: %s, %v; on an algorithm built with the same data %s: %s, %v", i, o.kind, ea, a, show(data), eb, b)
							break
						}
						spent = append(spent, time.Since(began))
					} else { // the same time goes by
						time.Sleep(spent[i])
						synctest.Wait()
					}
				}
				if i < len(onOrig) {
					if !step(onOrig[i]) {
						return nil, onOrig[i].kind + " does not return"
					}
					res = append(res, lookAt(s.algo))
				}
			}
			for _, oc := range []core.OnlineClust{s.algo, cp, fresh} {
				if oc != nil && !within(wedged, func() { oc.Stop() }) {
					return nil, "Stop does not return"
				}
			}
			time.Sleep(time.Second)
			c.Class(copying, "copied "+res0(res)+" "+kindNames[kind])
			return
		}
		c.bubble(t, func() string {
			with, m := scenario(true)
			if m != "" {
				return m
			}
			without, m := scenario(false)
			if m != "" {
				return m
			}
			if with == nil {
				return ""
			}
			for i := range with {
				if !with[i].same(without[i]) {
					return fmt.Sprintf("observation %d of the original: %v, without any copy: %v", i, with[i], without[i])
				}
			}
			ran := with[0].figs[core.Iterations] > 0
			for _, o := range onCopy {
				if o.kind == "batch" || o.kind == "play" {
					c.Nontrivial(ran)
				}
			}
			return ""
		})
	})
	c.Sub("invalid", 6000, func(c *Case) {
		es := drawPoints(c.T, 2, 12)
		kind := rapid.IntRange(0, 2).Draw(c.T, "algorithm")
		r := drawReal(c.T, kind, len(es))
		r.iter = rapid.IntRange(1, len(es)-1).Draw(c.T, "iter2") // streaming consumes them
		r.init = "given"
		conf := r.conf(r.seed + 1)
		bad := rapid.IntRange(0, 5+kind/2).Draw(c.T, "bad")
		switch bad {
		case 6: // a queue that cannot hold the centers
			r.mu = -5
		case 0:
			conf.Ctrl().Iter = -1
		case 1:
			conf.Ctrl().IterPerData = -2
		case 2:
			conf.Ctrl().DataPerIter = -1
		case 3:
			conf.Ctrl().IterFreq = -0.5
		case 4:
			conf.Ctrl().Timeout = -1
		default:
			switch cf := conf.(type) {
			case *kmeans.Conf:
				cf.K = -rapid.IntRange(0, 3).Draw(c.T, "k")
			case *mcmc.Conf:
				if rapid.Bool().Draw(c.T, "zero") {
					cf.InitK = 0
				} else {
					cf.InitK = cf.MaxK + 1
				}
			case *streaming.Conf:
				cf.OutAfter = 1
			}
		}
		run := rapid.Bool().Draw(c.T, "run") || bad == 6
		c.Data("%v; elements %s; bad %d (%+v) run %v", r, show(es), bad, *conf.Ctrl(), run)
		c.bubble(t, func() string {
			algo := r.build(r.conf(r.seed), es)
			if run {
				if err := algo.Batch(); err != nil {
					return fmt.Sprint("Batch: ", err)
				}
			}
			before := lookAt(algo)
			if bad == 6 {
				if len(before.clust) < 2 {
					return ""
				}
				conf.(*streaming.Conf).BufferSize = len(before.clust) - 1
			}
			var oc core.OnlineClust
			var err error
			if !within(wedged, func() { oc, err = algo.Copy(conf, r.space()) }) {
				return "Copy does not return"
			}
			if err == nil {
				return "no error"
			}
			if oc != nil {
				return fmt.Sprintf("error %v with a copy", err)
			}
			if after := lookAt(algo); !before.same(after) {
				return fmt.Sprintf("the original was %v, is %v", before, after)
			}
			return ""
		})
		c.Nontrivial(true)
	})
}

func res0(l []look) string {
	if len(l) == 0 {
		return ""
	}
	return l[0].st.Value.String()
}

func TestC35(t *testing.T) {
	c := newCheck(t, "C35", "k-means, MCMC and streaming: a random history, ended by a stop, an error of an iteration, a panic or a timeout, then a restart with a reseeded generator is compared iteration by iteration with an algorithm freshly built on the data held; sequential histories over a scripted implementation; non-trivial: at least one iteration before and after the restart")
	c.Sub("many sessions", 300, func(c *Case) { longSessions(c, t) })
	c.Sub("restarts", 15000, func(c *Case) {
		es := drawPoints(c.T, 2, 22)
		n0 := rapid.IntRange(2, len(es)).Draw(c.T, "n0")
		r := drawReal(c.T, rapid.IntRange(0, 2).Draw(c.T, "algorithm"), n0)
		end := rapid.IntRange(0, 3).Draw(c.T, "end")
		at := rapid.IntRange(0, 4).Draw(c.T, "failing")
		how := rapid.IntRange(0, 2).Draw(c.T, "restart")
		ops := drawClient(c.T, []string{"play", "play", "pause", "stop", "push", "push", "init"}, 0, 12)
		if rapid.IntRange(0, 3).Draw(c.T, "run first") > 0 {
			ops = append([]cop{{"play", 0}}, ops...)
		}
		pushes := rapid.IntRange(0, 3).Draw(c.T, "between")
		c.Data("%v; elements %s initially %d; %v ending %d (0 stop, 1 error, 2 panic, 3 timeout) at %d, %d pushes, restart %d", r, show(es), n0, ops, end, at, pushes, how)
		c.bubble(t, func() string {
			conf := r.conf(r.seed)
			s := newSubject(r, conf, es, n0)
			algo := s.algo
			gen := func() *rand.Rand {
				switch cf := algo.Conf().(type) {
				case *kmeans.Conf:
					return cf.RGen
				case *mcmc.Conf:
					return cf.RGen
				default:
					return algo.Conf().(*streaming.Conf).RGen
				}
			}()
			if end == 3 {
				algo.Conf().Ctrl().Timeout = time.Duration(at+1)*time.Millisecond + 700*time.Microsecond
			}
			boom := errors.New("scripted failure")
			if end == 1 || end == 2 {
				s.sp.fail = func(n int) error {
					if n != at {
						return nil
					}
					if end == 2 {
						s.sp.fail = nil
						panic(boom)
					}
					return boom
				}
			}
			next := n0
			stuck := ""
			do := func(what string, f func()) {
				if stuck == "" && !within(wedged, f) {
					stuck = what + " does not return"
				}
			}
			for i, o := range ops {
				time.Sleep(time.Duration(o.sleep)*100*time.Microsecond + 50<<i)
				do(o.kind, func() { s.do(o.kind, &next) })
				synctest.Wait()
			}
			if algo.Status().Value == core.Created {
				do("Play", func() { algo.Play() })
			}
			if end == 3 {
				time.Sleep(20 * time.Millisecond)
			}
			do("Stop", func() { algo.Stop() })
			if stuck != "" {
				return stuck
			}
			s.sp.fail = nil
			algo.Conf().Ctrl().Timeout = 0
			for ; pushes > 0; pushes-- {
				s.do("push", &next)
			}
			time.Sleep(time.Second)
			synctest.Wait()
			s.win.apply()
			data := pick(es, s.win.visible)
			if r.kind == 2 {
				data = pick(es, s.queue)
			}
			data = deepCopies(data)
			first := len(s.sp.iters)
			ended := algo.Status()
			if ended.Value != core.Finished {
				return "not finished: " + showStatus(ended)
			}
			seed2 := uint64(r.seed) + 17
			gen.Seed(seed2)
			fresh := newSubject(r, r.conf(int(seed2)), data, len(data))
			var outcome [2]string
			var looks [2]look
			var calls [2][]spyCall
			for k, x := range []*subject{s, fresh} {
				mark := len(x.sp.iters)
				a := x.algo
				var err error
				do("restarting", func() {
					switch how {
					case 0:
						err = a.Play()
						time.Sleep(40 * time.Millisecond)
					case 1:
						err = a.Init()
						if err == nil {
							err = a.Play()
						}
						time.Sleep(40 * time.Millisecond)
					default:
						if r.kind == 2 { // may wait for data for ever
							err = a.Play()
							time.Sleep(40 * time.Millisecond)
						} else {
							err = a.Batch()
						}
					}
				})
				if stuck != "" {
					return stuck
				}
				synctest.Wait()
				outcome[k] = fmt.Sprint(err)
				looks[k] = lookAt(a)
				delete(looks[k].figs, core.Duration)
				if lt := a.RuntimeFigures()[core.LastDataTime]; lt != 0 {
					return fmt.Sprintf("last data time %v after the restart without any push", lt)
				}
				if x.algo.RuntimeFigures()[core.Duration] > float64(100*time.Millisecond) {
					return fmt.Sprintf("duration %v after a run of less than 100ms", time.Duration(x.algo.RuntimeFigures()[core.Duration]))
				}
				do("Stop", func() { a.Stop() })
				calls[k] = x.sp.iters[mark:]
			}
			time.Sleep(time.Second)
			if stuck != "" {
				return stuck
			}
			if outcome[0] != outcome[1] || !looks[0].same(looks[1]) {
				return fmt.Sprintf("restarted: %s, %v; built with the same data %s: %s, %v", outcome[0], looks[0], show(data), outcome[1], looks[1])
			}
			n := min(len(calls[0]), len(calls[1]))
			for i := 0; i < n; i++ {
				a, b := calls[0][i], calls[1][i]
				if !sameAll(a.clust, b.clust) || !sameFigs(a.figs, b.figs) || !sameErr(a.err, b.err) {
					return fmt.Sprintf("iteration %d after the restart gives %s %v %v, of an algorithm built with the same data %s: %s %v %v", i, show(a.clust), a.figs, a.err, show(data), show(b.clust), b.figs, b.err)
				}
			}
			c.Class(ended.Error != nil, "ended with an error")
			c.Class(true, kindNames[r.kind])
			c.Nontrivial(first > 0 && n > 0)
			return ""
		})
	})
	worldSub(c, t, "scripted", 5000, wbias{restart: true, faults: true, push: true}, func(w *world) bool { return len(w.reinits()) > 0 })
}
