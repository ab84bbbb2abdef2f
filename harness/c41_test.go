package distclusverif

import (
	"fmt"
	"testing"
	"time"

	"golang.org/x/exp/rand"
	"pgregory.net/rapid"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/kmeans"
	"github.com/wearelumenai/distclus/mcmc"
	"github.com/wearelumenai/distclus/streaming"
)

// seeded is a generated algorithm whose random generators are all seeded
type seeded struct {
	kind     int // 0 k-means, 1 MCMC, 2 streaming
	s        sp
	es       []core.Elemt
	held     int
	k, maxk  int
	frame    int
	iter     int
	proba    []float64
	amp      float64
	init     string
	distrib  string
	par      bool
	cpu      int
	seed     uint64
	mu, sig  float64
	outRatio float64
	outAfter int
	ops      []wop
}

func (r seeded) String() string {
	return fmt.Sprintf("%s space %s elements %s initially %d k %d maxK %d frame %d iter %d weights %v amp %v initializer %s distribution %s par %v cpu %d seed %d mu %v sigma %v outRatio %v outAfter %d ops %v",
		kindNames[r.kind], r.s.name, show(r.es), r.held, r.k, r.maxk, r.frame, r.iter, r.proba, r.amp, r.init, r.distrib, r.par, r.cpu, r.seed, r.mu, r.sig, r.outRatio, r.outAfter, r.ops)
}

func drawSeeded(t *rapid.T) (r seeded) {
	r.kind = rapid.IntRange(0, 2).Draw(t, "kind")
	r.s = safeSp(t)
	r.es = r.s.elemts(t, 2, 24, "e")
	r.held = rapid.IntRange(1, len(r.es)).Draw(t, "held")
	if rapid.Bool().Draw(t, "all") {
		r.held = len(r.es)
	}
	r.frame = max(0, upTo(t, 19, len(r.es), "frame")-9)
	h := r.held
	if r.frame > 0 {
		h = min(h, r.frame)
	}
	r.k = upTo(t, min(6, h), h, "k")
	r.maxk = r.k + rapid.IntRange(0, 4).Draw(t, "more")
	r.iter = rapid.IntRange(1, 12).Draw(t, "iter")
	r.proba = [][]float64{nil, {1, 1, 1}, {2, 0, 3}, {0, 1, 4}, {4, 1, 0}}[rapid.IntRange(0, 4).Draw(t, "proba")]
	r.amp = []float64{0, 1e-3, 0.1, 1}[rapid.IntRange(0, 3).Draw(t, "amp")]
	r.init = []string{"pp", "rand", "given"}[rapid.IntRange(0, 2).Draw(t, "init")]
	r.distrib = []string{"noise", "dirac"}[rapid.IntRange(0, 1).Draw(t, "distrib")]
	if _, ok := r.es[0].([]float64); ok && rapid.IntRange(0, 2).Draw(t, "student") > 0 {
		r.distrib = []string{"multivt", "late"}[rapid.IntRange(0, 1).Draw(t, "which")]
	}
	r.par = rapid.Bool().Draw(t, "par")
	r.cpu = rapid.IntRange(1, 9).Draw(t, "cpu")
	r.seed = uint64(rapid.IntRange(1, 1<<30).Draw(t, "seed"))
	r.mu = []float64{0, 0.2, 0.9}[rapid.IntRange(0, 2).Draw(t, "mu")]
	r.sig = []float64{0, 0.5}[rapid.IntRange(0, 1).Draw(t, "sigma")]
	r.outRatio = []float64{0, 1.1, 5}[rapid.IntRange(0, 2).Draw(t, "outRatio")]
	r.outAfter = rapid.IntRange(2, 6).Draw(t, "outAfter")
	for i := rapid.IntRange(1, 6).Draw(t, "nops"); i > 0; i-- {
		r.ops = append(r.ops, wop{kind: rapid.SampledFrom([]string{"batch", "batch", "batch", "push", "push", "copy", "init"}).Draw(t, "op"),
			arg: rapid.IntRange(1, 4).Draw(t, "arg")})
	}
	return
}

func (r seeded) gen(salt int) *rand.Rand {
	return rand.New(rand.NewSource(r.seed*31 + uint64(salt)))
}

func (r seeded) conf(salt int) core.Conf {
	ctrl := core.CtrlConf{Iter: r.iter}
	switch r.kind {
	case 0:
		return &kmeans.Conf{CtrlConf: ctrl, K: r.k, Par: r.par, NumCPU: r.cpu, FrameSize: r.frame, RGen: r.gen(salt)}
	case 1:
		return &mcmc.Conf{CtrlConf: ctrl, InitK: r.k, MaxK: r.maxk, Par: r.par, NumCPU: r.cpu, FrameSize: r.frame, ProbaK: append([]float64(nil), r.proba...), Amp: r.amp, RGen: r.gen(salt)}
	}
	// a streaming run does not end when there is nothing left to consume: it is given 40 iterations
	n := 0
	ctrl = core.CtrlConf{Finishing: finishFunc(func(core.OCModel) bool { n++; return n%40 == 0 })}
	return &streaming.Conf{CtrlConf: ctrl, BufferSize: bulkMax + 100, OutAfter: r.outAfter, Mu: r.mu, Sigma: r.sig, OutRatio: r.outRatio, RGen: r.gen(salt)}
}

func (r seeded) build() *core.Algo {
	data := deepCopies(r.es[:r.held])
	init := kmeans.CreateInitializer(r.init)
	switch conf := r.conf(0).(type) {
	case *kmeans.Conf:
		return kmeans.NewAlgo(*conf, r.s.space, data, init)
	case *mcmc.Conf:
		switch r.distrib {
		case "dirac":
			return mcmc.NewAlgo(*conf, r.s.space, data, init, mcmc.NewDirac())
		case "multivt":
			return mcmc.NewAlgo(*conf, r.s.space, data, init, mcmc.NewMultivT(mcmc.MultivTConf{Dim: refDim(r.es[0]), Nu: 3, RGen: r.gen(7)}))
		case "late":
			return mcmc.NewAlgo(*conf, r.s.space, data, init, mcmc.NewLateDistrib(func(e core.Elemt) mcmc.Distrib {
				return mcmc.NewMultivT(mcmc.MultivTConf{Dim: refDim(e), Nu: 3, RGen: r.gen(7)})
			}))
		}
		return mcmc.NewAlgo(*conf, r.s.space, data, init, noise{r.gen(5), 0.3 / max(1, r.s.unit), 0.1, r.es})
	case *streaming.Conf:
		return streaming.NewAlgo(*conf, r.s.space, data)
	}
	panic("no conf")
}

// observe runs the operations and tells everything that is published after each of them
func (r seeded) observe() (log []string, msg string) {
	var algo core.OnlineClust = r.build()
	next := r.held
	see := func(what string) {
		fig := algo.RuntimeFigures()
		for _, k := range []string{core.Duration, core.LastDataTime} {
			delete(fig, k)
		}
		st := algo.Status()
		var pred string
		if len(algo.Centroids()) > 0 {
			p, l, d := algo.Predict(r.es[0])
			pred = fmt.Sprintf("%s %d %x", show([]core.Elemt{p}), l, d)
		}
		log = append(log, fmt.Sprintf("%s: %s, centroids %s, figures %v, prediction %s", what, showStatus(st), show(algo.Centroids()), fig, pred))
	}
	for i, o := range r.ops {
		switch o.kind {
		case "batch":
			var err error
			if !within(wedged, func() { err = algo.Batch() }) {
				return log, fmt.Sprintf("operation %d: the batch does not return", i)
			}
			see(fmt.Sprintf("operation %d: batch %v", i, err))
		case "init":
			see(fmt.Sprintf("operation %d: init %v", i, algo.Init()))
		case "push":
			for j := 0; j < o.arg && next < len(r.es); j++ {
				if err := algo.Push(deepCopy(r.es[next])); err != nil {
					return log, fmt.Sprintf("operation %d: push: %v", i, err)
				}
				next++
			}
			see(fmt.Sprintf("operation %d: push", i))
		case "copy":
			oc, err := algo.Copy(r.conf(i+1), algo.Space())
			if err == nil {
				algo = oc
			}
			see(fmt.Sprintf("operation %d: copy %v", i, err))
		}
	}
	algo.Stop()
	time.Sleep(time.Second)
	return
}

func TestC41(t *testing.T) {
	c := newCheck(t, "C41", "k-means, MCMC and streaming over every space, sequential and parallel, every initializer and distribution, with seeded generators; the same batches, pushes, initialisations and copies are made twice, at different dates and under different delays of the locks and workers; all that is published must be equal; non-trivial: at least one batch with more than one centroid")
	c.Sub("twice", 8000, func(c *Case) {
		r := drawSeeded(c.T)
		p1, p2 := max(0, rapid.IntRange(-200, 400).Draw(c.T, "perturbation")), max(0, rapid.IntRange(-200, 400).Draw(c.T, "perturbation2"))
		// the runs do not begin at the same date
		later := time.Duration(rapid.IntRange(0, 100000).Draw(c.T, "later"))*time.Millisecond + time.Duration(rapid.IntRange(0, 9).Draw(c.T, "laterNs"))
		c.Data("perturbations %d %d, second run %v later, %s", p1, p2, later, r)
		once := func(p int, later time.Duration) (log []string) {
			c.bubble(t, func() (msg string) {
				time.Sleep(later)
				defer perturb(p)()
				log, msg = r.observe()
				return
			})
			return
		}
		a, b := once(p1, 0), once(p2, later)
		for i := range a {
			if a[i] != b[i] {
				c.Failf("two runs from the same seed differ:\n  %s\n  %s", a[i], b[i])
			}
		}
		for _, o := range r.ops {
			c.Nontrivial(o.kind == "batch" && (r.k > 1 || r.kind == 2))
			c.Class(o.kind == "copy", "copy")
		}
		c.Class(r.par && r.kind < 2, "parallel")
	})
	c.Sub("side by side", 4000, func(c *Case) {
		// algorithms that run at the same time do not influence one another
		rs := []seeded{drawSeeded(c.T), drawSeeded(c.T)}
		p := max(0, rapid.IntRange(-200, 400).Draw(c.T, "perturbation"))
		later := time.Duration(rapid.IntRange(0, 100).Draw(c.T, "later")) * time.Second
		c.Data("perturbation %d, %v later, %s; %s", p, later, rs[0], rs[1])
		alone, beside := make([][]string, 2), make([][]string, 2)
		for i, r := range rs {
			c.bubble(t, func() (msg string) {
				alone[i], msg = r.observe()
				return
			})
		}
		c.bubble(t, func() string {
			time.Sleep(later)
			defer perturb(p)()
			msgs := make([]string, 2)
			if m := clients(2, func(i int) { beside[i], msgs[i] = rs[i].observe() }); m != "" {
				return m
			}
			return msgs[0] + msgs[1]
		})
		for i := range rs {
			for j := range alone[i] {
				if alone[i][j] != beside[i][j] {
					c.Failf("algorithm %d gives, alone and beside another one:\n  %s\n  %s", i, alone[i][j], beside[i][j])
				}
			}
			c.Nontrivial(rs[i].k > 1 || rs[i].kind == 2)
		}
	})
}
