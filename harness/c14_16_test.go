package distclusverif

import (
	"fmt"
	"math"
	"strings"
	"testing"

	"golang.org/x/exp/rand"
	"pgregory.net/rapid"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
	"github.com/wearelumenai/distclus/mcmc"
)

// largeLloyd: an iteration on tens of thousands of elements
func largeLloyd(c *Case) {
	l := drawLarge(c.T, 60000).of(c)
	par := rapid.Bool().Draw(c.T, "par")
	n0 := len(l.data) - rapid.SampledFrom([]int{0, 0, 1, 500}).Draw(c.T, "pushed")
	frame := rapid.SampledFrom([]int{0, 0, n0 / 2, n0}).Draw(c.T, "frame")
	c.Data("%s; par %v initially %d frame %d", l.description, par, n0, frame)
	conf := kmeans.Conf{K: len(l.clust), FrameSize: frame, Par: par, NumCPU: l.degree}
	mk := kmeans.NewSeqImpl
	if par {
		mk = kmeans.NewParImpl
	}
	impl := mk(conf, kmeans.GivenInitializer, l.data[:n0])
	held := n0
	clust := l.clust
	for i := 0; i < 2; i++ {
		data := l.data[:held]
		if frame > 0 {
			data = data[held-min(frame, held):]
		}
		if i == 0 {
			for _, e := range l.data[n0:] {
				if err := impl.Push(e, simpleModel(&conf, l.space, core.Running, clust)); err != nil {
					c.Failf("Push: %v", err)
				}
			}
			held = len(l.data)
		}
		prev := core.Clust(deepCopies(clust))
		got, _, err := impl.Iterate(simpleModel(&conf, l.space, core.Running, clust))
		if err != nil {
			c.Failf("iteration %d: %v", i, err)
		}
		if m := checkLloyd(prev, got, data, sp{name: map[bool]string{true: "line", false: "euclid"}[l.space == core.Space(lineSpace{})], space: l.space, unit: 1}); m != "" {
			c.Failf("iteration %d: %s", i, m)
		}
		clust = got
	}
}

func isMean(s sp) bool {
	return strings.HasPrefix(s.name, "euclid") || strings.HasPrefix(s.name, "cosinus") || s.name == "line" || s.name == "pair"
}

// checkLloyd: next is one Lloyd step from prev. Clusters of several elements are
// checked where combining is a weighted mean.
func checkLloyd(prev, next core.Clust, data []core.Elemt, s sp) string {
	if len(prev) != len(next) {
		return fmt.Sprintf("%d centroids become %d", len(prev), len(next))
	}
	labels := make([]int, len(data))
	for i, e := range data {
		labels[i], _ = bruteNearest(prev, e, s.space)
	}
	for i, cl := range byLabel(data, labels, len(prev)) {
		switch {
		case len(cl) == 0:
			if !same(next[i], prev[i]) {
				return fmt.Sprintf("centroid %d of no element changes from %v to %v", i, prev[i], next[i])
			}
		case len(cl) == 1:
			if !same(next[i], cl[0]) {
				return fmt.Sprintf("centroid %d of the single element %v becomes %v", i, cl[0], next[i])
			}
		case isMean(s):
			if m := refMean(cl, nil); !nearMean(next[i], m, cl) {
				return fmt.Sprintf("centroid %d of %s becomes %v, mean %v", i, show(cl), next[i], m)
			}
		}
	}
	return ""
}

func totalLoss(clust core.Clust, data []core.Elemt, space core.Space, norm float64) (l float64) {
	for _, e := range data {
		_, d := bruteNearest(clust, e, space)
		l += math.Pow(d, norm)
	}
	return
}

// lossRounding bounds what rounding of positions changes to a total loss
func lossRounding(clust core.Clust, data []core.Elemt, s sp, norm float64) (l float64) {
	m := 1e-12 * maxAbs(append(append([]core.Elemt{}, data...), clust...)...) * s.unit
	for _, e := range data {
		_, d := bruteNearest(clust, e, s.space)
		l += math.Pow(d+m, norm) - math.Pow(math.Max(0, d-m), norm)
	}
	return
}

func simpleModel(conf core.Conf, space core.Space, status core.ClustStatus, clust core.Clust) core.OCModel {
	return core.NewSimpleOCModel(conf, space, core.NewOCStatus(status), core.RuntimeFigures{}, clust)
}

func pick(data []core.Elemt, ix []int) []core.Elemt {
	r := make([]core.Elemt, len(ix))
	for i, j := range ix {
		r[i] = data[j]
	}
	return r
}

func TestC14(t *testing.T) {
	c := newCheck(t, "C14", "random space, 1..25 elements with duplicates, 1..8 initial centroids (data or not, duplicated or far), sequential or parallel (1..20 CPUs), frames, pushes between iterations; non-trivial: a cluster of several elements moved")
	c.Sub("history", 40000, func(c *Case) {
		s := safeSp(c.T)
		es := s.elemts(c.T, 1, 25, "e")
		clust := core.Clust(s.elemts(c.T, 1, 8, "c"))
		conf := kmeans.Conf{K: len(clust), FrameSize: upTo(c.T, 9, len(es), "frame") - 1, Par: rapid.Bool().Draw(c.T, "par"),
			NumCPU: rapid.IntRange(1, 20).Draw(c.T, "cpu")}
		n := rapid.IntRange(1, len(es)).Draw(c.T, "initial")
		ops := rapid.SliceOfN(rapid.SampledFrom([]string{"iterate", "iterate", "iterate", "push", "push running"}), 1, 12).Draw(c.T, "ops")
		c.Data("space %s elements %s initially %d centroids %s frame %d par %v cpu %d ops %v", s.name, show(es), n, show(clust), conf.FrameSize, conf.Par, conf.NumCPU, ops)
		before := deepCopies(es)
		mk := kmeans.NewSeqImpl
		if conf.Par {
			mk = kmeans.NewParImpl
		}
		impl := mk(conf, kmeans.GivenInitializer, es[:n])
		w := &windowModel{size: conf.FrameSize}
		next := 0
		for ; next < n; next++ {
			w.add(next)
		}
		for i, o := range ops {
			switch {
			case o == "iterate":
				data := pick(before, w.visible)
				prev := core.Clust(deepCopies(clust))
				got, _, err := impl.Iterate(simpleModel(&conf, s.space, core.Running, clust))
				w.apply()
				if err != nil {
					c.Failf("operation %d: %v", i, err)
				}
				if m := checkLloyd(prev, got, data, s); m != "" {
					c.Failf("operation %d: %s (data %s)", i, m, show(data))
				}
				if !sameAll(prev, clust) {
					c.Failf("operation %d alters the previous centroids %s into %s", i, show(prev), show(clust))
				}
				if strings.HasPrefix(s.name, "euclid") {
					l0, l1 := totalLoss(prev, data, s.space, 2), totalLoss(got, data, s.space, 2)
					if m := maxAbs(append(data, prev...)...); l1 > l0*(1+1e-9)+1e-22*m*m*s.unit*s.unit*float64(len(data)) {
						c.Failf("operation %d: loss goes from %v to %v", i, l0, l1)
					}
				}
				c.Nontrivial(!sameAll(prev, got) && len(data) > len(prev))
				clust = got
			case next < len(es):
				st := core.Ready
				if o == "push running" {
					st = core.Running
				}
				if err := impl.Push(es[next], simpleModel(&conf, s.space, st, clust)); err != nil {
					c.Failf("push: %v", err)
				}
				// while ready or running elements wait for the end of an iteration
				w.push(next, true)
				next++
				c.Class(true, o)
			}
		}
		if !sameAll(es, before) {
			c.Failf("elements are altered: %s", show(es))
		}
	})
	c.Sub("algorithm", 10000, func(c *Case) {
		s := safeSp(c.T)
		es := s.elemts(c.T, 1, 20, "e")
		k := upTo(c.T, min(6, len(es)), len(es), "k")
		par, cpu := rapid.Bool().Draw(c.T, "par"), rapid.IntRange(1, 30).Draw(c.T, "cpu")
		iters := rapid.IntRange(1, 4).Draw(c.T, "iters")
		init := []string{"given", "rand"}[rapid.IntRange(0, 1).Draw(c.T, "init")]
		seed := uint64(rapid.IntRange(1, 1<<30).Draw(c.T, "seed"))
		c.Data("space %s elements %s k %d par %v cpu %d iterations %d initializer %s seed %d", s.name, show(es), k, par, cpu, iters, init, seed)
		c.bubble(t, func() string {
			run := func(n int) (core.Clust, string) {
				conf := kmeans.Conf{K: k, Par: par, NumCPU: cpu, RGen: rand.New(rand.NewSource(seed))}
				conf.Iter = n
				algo := kmeans.NewAlgo(conf, s.space, es, kmeans.CreateInitializer(init))
				var err error
				if n == 0 {
					err = algo.Init()
				} else {
					err = algo.Batch()
				}
				if err != nil {
					return nil, fmt.Sprintf("run of %d iterations: %v", n, err)
				}
				if f := algo.RuntimeFigures()[core.Iterations]; f != float64(n) {
					return nil, fmt.Sprintf("%v iterations counted, want %d", f, n)
				}
				return algo.Centroids(), ""
			}
			prev, msg := run(0)
			for n := 1; n <= iters && msg == ""; n++ {
				var next core.Clust
				if next, msg = run(n); msg == "" {
					msg = checkLloyd(prev, next, es, s)
				}
				if msg != "" {
					msg = fmt.Sprintf("iteration %d: %s", n, msg)
				} else {
					c.Nontrivial(!sameAll(prev, next))
				}
				prev = next
			}
			return msg
		})
	})
	c.Sub("large", 8, largeLloyd)
}

// recSource records the words drawn
type recSource struct {
	src   rand.Source
	words []uint64
}

func (s *recSource) Seed(seed uint64) { s.src.Seed(seed) }
func (s *recSource) Uint64() uint64 {
	v := s.src.Uint64()
	s.words = append(s.words, v)
	return v
}

// recDistrib records the samples of a distribution
type recDistrib struct {
	mcmc.Distrib
	samples core.Clust
	times   map[int]bool
}

func (d *recDistrib) Sample(mu core.Elemt, time int) core.Elemt {
	e := d.Distrib.Sample(mu, time)
	d.samples = append(d.samples, deepCopy(e))
	d.times[time] = true
	return e
}

func (d *recDistrib) Pdf(x, mu core.Elemt, time int) float64 {
	d.times[time] = true
	return d.Distrib.Pdf(x, mu, time)
}

// noise is a user-defined distribution on any of the spaces; its log density depends on the position
type noise struct {
	gen   *rand.Rand
	scale float64
	slope float64
	elts  []core.Elemt // for elements without coordinates
}

func (d noise) Sample(mu core.Elemt, time int) core.Elemt {
	r := func() float64 { return d.scale * (2*d.gen.Float64() - 1) }
	switch v := deepCopy(mu).(type) {
	case []float64:
		for i := range v {
			v[i] += r()
		}
		v[0] = v[0] + d.scale // keeps the half space of cosine elements
		return v
	case [][]float64:
		for i := range v {
			for j := range v[i] {
				v[i][j] += r()
			}
			v[i][0] += d.scale
		}
		return v
	case float64:
		return v + r()
	case *pairElt:
		v.X += r()
		v.Y += r()
		return v
	default:
		return d.elts[d.gen.Intn(len(d.elts))]
	}
}

func (d noise) Pdf(x, mu core.Elemt, time int) float64 {
	p := 0.
	switch v := x.(type) {
	case []float64:
		for i := range v {
			p += d.slope*v[i] - math.Abs(v[i]-mu.([]float64)[i])
		}
	case [][]float64:
		p = d.slope * v[0][0]
	case float64:
		p = d.slope*v - math.Abs(v-mu.(float64))
	case *pairElt:
		p = d.slope * (v.X - v.Y)
	case int:
		p = d.slope * float64(v)
	}
	return p / float64(time)
}

// mcmcRun is a generated history of an MCMC implementation driven directly
type mcmcRun struct {
	s        sp
	es       []core.Elemt
	initial  int
	conf     mcmc.Conf
	dirac    bool
	scale    float64
	slope    float64
	seed     uint64
	ops      []string
	initName string
	initN    int // centroids given by the user's initializer, not always InitK
	desc     string
}

func (r mcmcRun) initializer() core.Initializer {
	if r.initName == "user" {
		return func(k int, elemts []core.Elemt, space core.Space, _ *rand.Rand) (core.Clust, error) {
			var cl core.Clust
			for i := 0; i < r.initN; i++ {
				cl = append(cl, space.Copy(elemts[len(elemts)-1-i]))
			}
			return cl, nil
		}
	}
	return kmeans.CreateInitializer(r.initName)
}

func drawMCMC(t *rapid.T) (r mcmcRun) {
	r.s = safeSp(t)
	r.es = r.s.elemts(t, 1, 16, "e")
	r.initial = rapid.IntRange(1, len(r.es)).Draw(t, "initial")
	r.conf.FrameSize = max(0, upTo(t, 13, len(r.es), "frame")-5)
	held := r.initial
	if r.conf.FrameSize > 0 {
		held = min(held, r.conf.FrameSize)
	}
	r.conf.MaxK = upTo(t, 6, len(r.es), "maxk")
	r.conf.InitK = rapid.IntRange(1, min(r.conf.MaxK, held)).Draw(t, "initk")
	r.conf.B = []float64{0, 0.5, 1, 3, 100, 1e5, 123.456, 7e-4}[rapid.IntRange(0, 7).Draw(t, "b")]
	r.conf.Amp = []float64{0, 1e-6, 0.001, 0.1, 1, 30, 4000}[rapid.IntRange(0, 6).Draw(t, "amp")]
	r.conf.Norm = []float64{0, 1, 2, 1.5}[rapid.IntRange(0, 3).Draw(t, "norm")]
	if rapid.IntRange(0, 3).Draw(t, "dfltproba") > 0 {
		p := make([]float64, 3)
		for i := range p {
			p[i] = float64(rapid.IntRange(0, 3).Draw(t, "probak"))
		}
		if p[0]+p[1]+p[2] == 0 {
			p[rapid.IntRange(0, 2).Draw(t, "one")] = 1
		}
		r.conf.ProbaK = p
	}
	r.conf.Par = rapid.Bool().Draw(t, "par")
	r.conf.NumCPU = rapid.IntRange(1, 12).Draw(t, "cpu")
	r.dirac = rapid.IntRange(0, 4).Draw(t, "dirac") == 0
	r.scale = []float64{0.01, 0.3, 3}[rapid.IntRange(0, 2).Draw(t, "scale")]
	r.slope = []float64{0, 0.1, -2}[rapid.IntRange(0, 2).Draw(t, "slope")]
	r.seed = uint64(rapid.IntRange(1, 1<<30).Draw(t, "seed"))
	r.ops = rapid.SliceOfN(rapid.SampledFrom([]string{"iterate", "iterate", "iterate", "iterate", "iterate", "iterate", "push", "push running", "init"}), 2, 20).Draw(t, "ops")
	if len(r.es) <= 2*many && rarely(t, 7) { // a long life
		for n := rapid.IntRange(1, 20).Draw(t, "long") * 25; n > 0; n-- {
			r.ops = append(r.ops, "iterate")
		}
	}
	r.initName = []string{"given", "rand", "user"}[rapid.IntRange(0, 2).Draw(t, "init")]
	r.initN = r.conf.InitK
	if r.initName == "user" {
		r.initN = rapid.IntRange(1, min(r.conf.MaxK, held)).Draw(t, "initn")
	}
	p := r.conf
	r.desc = fmt.Sprintf("space %s elements %s initially %d frame %d maxK %d initK %d B %v Amp %v Norm %v ProbaK %v par %v cpu %d dirac %v scale %v slope %v seed %d initializer %s (%d) ops %v",
		r.s.name, show(r.es), r.initial, p.FrameSize, p.MaxK, p.InitK, p.B, p.Amp, p.Norm, p.ProbaK, p.Par, p.NumCPU, r.dirac, r.scale, r.slope, r.seed, r.initName, r.initN, r.ops)
	return
}

// mcmcStep is what one iteration did
type mcmcStep struct {
	op      int
	n       int // iterations since Init
	data    []core.Elemt
	prev    core.Clust
	next    core.Clust
	samples core.Clust
	words   []uint64
	fig     core.RuntimeFigures
	acc     float64 // acceptations before
	times   map[int]bool
}

// drive runs the history and gives every iteration to see
func (r mcmcRun) drive(see func(conf mcmc.Conf, d mcmc.Distrib, st mcmcStep) string) string {
	conf := r.conf
	src := &recSource{src: rand.NewSource(r.seed)}
	conf.RGen = rand.New(src)
	var inner mcmc.Distrib = noise{rand.New(rand.NewSource(r.seed + 1)), r.scale, r.slope, r.es}
	if r.dirac {
		inner = mcmc.NewDirac()
	}
	d := &recDistrib{Distrib: inner, times: map[int]bool{}}
	before := deepCopies(r.es)
	must(core.PrepareConf(&conf))
	mk := mcmc.NewSeqImpl
	if conf.Par {
		mk = mcmc.NewParImpl
	}
	impl := mk(conf, r.initializer(), r.es[:r.initial], d)
	w := &windowModel{size: conf.FrameSize}
	next := 0
	for ; next < r.initial; next++ {
		w.add(next)
	}
	var clust core.Clust
	n, acc := 0, 0.
	init := func() string {
		w.apply()
		var err error
		clust, err = impl.Init(simpleModel(&conf, r.s.space, core.Initializing, nil))
		if err != nil {
			return fmt.Sprint("Init: ", err)
		}
		if len(clust) != r.initN {
			return fmt.Sprintf("Init gives %d centroids, want %d", len(clust), r.initN)
		}
		if !submultiset(clust, pick(before, w.visible)) {
			return fmt.Sprintf("initial centroids %s are not elements of the data %v", show(clust), w.visible)
		}
		n, acc = 0, 0
		return ""
	}
	if m := init(); m != "" {
		return m
	}
	for i, o := range r.ops {
		switch {
		case o == "init":
			if m := init(); m != "" {
				return fmt.Sprintf("operation %d: %s", i, m)
			}
		case o == "iterate":
			d.samples, src.words, d.times = nil, nil, map[int]bool{}
			st := mcmcStep{op: i, data: pick(before, w.visible), prev: core.Clust(deepCopies(clust)), acc: acc}
			got, fig, err := impl.Iterate(simpleModel(&conf, r.s.space, core.Running, clust))
			w.apply()
			if err != nil {
				return fmt.Sprintf("operation %d: %v", i, err)
			}
			if !sameAll(st.prev, clust) {
				return fmt.Sprintf("operation %d alters the published centroids %s into %s", i, show(st.prev), show(clust))
			}
			n++
			st.n, st.next, st.samples, st.words, st.fig, st.times = n, got, d.samples, src.words, fig, d.times
			if m := see(conf, inner, st); m != "" {
				return fmt.Sprintf("operation %d, iteration %d: %s (data %s)", i, n, m, show(st.data))
			}
			clust, acc = got, fig[mcmc.Acceptations]
		case next < len(r.es):
			st := core.Ready
			if o == "push running" {
				st = core.Running
			}
			if err := impl.Push(r.es[next], simpleModel(&conf, r.s.space, st, clust)); err != nil {
				return fmt.Sprint("push: ", err)
			}
			w.push(next, true)
			next++
		}
	}
	if !sameAll(r.es, before) {
		return fmt.Sprintf("elements are altered: %s", show(r.es))
	}
	return ""
}

func TestC15(t *testing.T) {
	c := newCheck(t, "C15", "random MCMC histories (space, data, initial and maximal k, k-move weights with zeros, distribution, frames, pushes, re-initialisations) driven on the implementation, and whole runs of the algorithm; non-trivial: at least one change of k and one refusal")
	see := func(st mcmcStep, conf mcmc.Conf) string {
		k0, k1 := len(st.prev), len(st.next)
		acc := st.fig[mcmc.Acceptations]
		switch {
		case k1 < 1 || k1 > conf.MaxK || k1 > len(st.data):
			return fmt.Sprintf("%d centroids, maximum %d, %d elements", k1, conf.MaxK, len(st.data))
		case k1 > k0+1 || k1 < k0-1:
			return fmt.Sprintf("%d centroids become %d", k0, k1)
		case k1 > k0 && conf.ProbaK[2] == 0 || k1 < k0 && conf.ProbaK[0] == 0:
			return fmt.Sprintf("%d centroids become %d, which has probability zero in %v", k0, k1, conf.ProbaK)
		case acc != st.acc && acc != st.acc+1:
			return fmt.Sprintf("acceptations go from %v to %v", st.acc, acc)
		case acc == st.acc && !sameAll(st.prev, st.next):
			return fmt.Sprintf("centroids change from %s to %s without acceptation", show(st.prev), show(st.next))
		case acc > float64(st.n):
			return fmt.Sprintf("%v acceptations in %d iterations", acc, st.n)
		}
		return ""
	}
	// the proposed number of centroids is the number of samples
	proposed := func(st mcmcStep, conf mcmc.Conf, s sp) string {
		k0, k1 := len(st.prev), len(st.samples)
		top := min(conf.MaxK, len(st.data))
		p := conf.ProbaK
		possible := k1 == k0 && p[1] > 0 ||
			k1 == max(1, min(k0-1, top)) && p[0] > 0 ||
			k1 == min(k0, top) && p[1] > 0 ||
			k1 == min(k0+1, top) && p[2] > 0 ||
			// no element can be born where all the data sit on the centroids
			k1 == k0 && p[2] > 0 && !(totalLoss(st.prev, st.data, s.space, 1) > 1e-6*s.unit*maxAbs(st.data...))
		if !possible {
			return fmt.Sprintf("%d centroids proposed after %d with weights %v, maximum %d, %d elements", k1, k0, p, conf.MaxK, len(st.data))
		}
		return ""
	}
	c.Sub("history", 40000, func(c *Case) {
		r := drawMCMC(c.T)
		c.Data("%s", r.desc)
		moved, refused := false, false
		if m := r.drive(func(conf mcmc.Conf, _ mcmc.Distrib, st mcmcStep) string {
			moved = moved || len(st.prev) != len(st.next)
			refused = refused || st.fig[mcmc.Acceptations] == st.acc
			if m := proposed(st, conf, r.s); m != "" {
				return m
			}
			return see(st, conf)
		}); m != "" {
			c.Failf("%s", m)
		}
		c.Class(moved, "k changes")
		c.Class(refused, "refusal")
		c.Nontrivial(moved && refused)
	})
	c.Sub("frequencies", 200, func(c *Case) {
		// each move is proposed with the probability of its weight
		p := make([]float64, 3)
		for i := range p {
			p[i] = []float64{0, 1, 2, 8, 0.25, 1e-3}[rapid.IntRange(0, 5).Draw(c.T, "weight")]
		}
		if p[0]+p[1]+p[2] == 0 {
			p[rapid.IntRange(0, 2).Draw(c.T, "one")] = 1
		}
		var es []core.Elemt
		for _, x := range rapid.SliceOfNDistinct(rapid.IntRange(-50, 50), 8, 12, rapid.ID[int]).Draw(c.T, "x") {
			es = append(es, []float64{float64(x)})
		}
		conf := mcmc.Conf{InitK: rapid.IntRange(1, 6).Draw(c.T, "k"), MaxK: 6, Amp: 0.01, B: 1, ProbaK: p, Par: rapid.Bool().Draw(c.T, "par"), NumCPU: 3}
		seed := uint64(rapid.IntRange(1, 1<<30).Draw(c.T, "seed"))
		c.Data("k %d weights %v seed %d data %s par %v", conf.InitK, p, seed, show(es), conf.Par)
		conf.RGen = rand.New(rand.NewSource(seed))
		must(core.PrepareConf(&conf))
		mk := mcmc.NewSeqImpl
		if conf.Par {
			mk = mcmc.NewParImpl
		}
		d := &recDistrib{Distrib: mcmc.NewDirac(), times: map[int]bool{}}
		impl := mk(conf, kmeans.GivenInitializer, es, d)
		const n = 1500
		count := [3]int{}
		for i := 0; i < n; i++ {
			cl, err := impl.Init(simpleModel(&conf, euclid.NewSpace(), core.Initializing, nil))
			must(err)
			d.samples = nil
			if _, _, err = impl.Iterate(simpleModel(&conf, euclid.NewSpace(), core.Running, cl)); err != nil {
				c.Failf("Iterate: %v", err)
			}
			m := len(d.samples) - len(cl) + 1
			if m < 0 || m > 2 {
				c.Failf("%d centroids proposed after %d", len(d.samples), len(cl))
			}
			count[m]++
		}
		q := append([]float64{}, p...)
		if conf.InitK == 1 { // kept within the bounds
			q[1], q[0] = q[1]+q[0], 0
		}
		if conf.InitK == conf.MaxK {
			q[1], q[2] = q[1]+q[2], 0
		}
		c.Class(conf.InitK == 1 || conf.InitK == conf.MaxK, "at a bound")
		for i, x := range count {
			w := q[i] / (q[0] + q[1] + q[2])
			if f := float64(x) / n; math.Abs(f-w) > bernstein(n, w) {
				c.Failf("move %+d proposed with frequency %v, probability %v", i-1, f, w)
			}
		}
		c.Nontrivial(p[0]+p[1] > 0 && p[1]+p[2] > 0 && p[0]+p[2] > 0)
	})
	c.Sub("algorithm", 8000, func(c *Case) {
		r := drawMCMC(c.T)
		runs := rapid.IntRange(1, 3).Draw(c.T, "runs")
		iters := rapid.IntRange(1, 12).Draw(c.T, "iters")
		c.Data("%d runs of %d iterations, %s", runs, iters, r.desc)
		conf := r.conf
		conf.RGen = rand.New(rand.NewSource(r.seed))
		conf.Iter = iters
		d := noise{rand.New(rand.NewSource(r.seed + 1)), r.scale, r.slope, r.es}
		c.bubble(t, func() string {
			algo := mcmc.NewAlgo(conf, r.s.space, r.es[:r.initial], r.initializer(), d)
			conf := *algo.Conf().(*mcmc.Conf)
			held := r.initial
			if conf.FrameSize > 0 {
				held = min(held, conf.FrameSize)
			}
			for run := 0; run < runs; run++ {
				// the iterations are observed one by one through the notification of the finishing condition
				st := mcmcStep{}
				msg := ""
				watch := finishFunc(func(m core.OCModel) bool {
					cl, fig := m.Centroids(), m.RuntimeFigures()
					if n := int(fig[core.Iterations]); n > 0 && n != st.n && msg == "" {
						st.n, st.prev, st.next, st.fig, st.data = n, st.next, cl, fig, r.es[:held]
						if st.prev != nil {
							if m := see(st, conf); m != "" {
								msg = fmt.Sprintf("run %d, iteration %d: %s", run, n, m)
							}
						}
						c.Nontrivial(len(st.prev) != len(st.next))
						st.acc = fig[mcmc.Acceptations]
					} else if n == 0 && st.n == 0 {
						st = mcmcStep{next: cl}
					}
					return false
				})
				algo.Conf().Ctrl().Finishing = watch
				if err := algo.Batch(); err != nil {
					return fmt.Sprint("Batch: ", err)
				}
				watch(algo)
				if msg != "" {
					return msg
				}
				if st.n != iters {
					return fmt.Sprintf("run %d: %d iterations observed, want %d", run, st.n, iters)
				}
				if a := algo.RuntimeFigures()[mcmc.Acceptations]; a > float64(iters) {
					return fmt.Sprintf("run %d: %v acceptations in %d iterations", run, a, iters)
				}
			}
			return ""
		})
	})
}

// bernstein bounds the deviation of a frequency over n draws of probability p,
// exceeded with probability below 1e-11
func bernstein(n int, p float64) float64 {
	l := math.Log(2e11) / float64(n)
	return l/3 + math.Sqrt(l*l/9+2*p*(1-p)*l)
}

// finishFunc is a custom finishing condition
type finishFunc func(core.OCModel) bool

func (f finishFunc) IsFinished(m core.OCModel) bool { return f(m) }

func TestC16(t *testing.T) {
	c := newCheck(t, "C16", "the histories of C15 with recorded samples, densities and random words: the proposal, both losses, lambda, Gibbs, rho and the decision are recomputed for each iteration; non-trivial: an iteration with rho strictly between 0 and 1, k moving, or data changed by a push")
	c.Sub("history", 40000, func(c *Case) {
		r := drawMCMC(c.T)
		c.Data("%s", r.desc)
		if m := r.drive(func(conf mcmc.Conf, d mcmc.Distrib, st mcmcStep) string {
			n := len(st.data)
			dim := float64(refDim(st.prev[0]))
			if len(st.samples) == 0 {
				return "no proposal is drawn"
			}
			for tm := range st.times {
				if tm != n {
					return fmt.Sprintf("the distribution is asked with time %d, %d elements held", tm, n)
				}
			}
			k0, k1 := len(st.prev), len(st.samples)
			// the proposal: one Lloyd step from the samples
			prop := make(core.Clust, k1)
			labels := make([]int, n)
			for i, e := range st.data {
				labels[i], _ = bruteNearest(st.samples, e, r.s.space)
			}
			exact := true // false where the proposal cannot be recomputed (no mean)
			for i, cl := range byLabel(st.data, labels, k1) {
				switch {
				case len(cl) == 0:
					prop[i] = st.samples[i]
				case len(cl) == 1:
					prop[i] = cl[0]
				case isMean(r.s):
					prop[i] = fromCoords(cl[0], refMean(cl, nil))
				default:
					exact = false
				}
			}
			accepted := st.fig[mcmc.Acceptations] == st.acc+1
			if accepted {
				if len(st.next) != k1 {
					return fmt.Sprintf("%d centroids accepted, %d proposed", len(st.next), k1)
				}
				if m := checkLloyd(st.samples, st.next, st.data, r.s); m != "" {
					return "accepted proposal from samples " + show(st.samples) + ": " + m
				}
				prop, exact = st.next, true // exactly
			}
			if f := st.fig[mcmc.Time]; f != float64(n) {
				return fmt.Sprintf("time figure %v, %d elements held", f, n)
			}
			lambda := conf.Amp * math.Sqrt((dim+3)/float64(n))
			if !near(st.fig[mcmc.Lambda], lambda, 1e-9) {
				return fmt.Sprintf("lambda %v, want %v", st.fig[mcmc.Lambda], lambda)
			}
			gibbs, rho := st.fig[mcmc.RGibbs], st.fig[mcmc.Rho]
			if exact {
				l0, l1 := totalLoss(st.prev, st.data, r.s.space, conf.Norm), totalLoss(prop, st.data, r.s.space, conf.Norm)
				tol := lambda * (1e-10*(l0+l1) + lossRounding(st.prev, st.data, r.s, conf.Norm) + lossRounding(prop, st.data, r.s, conf.Norm))
				if strings.HasPrefix(r.s.name, "cosinus") { // distances near 0 are only known up to rounding
					tol += 1e-6 * lambda * float64(n)
				}
				if !(math.Abs(gibbs-lambda*(l0-l1)) <= tol+1e-300) {
					return fmt.Sprintf("Gibbs figure %v, want %v = %v * (%v - %v)", gibbs, lambda*(l0-l1), lambda, l0, l1)
				}
				pdf := func(cl core.Clust) (p, m float64) {
					for _, e := range cl {
						x := d.Pdf(e, e, n)
						p += x
						m += math.Abs(x)
					}
					return
				}
				p0, m0 := pdf(st.prev)
				p1, m1 := pdf(prop)
				init := dim * float64(k0-k1) * math.Log(2*conf.B)
				want := gibbs + init + p0 - p1
				eps := 1e-11*(math.Abs(gibbs)+math.Abs(init)+m0+m1) + 1e-9*math.Max(1, math.Abs(r.slope))*maxAbs(append(st.data, prop...)...)
				eps = math.Max(eps, 1e-9)
				if !(rho >= math.Exp(want-eps)*(1-1e-9) && rho <= math.Exp(want+eps)*(1+1e-9)) {
					return fmt.Sprintf("rho %v, want exp(%v) = exp(gibbs %v + init %v + density %v - %v), k %d to %d", rho, want, gibbs, init, p0, p1, k0, k1)
				}
			} else {
				c.Class(true, "loss not recomputed")
			}
			// the decision: whichever of the numbers drawn in this iteration was used
			yes, no := rho >= 1, rho <= 0
			for _, w := range st.words {
				if u := float64(w&(1<<53-1)) / (1 << 53); u < rho {
					yes = true
				} else {
					no = true
				}
			}
			no = no && rho < 1
			yes = yes && rho > 0
			if accepted && !yes || !accepted && !no {
				return fmt.Sprintf("accepted %v with rho %v and random words %x", accepted, rho, st.words)
			}
			c.Nontrivial(rho > 0 && rho < 1 || k0 != k1)
			c.Class(rho > 0 && rho < 1, "rho in (0,1)")
			c.Class(k0 != k1, "k move proposed")
			c.Class(accepted, "accepted")
			c.Class(!accepted, "refused")
			return ""
		}); m != "" {
			c.Failf("%s", m)
		}
	})
}

// refDim is the number of coordinates of an element, or of a point of a series
func refDim(e core.Elemt) int {
	switch v := e.(type) {
	case []float64:
		return len(v)
	case [][]float64:
		return len(v[0])
	case *pairElt:
		return 2
	}
	return 1
}

func fromCoords(like core.Elemt, x []float64) core.Elemt {
	switch like.(type) {
	case []float64:
		return x
	case float64:
		return x[0]
	case *pairElt:
		return &pairElt{x[0], x[1]}
	}
	panic("no coordinates")
}
