package distclusverif

import (
	"fmt"
	"math"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"golang.org/x/exp/rand"
	"gonum.org/v1/gonum/stat/distuv"
	"pgregory.net/rapid"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/mcmc"
	"github.com/wearelumenai/distclus/streaming"
)

func TestC17(t *testing.T) {
	c := newCheck(t, "C17", "random histories of stores and queries over random spaces, data with duplicates and scripted random draws, against a map model; non-trivial: at least one derivation by birth or death")
	c.Sub("store", 20000, func(c *Case) {
		s := anySp(c.T)
		data := s.elemts(c.T, 1, 7, "d")
		src, rdesc := scriptedRand(c.T)
		type op struct {
			set  bool
			clus core.Clust
			k    int
		}
		ops := make([]op, rapid.IntRange(1, 8).Draw(c.T, "nops"))
		var pool []core.Elemt // long histories: clusterings of many sizes
		if rarely(c.T, 4) {
			ops = make([]op, rapid.IntRange(10, 80).Draw(c.T, "nops"))
			pool = s.elemts(c.T, 5, 40, "pool")
			c.Class(true, "long history")
		}
		desc := ""
		for i := range ops {
			o := &ops[i]
			o.set = rapid.IntRange(0, 2).Draw(c.T, "set") == 0
			if pool != nil {
				k := rapid.IntRange(1, len(pool)).Draw(c.T, "k")
				from := rapid.IntRange(0, len(pool)-k).Draw(c.T, "from")
				o.clus = deepCopies(pool[from : from+k])
			} else if rapid.Bool().Draw(c.T, "fromdata") {
				for j := rapid.IntRange(1, 5).Draw(c.T, "k"); j > 0; j-- {
					o.clus = append(o.clus, deepCopy(data[rapid.IntRange(0, len(data)-1).Draw(c.T, "i")]))
				}
			} else {
				o.clus = core.Clust(s.elemts(c.T, 1, 5, "c"))
			}
			o.k = max(1, len(o.clus)+rapid.IntRange(-1, 1).Draw(c.T, "dk"))
			if o.set {
				desc += fmt.Sprintf("; store %s", show(o.clus))
			} else {
				desc += fmt.Sprintf("; get %d from %s", o.k, show(o.clus))
			}
		}
		c.Data("space %s data %s %s %s", s.name, show(data), rdesc, desc)
		before := deepCopies(data)
		store := mcmc.NewCenterStore(src)
		stored := map[int]core.Clust{}
		for i, o := range ops {
			if o.set {
				store.SetCenters(o.clus)
				stored[len(o.clus)] = o.clus
				continue
			}
			prev := deepCopies(o.clus)
			got, err := store.GetCenters(data, s.space, o.k, o.clus)
			if !sameAll(data, before) || !sameAll(o.clus, prev) {
				c.Failf("query %d alters data or previous centers", i)
			}
			if want, ok := stored[o.k]; ok {
				if err != nil || !sameAll(got, want) {
					c.Failf("query %d for %d centers gives %s (error %v), stored are %s", i, o.k, show(got), err, show(want))
				}
				continue
			}
			switch o.k - len(prev) {
			case 0:
				if err != nil || !sameAll(got, prev) {
					c.Failf("query %d gives %s (error %v), want the clustering itself", i, show(got), err)
				}
				continue
			case -1:
				c.Class(true, "death")
				c.Nontrivial(true)
				if err != nil || len(got) != o.k {
					c.Failf("query %d gives %s, error %v", i, show(got), err)
				}
				ok := false
				for del := range prev {
					ok = ok || sameAll(got, append(append([]core.Elemt{}, prev[:del]...), prev[del+1:]...))
				}
				if !ok {
					c.Failf("query %d gives %s: not the previous centers without one", i, show(got))
				}
			case 1:
				possible := false
				for _, e := range data {
					_, d := bruteNearest(prev, e, s.space)
					possible = possible || d > 0
				}
				if possible != (err == nil) {
					c.Failf("query %d gives error %v (an element at positive distance exists: %v)", i, err, possible)
				}
				if err != nil {
					c.Class(true, "birth impossible")
					continue
				}
				c.Class(true, "birth")
				c.Nontrivial(true)
				if len(got) != o.k || !sameAll(got[:o.k-1], prev) {
					c.Failf("query %d gives %s, want the previous centers plus one", i, show(got))
				}
				e := got[o.k-1]
				if _, d := bruteNearest(prev, e, s.space); !(d > 0) || indexOf(before, e) < 0 {
					c.Failf("query %d: new center %v at distance %v", i, e, d)
				}
			}
			// independent copy
			for _, e := range got {
				scramble(e)
			}
			if !sameAll(data, before) || !sameAll(o.clus, prev) {
				c.Failf("query %d: derived centers share memory with data or previous centers", i)
			}
		}
	})
	c.Sub("bulk", 400, func(c *Case) {
		s, data, common, others := needles(c.T)
		prev := core.Clust(deepCopies(common))
		src, rdesc := scriptedRand(c.T)
		c.Data("space %s, %d elements among %s, at some positions %s; one more than %s, %s", s.name, len(data), show(common), show(others), show(prev), rdesc)
		store := mcmc.NewCenterStore(src)
		possible := false
		for _, e := range data {
			_, d := bruteNearest(prev, e, s.space)
			possible = possible || d > 0
		}
		c.Class(possible, "birth")
		c.Nontrivial(possible)
		got, err := store.GetCenters(data, s.space, len(prev)+1, prev)
		if possible != (err == nil) {
			c.Failf("gives error %v (an element at positive distance exists: %v)", err, possible)
		}
		if err != nil {
			return
		}
		if len(got) != len(common)+1 || !sameAll(got[:len(common)], common) {
			c.Failf("gives %s, want the previous centers plus one", show(got))
		}
		if _, d := bruteNearest(prev, got[len(common)], s.space); !(d > 0) || indexOf(data, got[len(common)]) < 0 {
			c.Failf("new center %v at distance %v", got[len(common)], d)
		}
	})
}

func refLogPdf(x, mu []float64, dim int, nu float64, time int) float64 {
	s := nu / math.Sqrt(20*float64(time))
	d2 := 0.
	for i := range x {
		d2 += (x[i] - mu[i]) * (x[i] - mu[i])
	}
	a, _ := math.Lgamma((float64(dim) + nu) / 2)
	b, _ := math.Lgamma(nu / 2)
	return a - b - float64(dim)/2*math.Log(math.Pi*s) - (float64(dim)+nu)/2*math.Log(1+d2/s)
}

func drawDim(t *rapid.T) int {
	switch k := rapid.IntRange(0, 99).Draw(t, "dimkind"); {
	case k == 99:
		return rapid.IntRange(100, 1000).Draw(t, "dim")
	case k > 90:
		return rapid.IntRange(1, 100).Draw(t, "dim")
	default:
		return rapid.IntRange(1, 6).Draw(t, "dim")
	}
}

func drawNu(t *rapid.T) float64 {
	switch rapid.IntRange(0, 3).Draw(t, "nukind") {
	case 0:
		return 0 // default
	case 1:
		return float64(rapid.IntRange(1, []int{1000, 1000000}[rapid.IntRange(0, 1).Draw(t, "large nu")]).Draw(t, "nu"))
	default:
		return float64(rapid.IntRange(1, 500).Draw(t, "nu")) / 50
	}
}

// spread draws dim coordinates cheaply, also for large dimensions
func spread(t *rapid.T, dim int) []float64 {
	base := vector(t, min(dim, 6), rapid.IntRange(0, 2).Draw(t, "kind"), "x")
	r := make([]float64, dim)
	for i := range r {
		r[i] = base[i%len(base)] * (1 + float64(i/len(base))/7)
	}
	return r
}

func TestC18(t *testing.T) {
	c := newCheck(t, "C18", "random dimensions 1..1000, degrees of freedom (default included), times and points; density against the closed form, samples by relations between equally seeded generators plus one coarse spread estimate; non-trivial: x differs from mu")
	c.Sub("density", 4000, func(c *Case) {
		dim, nu := drawDim(c.T), drawNu(c.T)
		time := rapid.IntRange(1, []int{10, 100000}[rapid.IntRange(0, 1).Draw(c.T, "tk")]).Draw(c.T, "time")
		x, mu := spread(c.T, dim), spread(c.T, dim)
		seed := uint64(rapid.IntRange(1, 1<<30).Draw(c.T, "seed"))
		c.Data("dim %d nu %v time %d x %v mu %v", dim, nu, time, clip(fmt.Sprint(x), 200), clip(fmt.Sprint(mu), 200))
		c.Nontrivial(!sameFloats(x, mu))
		c.Class(dim > 100, "dim > 100")
		d := mcmc.NewMultivT(mcmc.MultivTConf{Dim: dim, Nu: nu, RGen: rand.New(rand.NewSource(seed))})
		if nu == 0 {
			nu = 3
		}
		x0, mu0 := append([]float64{}, x...), append([]float64{}, mu...)
		p := d.Pdf(x, mu, time)
		if math.IsInf(p, 0) || math.IsNaN(p) {
			c.Failf("density is %v", p)
		}
		if want := refLogPdf(x, mu, dim, nu, time); !near(p, want, 1e-9) {
			c.Failf("density is %v, want %v", p, want)
		}
		if q := d.Pdf(mu, x, time); !near(p, q, 1e-9) {
			c.Failf("density is not symmetric: %v %v", p, q)
		}
		top := d.Pdf(mu, append([]float64{}, mu...), time)
		if want := refLogPdf(mu, mu, dim, nu, time); !near(top, want, 1e-9) {
			c.Failf("maximal density is %v, want %v", top, want)
		}
		// strictly decreasing along the segment from mu to x
		d2 := 0.
		for i := range x {
			d2 += (x[i] - mu[i]) * (x[i] - mu[i])
		}
		if s := nu / math.Sqrt(20*float64(time)); d2/s > 1e-6 && d2/s < 1e12 {
			last := top
			for _, f := range []float64{0.3, 0.6, 1, 1.5} {
				y := make([]float64, dim)
				for i := range y {
					y[i] = mu[i] + f*(x[i]-mu[i])
				}
				q := d.Pdf(y, mu, time)
				if !(q < last) {
					c.Failf("density does not decrease with the distance: %v then %v at %v of the segment", last, q, f)
				}
				last = q
			}
		}
		if !sameFloats(x, x0) || !sameFloats(mu, mu0) {
			c.Failf("Pdf alters its arguments")
		}
	})
	c.Sub("sample", 4000, func(c *Case) {
		dim, nu := drawDim(c.T), drawNu(c.T)
		if nu > 0 && nu < 1 {
			nu++ // samples of a tiny number of degrees of freedom overflow
		}
		time := rapid.IntRange(1, []int{10, 100000}[rapid.IntRange(0, 1).Draw(c.T, "tk")]).Draw(c.T, "time")
		mul := rapid.IntRange(2, 50).Draw(c.T, "mul")
		mu, shift := spread(c.T, dim), spread(c.T, dim)
		seed := uint64(rapid.IntRange(1, 1<<30).Draw(c.T, "seed"))
		c.Data("dim %d nu %v time %d (and times %d) mu %v shift %v seed %d", dim, nu, time, mul, clip(fmt.Sprint(mu), 200), clip(fmt.Sprint(shift), 200), seed)
		c.Nontrivial(true)
		mk := func() mcmc.MultivT {
			return mcmc.NewMultivT(mcmc.MultivTConf{Dim: dim, Nu: nu, RGen: rand.New(rand.NewSource(seed))})
		}
		mu0 := append([]float64{}, mu...)
		zero := make([]float64, dim)
		moved := make([]float64, dim)
		for i := range mu {
			moved[i] = mu[i] + shift[i]
		}
		a, b, m, z, f := mk(), mk(), mk(), mk(), mk()
		for round := 0; round < 3; round++ {
			s1, s2 := a.Sample(mu, time).([]float64), b.Sample(mu, time).([]float64)
			if len(s1) != dim {
				c.Failf("sample has dimension %d", len(s1))
			}
			if !sameFloats(s1, s2) {
				c.Failf("samples differ for equal generators: %v %v", s1, s2)
			}
			for _, v := range s1 {
				if math.IsNaN(v) || math.IsInf(v, 0) {
					c.Failf("sample is %v", s1)
				}
			}
			s3 := m.Sample(moved, time).([]float64)
			s0 := z.Sample(zero, time).([]float64)
			s4 := f.Sample(zero, time*mul).([]float64)
			// nu may be tiny: the noise is then huge and absorbs mu
			tol := 1e-9 * (1 + maxAbs(s1, s3, s0, mu, shift))
			spreadOut := false
			for i := range s1 {
				if !(math.Abs(s3[i]-s1[i]-shift[i]) <= tol) || !(math.Abs(s1[i]-mu[i]-s0[i]) <= tol) {
					c.Failf("samples are not translated with mu: %v around %v, %v around %v", s1, mu, s3, moved)
				}
				if w := s0[i] / math.Sqrt(float64(mul)); !near(s4[i], w, 1e-9) {
					c.Failf("samples do not scale as 1/sqrt(time): %v at %d, %v at %d", s0[i], time, s4[i], time*mul)
				}
				spreadOut = spreadOut || s0[i] != 0
			}
			if !spreadOut {
				c.Failf("the sample is mu itself")
			}
			scramble(s1)
			if !sameFloats(mu, mu0) || sameFloats(s1, s2) {
				c.Failf("samples share memory with mu or each other")
			}
		}
		own := mcmc.NewMultivT(mcmc.MultivTConf{Dim: dim, Nu: nu}) // with a generator of its own
		if o1, o2 := own.Sample(mu, time).([]float64), own.Sample(mu, time).([]float64); len(o1) != dim || sameFloats(o1, o2) && maxAbs(o1) < 1e15 || math.IsNaN(maxAbs(o1, o2)) || math.IsInf(maxAbs(o1, o2), 0) {
			c.Failf("without a generator, samples are %v %v", o1, o2)
		}
		// the generator's state matters: a new state gives another sample
		n1, n2 := a.Sample(mu, time).([]float64), a.Sample(mu, time).([]float64)
		if sameFloats(n1, n2) && maxAbs(n1) < 1e15 {
			c.Failf("two successive samples are equal: %v", n1)
		}
	})
	c.Sub("spread", 60, func(c *Case) {
		dim := rapid.IntRange(10, 20).Draw(c.T, "dim")
		nu := float64(rapid.IntRange(10, 60).Draw(c.T, "nu"))
		time := rapid.IntRange(1, 1000).Draw(c.T, "time")
		seed := uint64(rapid.IntRange(1, 1<<30).Draw(c.T, "seed"))
		c.Data("dim %d nu %v time %d seed %d", dim, nu, time, seed)
		c.Nontrivial(true)
		d := mcmc.NewMultivT(mcmc.MultivTConf{Dim: dim, Nu: nu, RGen: rand.New(rand.NewSource(seed))})
		mu := spread(c.T, dim)
		sum, sum2, n := 0., 0., 0.
		for i := 0; i < 1200; i++ {
			s := d.Sample(mu, time).([]float64)
			for j := range s {
				v := (s[j] - mu[j]) * math.Sqrt(20*float64(time))
				sum += v
				sum2 += v * v
				n++
			}
		}
		// Student: mean 0, variance nu/(nu-2); 1200*dim draws, tolerances beyond 7 standard errors
		if m := sum / n; !(math.Abs(m) < 0.08) {
			c.Failf("samples are biased by %v", m)
		}
		if v := sum2 / n / (nu / (nu - 2)); !(v > 0.85 && v < 1.2) {
			c.Failf("the variance of the samples is %v times that of the distribution", v)
		}
	})
	c.Sub("tails", 30, func(c *Case) {
		// numbers of samples beyond some distances, up to far in the tails of few degrees of freedom
		dim := rapid.IntRange(1, 3).Draw(c.T, "dim")
		nu := rapid.SampledFrom([]float64{1, 1, 1.5, 2, 3, 5, 30}).Draw(c.T, "nu")
		time := rapid.IntRange(1, 1000).Draw(c.T, "time")
		seed := uint64(rapid.IntRange(1, 1<<30).Draw(c.T, "seed"))
		c.Data("dim %d nu %v time %d seed %d", dim, nu, time, seed)
		c.Nontrivial(true)
		d := mcmc.NewMultivT(mcmc.MultivTConf{Dim: dim, Nu: nu, RGen: rand.New(rand.NewSource(seed))})
		mu := spread(c.T, dim)
		for i := range mu {
			mu[i] = math.Mod(mu[i], 100)
		}
		const n = 40000
		student := distuv.StudentsT{Mu: 0, Sigma: 1, Nu: nu}
		abs := make([][]float64, dim)
		for i := 0; i < n; i++ {
			s := d.Sample(mu, time).([]float64)
			for j := range s {
				abs[j] = append(abs[j], math.Abs(s[j]-mu[j])*math.Sqrt(20*float64(time)))
			}
		}
		for _, p := range []float64{0.9, 0.5, 0.1, 0.01, 0.002} {
			// the distance that a share p of the samples exceeds
			lo, hi := 0., 1e9
			for i := 0; i < 200; i++ {
				if m := (lo + hi) / 2; 2*(1-student.CDF(m)) > p {
					lo = m
				} else {
					hi = m
				}
			}
			for j := range abs {
				count := 0.
				for _, v := range abs[j] {
					if v > lo {
						count++
					}
				}
				// beyond 8 standard errors
				if e := 8 * math.Sqrt(n*p); !(math.Abs(count-n*p) < e) {
					c.Failf("%v samples of %d are farther than %v, about %v are expected", count, n, lo, n*p)
				}
			}
		}
	})
	c.Sub("dirac", 3000, func(c *Case) {
		s := anySp(c.T)
		es := s.elemts(c.T, 2, 5, "e")
		time := rapid.IntRange(1, 1000).Draw(c.T, "time")
		c.Data("space %s elements %s time %d", s.name, show(es), time)
		c.Nontrivial(true)
		before := deepCopies(es)
		d := mcmc.NewDirac()
		for i, e := range es {
			if !same(d.Sample(e, time), before[i]) {
				c.Failf("Dirac samples %v at %v", d.Sample(e, time), before[i])
			}
			if p, q := d.Pdf(e, es[0], time), d.Pdf(es[0], es[0], 1); p != q {
				c.Failf("Dirac density is not constant: %v %v", p, q)
			}
		}
		if !sameAll(es, before) {
			c.Failf("Dirac alters elements")
		}
	})
}

// tagDistrib answers with values that depend on all arguments
type tagDistrib struct{ id int }
type tagged struct {
	id   int
	mu   any
	time int
}

func (d tagDistrib) Sample(mu core.Elemt, time int) core.Elemt { return tagged{d.id, mu, time} }
func (d tagDistrib) Pdf(x, mu core.Elemt, time int) float64 {
	return float64(d.id)*1e9 + float64(number(x))*1e6 + float64(number(mu))*1e3 + float64(time)
}

// lateElemt is an element of some kind that stands for a number
func lateElemt(kind, x int) core.Elemt {
	switch kind {
	case 1:
		v := make([]float64, 1+x%4)
		v[0] = float64(x)
		return v
	case 2:
		return [][]float64{make([]float64, x)}
	case 3:
		return strings.Repeat("x", x)
	default:
		return x
	}
}

func number(e core.Elemt) int {
	switch v := e.(type) {
	case []float64:
		return int(v[0])
	case [][]float64:
		return len(v[0])
	case string:
		return len(v)
	default:
		return e.(int)
	}
}

func TestC19(t *testing.T) {
	c := newCheck(t, "C19", "1..8 goroutines each issuing 1..6 sample or density queries on a new late distribution whose builder yields, race-detector build; non-trivial: at least 2 goroutines")
	c.Sub("late", 4000, func(c *Case) {
		type q struct {
			pdf         bool
			x, mu, time int
			kind        int
		}
		kind := rapid.IntRange(0, 4).Draw(c.T, "kind") // 4: any
		clients := make([][]q, rapid.IntRange(1, 8).Draw(c.T, "clients"))
		vals := map[int]bool{}
		for i := range clients {
			for j := rapid.IntRange(1, 6).Draw(c.T, "nq"); j > 0; j-- {
				e := q{rapid.Bool().Draw(c.T, "pdf"), rapid.IntRange(0, 99).Draw(c.T, "x"), rapid.IntRange(0, 99).Draw(c.T, "mu"), rapid.IntRange(1, 999).Draw(c.T, "time"), kind}
				if kind == 4 {
					e.kind = rapid.IntRange(0, 3).Draw(c.T, "kind")
				}
				clients[i] = append(clients[i], e)
				vals[e.mu] = true
				if e.pdf {
					vals[e.x] = true
				}
			}
		}
		slow := rapid.IntRange(0, 2).Draw(c.T, "slow")
		c.Data("clients %+v slow %d", clients, slow)
		c.Nontrivial(len(clients) > 1)
		var built atomic.Int64
		var with atomic.Int64
		late := mcmc.NewLateDistrib(func(e core.Elemt) mcmc.Distrib {
			n := built.Add(1)
			with.Store(int64(number(e)))
			switch slow {
			case 1:
				runtime.Gosched()
			case 2:
				time.Sleep(30 * time.Microsecond)
			}
			return tagDistrib{int(n)}
		})
		if built.Load() != 0 {
			c.Failf("built before the first query")
		}
		var wg sync.WaitGroup
		start := make(chan bool)
		msgs := make([]string, len(clients))
		for i := range clients {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						msgs[i] = fmt.Sprint("panic: ", r)
					}
				}()
				<-start
				want := tagDistrib{1}
				for _, e := range clients[i] {
					x, mu := lateElemt(e.kind, e.x), lateElemt(e.kind, e.mu)
					if e.pdf {
						if p := late.Pdf(x, mu, e.time); p != want.Pdf(x, mu, e.time) {
							msgs[i] = fmt.Sprintf("Pdf%+v gives %v", e, p)
						}
					} else if s := late.Sample(mu, e.time); !reflect.DeepEqual(s, want.Sample(mu, e.time)) {
						msgs[i] = fmt.Sprintf("Sample%+v gives %v", e, s)
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		for _, m := range msgs {
			if m != "" {
				c.Failf("%s", m)
			}
		}
		if built.Load() != 1 {
			c.Failf("built %d times", built.Load())
		}
		if len(clients) == 1 {
			f := clients[0][0]
			if w := int(with.Load()); w != f.mu && !(f.pdf && w == f.x) {
				c.Failf("built with %d, not an element of the first query %+v", w, f)
			}
		} else if !vals[int(with.Load())] {
			c.Failf("built with %d, which is in no query", with.Load())
		}
	})
}

// streamModel is the reference of the streaming rule
type streamModel struct {
	conf   streaming.Conf
	norm   distuv.Normal
	clust  []core.Elemt
	cards  []int
	max    float64
	count  int
	branch string
}

func newStreamModel(conf streaming.Conf, src *rand.Rand) *streamModel {
	return &streamModel{conf: conf, norm: distuv.Normal{Mu: conf.Mu, Sigma: conf.Sigma, Src: src}}
}

func (m *streamModel) first(e core.Elemt) {
	m.clust, m.cards, m.max, m.count = []core.Elemt{e}, []int{1}, 0, 0
}

func (m *streamModel) process(e core.Elemt, space core.Space) {
	label, d := bruteNearest(m.clust, e, space)
	r := math.NaN() // no positive distance yet
	switch {
	case m.max > 0:
		r = d / m.max
	case d > 0:
		r = 1
	}
	add := func() {
		m.clust = append(m.clust, e)
		m.cards = append(m.cards, 1)
	}
	if m.count >= m.conf.OutAfter && r > m.conf.OutRatio {
		m.branch = "outlier"
		add()
	} else {
		if m.norm.Rand() < r {
			m.branch = "center"
			add()
		} else {
			m.branch = "merge"
			m.clust[label] = space.Combine(m.clust[label], m.cards[label], e, 1)
			m.cards[label]++
		}
		m.max = math.Max(m.max, d)
	}
	m.count++
}

func drawStreamConf(t *rapid.T) streaming.Conf {
	return streaming.Conf{
		BufferSize: bulkMax,
		Mu:         []float64{0.5, 0.2, 0.9, 1.5, -0.3, 5}[rapid.IntRange(0, 5).Draw(t, "mu")],
		Sigma:      []float64{0.1, 1e-9, 0.5, 2}[rapid.IntRange(0, 3).Draw(t, "sigma")],
		OutRatio:   []float64{2, 1, 1.2, 5, 20, 300}[rapid.IntRange(0, 5).Draw(t, "ratio")],
		OutAfter:   []int{2, 3, 4, 5, 6, 30}[rapid.IntRange(0, 5).Draw(t, "after")],
	}
}

func TestC20(t *testing.T) {
	c := newCheck(t, "C20", "random space, configuration and element sequences of up to 20 elements consumed step by step next to a reference model with an identically seeded generator; non-trivial: at least two different kinds of step")
	c.Sub("rule", 25000, func(c *Case) {
		s := safeSp(c.T)
		es := s.elemts(c.T, 1, 20, "e")
		if rapid.IntRange(0, 2).Draw(c.T, "far") == 0 { // elements far beyond the others
			for i := range es {
				if rapid.IntRange(0, 4).Draw(c.T, "jump") == 0 {
					f := float64(rapid.SampledFrom([]int{8, 30, 100, 1000}).Draw(c.T, "factor"))
					switch v := deepCopy(es[i]).(type) {
					case float64:
						es[i] = v * f
					case []float64:
						for j := range v {
							v[j] *= f
						}
						es[i] = v
					}
				}
			}
		}
		conf := drawStreamConf(c.T)
		seed := uint64(rapid.IntRange(1, 1<<30).Draw(c.T, "seed"))
		// some elements are there from the start, the others pushed before their iteration
		initial := rapid.IntRange(1, len(es)).Draw(c.T, "initial")
		c.Data("space %s conf mu=%v sigma=%v ratio=%v after=%d seed %d initial %d elements %s", s.name, conf.Mu, conf.Sigma, conf.OutRatio, conf.OutAfter, seed, initial, show(es))
		kinds := map[string]bool{}
		before := deepCopies(es)
		conf.RGen = rand.New(rand.NewSource(seed))
		ref := newStreamModel(conf, rand.New(rand.NewSource(seed)))
		impl := streaming.NewImpl(conf, es[:initial])
		model := func(cl core.Clust) core.OCModel {
			return core.NewSimpleOCModel(&conf, s.space, core.NewOCStatus(core.Running), core.RuntimeFigures{}, cl)
		}
		clust, err := impl.Init(model(nil))
		if err != nil {
			c.Failf("Init: %v", err)
		}
		ref.first(before[0])
		agree := func(i int, clust core.Clust) {
			tol := 1e-9 * (1 + maxAbs(before...))
			if len(clust) != len(ref.clust) {
				c.Failf("after element %d (%s): %d centers, want %d (%s)", i, ref.branch, len(clust), len(ref.clust), show(clust))
			}
			for j := range clust {
				if !nearElt(clust[j], ref.clust[j], tol) {
					c.Failf("after element %d (%s): center %d is %v, want %v", i, ref.branch, j, clust[j], ref.clust[j])
				}
			}
			if !near(impl.GetMaxDistance(), ref.max, 1e-9) {
				c.Failf("after element %d (%s): maximal distance %v, want %v", i, ref.branch, impl.GetMaxDistance(), ref.max)
			}
		}
		agree(0, clust)
		for i := 1; i < len(es); i++ {
			if i >= initial {
				if err := impl.Push(es[i], model(clust)); err != nil {
					c.Failf("Push: %v", err)
				}
			}
			last := impl.GetMaxDistance()
			var fig core.RuntimeFigures
			clust, fig, err = impl.Iterate(model(clust))
			if err != nil {
				c.Failf("Iterate: %v", err)
			}
			ref.process(before[i], s.space)
			kinds[ref.branch] = true
			c.Class(true, ref.branch)
			agree(i, clust)
			if fig[streaming.MaxDistance] != impl.GetMaxDistance() || impl.GetMaxDistance() < last {
				c.Failf("maximal distance figure is %v, last %v, value %v", fig[streaming.MaxDistance], last, impl.GetMaxDistance())
			}
			// continue from the library's own centers: rounding must not accumulate
			if sc := impl.GetClusters(); len(sc) == len(ref.clust) {
				copy(ref.clust, deepCopies(sc))
			}
			ref.max = impl.GetMaxDistance()
		}
		c.Nontrivial(len(kinds) > 1)
		if !sameAll(es, before) {
			c.Failf("elements are altered: %s", show(es))
		}
	})
	c.Sub("large", 5, func(c *Case) {
		// tens of thousands of elements, through the processing of elements
		n := rapid.SampledFrom([]int{3000, 35000, 70000, 140000}).Draw(c.T, "about")
		n -= rapid.IntRange(0, n/4).Draw(c.T, "less")
		plane := rapid.Bool().Draw(c.T, "plane")
		conf := drawStreamConf(c.T)
		conf.BufferSize = 10
		// few centers, most of the time
		conf.Mu = rapid.SampledFrom([]float64{5, 0.9, 3}).Draw(c.T, "farmu")
		conf.OutAfter = rapid.SampledFrom([]int{2, n / 2, n - 10, 32767, 32768, 65536}).Draw(c.T, "farafter")
		conf.OutRatio = rapid.SampledFrom([]float64{1.2, 2, 20}).Draw(c.T, "farratio")
		seed := rapid.IntRange(1, 1<<30).Draw(c.T, "seed")
		c.Data("large: %d elements (plane %v) conf mu=%v sigma=%v ratio=%v after=%d seed %d", n, plane, conf.Mu, conf.Sigma, conf.OutRatio, conf.OutAfter, seed)
		c.Class(true, "large")
		g := rand.New(rand.NewSource(uint64(seed + 1)))
		var space core.Space = lineSpace{}
		if plane {
			space = euclid.NewSpace()
		}
		elemt := func() core.Elemt {
			far := 1.
			if g.Intn(2000) == 0 {
				far = float64(int(1) << g.Intn(12))
			}
			if plane {
				return []float64{far * float64(g.Intn(20)), far * float64(g.Intn(20))}
			}
			return far * float64(g.Intn(100))
		}
		conf.RGen = rand.New(rand.NewSource(uint64(seed)))
		ref := newStreamModel(conf, rand.New(rand.NewSource(uint64(seed))))
		e := elemt()
		impl := streaming.NewImpl(conf, []core.Elemt{e})
		if _, err := impl.Init(core.NewSimpleOCModel(&conf, space, core.NewOCStatus(core.Running), core.RuntimeFigures{}, nil)); err != nil {
			c.Failf("Init: %v", err)
		}
		ref.first(deepCopy(e))
		kinds := map[string]bool{}
		for i := 1; i < n && len(ref.clust) < 300; i++ {
			e := elemt()
			impl.Process(e, space)
			ref.process(deepCopy(e), space)
			kinds[ref.branch] = true
			got := impl.GetClusters()
			if len(got) != len(ref.clust) {
				c.Failf("after element %d (%s): %d centers, want %d", i, ref.branch, len(got), len(ref.clust))
			}
			if !near(impl.GetMaxDistance(), ref.max, 1e-9) {
				c.Failf("after element %d (%s): maximal distance %v, want %v", i, ref.branch, impl.GetMaxDistance(), ref.max)
			}
			for j := range got {
				if !nearElt(got[j], ref.clust[j], 1e-9*(1+maxAbs(ref.clust[j]))) {
					c.Failf("after element %d (%s): center %d is %v, want %v", i, ref.branch, j, got[j], ref.clust[j])
				}
				ref.clust[j] = got[j]
			}
			ref.max = impl.GetMaxDistance()
		}
		c.Nontrivial(len(kinds) > 1)
	})
}
