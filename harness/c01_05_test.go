package distclusverif

import (
	"errors"
	"fmt"
	"math"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/cosinus"
)

// bruteNearest is the specification of the nearest centroid: lowest label at minimal distance.
func bruteNearest(clust core.Clust, e core.Elemt, space core.Space) (label int, dist float64) {
	label = -1
	for i := range clust {
		d := space.Dist(e, clust[i])
		if label < 0 || d < dist {
			label, dist = i, d
		}
	}
	return
}

func checkAssign(clust core.Clust, e core.Elemt, space core.Space, centroid core.Elemt, label int, dist float64) string {
	wl, wd := bruteNearest(clust, e, space)
	if label != wl {
		return fmt.Sprintf("label is %d, want %d (distance %v, want %v)", label, wl, dist, wd)
	}
	if wl < 0 {
		if centroid != nil {
			return fmt.Sprintf("centroid is %v without any centroid", centroid)
		}
		return ""
	}
	if dist != wd {
		return fmt.Sprintf("distance is %v, want %v", dist, wd)
	}
	if !same(centroid, clust[wl]) {
		return fmt.Sprintf("centroid is %v, want %v", centroid, clust[wl])
	}
	return ""
}

func ties(clust core.Clust, e core.Elemt, space core.Space) bool {
	n := 0
	_, d := bruteNearest(clust, e, space)
	for i := range clust {
		if space.Dist(e, clust[i]) == d {
			n++
		}
	}
	return n > 1
}

func TestC01(t *testing.T) {
	c := newCheck(t, "C01", "random space (provided or user-defined), 0..6 centroids with duplicates, elements possibly equal to centroids; non-trivial: at least 2 centroids")
	c.Sub("assign", 60000, func(c *Case) {
		s := anySp(c.T)
		clust := core.Clust(s.elemts(c.T, 0, 6, "c"))
		var e core.Elemt
		if len(clust) > 0 && rapid.IntRange(0, 4).Draw(c.T, "eq") == 0 {
			e = deepCopy(clust[rapid.IntRange(0, len(clust)-1).Draw(c.T, "i")])
		} else {
			e = s.gen(c.T, "e")
		}
		c.Data("space %s centroids %s element %v", s.name, show(clust), show([]core.Elemt{e}))
		c.Nontrivial(len(clust) > 1)
		c.Class(ties(clust, e, s.space), "tie")
		c.Class(len(clust) == 0, "no centroid")
		centroid, label, dist := clust.Assign(e, s.space)
		if m := checkAssign(clust, e, s.space, centroid, label, dist); m != "" {
			c.Failf("Assign: %s", m)
		}
	})
	c.Sub("cosine-parallel", 40000, func(c *Case) {
		// parallel vectors: distances are 0 up to rounding
		space := cosinus.NewSpace()
		dim := rapid.IntRange(1, 6).Draw(c.T, "dim")
		base := nonZero(vector(c.T, dim, 2, "v"))
		scale := func() core.Elemt {
			f := float64(rapid.IntRange(1, 5000).Draw(c.T, "f")) / 997
			if rapid.IntRange(0, 3).Draw(c.T, "other") == 0 {
				return nonZero(vector(c.T, dim, 2, "o"))
			}
			r := make([]float64, dim)
			for i := range r {
				r[i] = base[i] * f
			}
			return r
		}
		clust := make(core.Clust, rapid.IntRange(1, 6).Draw(c.T, "k"))
		for i := range clust {
			clust[i] = scale()
		}
		e := scale()
		c.Data("cosine centroids %s element %v", show(clust), e)
		c.Nontrivial(len(clust) > 1)
		centroid, label, dist := clust.Assign(e, space)
		if m := checkAssign(clust, e, space, centroid, label, dist); m != "" {
			c.Failf("Assign: %s", m)
		}
	})
	c.Sub("maplabel", 20000, func(c *Case) {
		s := anySp(c.T)
		clust := core.Clust(s.elemts(c.T, 0, 5, "c"))
		data := s.elemts(c.T, 0, 10, "d")
		c.Data("space %s centroids %s data %s", s.name, show(clust), show(data))
		c.Nontrivial(len(clust) > 1 && len(data) > 1)
		labels, dists := clust.MapLabel(data, s.space)
		if len(labels) != len(data) || len(dists) != len(data) {
			c.Failf("MapLabel: %d labels and %d distances for %d elements", len(labels), len(dists), len(data))
		}
		for i, e := range data {
			_, l, d := clust.Assign(e, s.space)
			if l != labels[i] || d != dists[i] {
				c.Failf("MapLabel: element %d is (%d,%v), Assign gives (%d,%v)", i, labels[i], dists[i], l, d)
			}
			if len(clust) > 0 {
				if m := checkAssign(clust, e, s.space, clust[l], labels[i], dists[i]); m != "" {
					c.Failf("MapLabel element %d: %s", i, m)
				}
			}
		}
	})
	c.Sub("predict", 6000, func(c *Case) {
		s := anySp(c.T)
		// clusterings published by initialisation and by each iteration (nil: none published)
		var pubs []core.Clust
		for i := rapid.IntRange(1, 4).Draw(c.T, "npub"); i > 0; i-- {
			var p core.Clust
			if rapid.IntRange(0, 4).Draw(c.T, "nopub") > 0 {
				p = core.Clust(s.elemts(c.T, 0, 4, "p"))
			}
			pubs = append(pubs, p)
		}
		// those of a second run
		var pubs2 []core.Clust
		for i := rapid.IntRange(0, 4).Draw(c.T, "npub2"); i > 0; i-- {
			pubs2 = append(pubs2, core.Clust(s.elemts(c.T, 0, 4, "p")))
		}
		failInit := rapid.IntRange(0, 9).Draw(c.T, "failInit") == 0
		es := s.elemts(c.T, 1, 3, "e")
		c.Data("space %s clusterings %v then %v elements %s failInit %v", s.name, pubs, pubs2, show(es), failInit)
		c.Nontrivial(len(pubs) > 1 && !failInit)
		c.Class(len(pubs2) > 1 && !failInit, "second run")
		c.bubble(t, func() string {
			m := newMock()
			m.init = func(core.OCModel) (core.Clust, error) {
				if failInit {
					return pubs[0], errors.New("init")
				}
				return pubs[0], nil
			}
			m.iter = func(n int, _ core.OCModel) (core.Clust, core.RuntimeFigures, error) {
				time.Sleep(10 * time.Millisecond)
				if n < len(pubs) {
					return pubs[n], nil, nil
				}
				return core.Clust{}, nil, errors.New("end")
			}
			algo := core.NewAlgo(&core.CtrlConf{}, m, s.space)
			agree := func(when string) string {
				for _, e := range es {
					centroid, label, dist := algo.Predict(e)
					if m := checkAssign(algo.Centroids(), e, s.space, centroid, label, dist); m != "" {
						return "Predict " + when + ": " + m
					}
				}
				return ""
			}
			if msg := agree("when created"); msg != "" {
				return msg
			}
			if _, label, _ := algo.Predict(es[0]); label != -1 {
				return fmt.Sprintf("Predict before initialisation: label %d", label)
			}
			err := algo.Init()
			if (err != nil) != failInit {
				return fmt.Sprintf("Init: %v", err)
			}
			if msg := agree("after Init"); msg != "" || failInit {
				return msg
			}
			if !sameAll(algo.Centroids(), pubs[0]) {
				return fmt.Sprintf("centroids after Init are %v", algo.Centroids())
			}
			if err := algo.Play(); err != nil {
				return fmt.Sprint("Play: ", err)
			}
			time.Sleep(5 * time.Millisecond)
			last := pubs[0]
			for n := 1; n < len(pubs); n++ {
				time.Sleep(10 * time.Millisecond)
				if pubs[n] != nil {
					last = pubs[n]
				}
				if !sameAll(algo.Centroids(), last) {
					return fmt.Sprintf("centroids after iteration %d are %v, want %v", n, algo.Centroids(), last)
				}
				if msg := agree(fmt.Sprint("after iteration ", n)); msg != "" {
					return msg
				}
			}
			time.Sleep(50 * time.Millisecond)
			if msg := agree("after the end"); msg != "" || len(pubs2) == 0 {
				return msg
			}
			pubs = pubs2
			algo.Stop()
			if msg := agree("after Stop"); msg != "" {
				return msg
			}
			if err := algo.Init(); err != nil {
				return fmt.Sprintf("second Init: %v", err)
			}
			if msg := agree("after the second Init"); msg != "" {
				return msg
			}
			algo.Play()
			time.Sleep(5 * time.Millisecond)
			for n := 1; n < len(pubs); n++ {
				time.Sleep(10 * time.Millisecond)
				if !sameAll(algo.Centroids(), pubs[n]) {
					return fmt.Sprintf("centroids after iteration %d of the second run are %v, want %v", n, algo.Centroids(), pubs[n])
				}
				if msg := agree(fmt.Sprintf("after iteration %d of the second run", n)); msg != "" {
					return msg
				}
			}
			time.Sleep(50 * time.Millisecond)
			return agree("after the second end")
		})
	})
	c.Sub("large", 25, largeAssign)
}

// yieldSpace makes workers interleave
type yieldSpace struct {
	core.Space
	n     *atomic.Int64
	every int64
}

func (s yieldSpace) yield() {
	if s.n.Add(1)%s.every == 0 {
		runtime.Gosched()
	}
}
func (s yieldSpace) Dist(a, b core.Elemt) float64 { s.yield(); return s.Space.Dist(a, b) }
func (s yieldSpace) Combine(a core.Elemt, wa int, b core.Elemt, wb int) core.Elemt {
	s.yield()
	return s.Space.Combine(a, wa, b, wb)
}
func (s yieldSpace) Copy(a core.Elemt) core.Elemt { s.yield(); return s.Space.Copy(a) }

func vectorSp(t *rapid.T) sp {
	switch rapid.IntRange(0, 5).Draw(t, "vspace") {
	case 0:
		return cosinusSp(t)
	case 1:
		return lineSp(t)
	case 2:
		return pairSp(t)
	default:
		return euclidSp(t)
	}
}

func drawNorm(t *rapid.T) float64 {
	return []float64{1, 2, 0.5, 1.5, 3, 0, 4, 5, 6, 7, 8, 10, 2.5, 0.25, 16}[rapid.IntRange(0, 14).Draw(t, "norm")]
}

func drawLabels(t *rapid.T, n, k int) []int {
	l := make([]int, n)
	hi := k - 1
	if rapid.Bool().Draw(t, "few") && hi > 0 {
		hi = rapid.IntRange(0, hi).Draw(t, "hi") // some labels unused
	}
	for i := range l {
		l[i] = rapid.IntRange(0, hi).Draw(t, "l")
	}
	return l
}

// refClusters is the naive definition of losses, cardinalities and means (Euclidean-like spaces) per label
func refLosses(clust core.Clust, data []core.Elemt, labels []int, space core.Space, norm float64) (losses []float64, cards []int) {
	losses, cards = make([]float64, len(clust)), make([]int, len(clust))
	for i, e := range data {
		losses[labels[i]] += math.Pow(space.Dist(e, clust[labels[i]]), norm)
		cards[labels[i]]++
	}
	return
}

func coords(e core.Elemt) []float64 {
	switch v := e.(type) {
	case []float64:
		return v
	case float64:
		return []float64{v}
	case *pairElt:
		return []float64{v.X, v.Y}
	}
	panic(fmt.Sprintf("no coordinates: %T", e))
}

// refMean is the weighted arithmetic mean, compensated
func refMean(data []core.Elemt, weights []int) []float64 {
	var r []float64
	total := 0.
	for i, e := range data {
		v := coords(e)
		if r == nil {
			r = make([]float64, len(v))
		}
		w := 1
		if weights != nil {
			w = weights[i]
		}
		total += float64(w)
		for j := range v {
			r[j] += v[j] * float64(w)
		}
	}
	for j := range r {
		r[j] /= total
	}
	return r
}

func byLabel(data []core.Elemt, labels []int, k int) [][]core.Elemt {
	r := make([][]core.Elemt, k)
	for i, e := range data {
		r[labels[i]] = append(r[labels[i]], e)
	}
	return r
}

func nearLosses(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !near(a[i], b[i], 1e-9) {
			return false
		}
	}
	return true
}

func nearMean(e core.Elemt, mean []float64, data []core.Elemt) bool {
	if e == nil {
		return false
	}
	v := coords(e)
	if len(v) != len(mean) {
		return false
	}
	tol := 1e-9 * maxAbs(data...)
	for i := range v {
		if !(math.Abs(v[i]-mean[i]) <= tol) {
			return false
		}
	}
	return true
}

func TestC02(t *testing.T) {
	c := newCheck(t, "C02", "random space, 0..40 elements, 1..6 centroids, arbitrary labels, degree 1..64 including more than elements, workers made to yield; non-trivial: degree > 1 and at least 2 elements")
	c.Sub("par", 3000, func(c *Case) {
		s := anySp(c.T)
		mean := rapid.Bool().Draw(c.T, "meanspace")
		if mean {
			s = vectorSp(c.T)
		}
		clust := core.Clust(s.elemts(c.T, 1, 6, "c"))
		data := s.elemts(c.T, 0, []int{6, 40}[rapid.IntRange(0, 1).Draw(c.T, "big")], "d")
		degree := rapid.IntRange(1, 64).Draw(c.T, "degree")
		if rapid.Bool().Draw(c.T, "small") {
			degree = rapid.IntRange(1, 9).Draw(c.T, "degree")
		} else if rarely(c.T, 3) {
			degree = rapid.IntRange(65, []int{300, 1000, 3000}[rapid.IntRange(0, 2).Draw(c.T, "degreekind")]).Draw(c.T, "degree")
		}
		norm := drawNorm(c.T)
		labels := drawLabels(c.T, len(data), len(clust))
		c.Data("space %s centroids %s data %s degree %d norm %v labels %v", s.name, show(clust), show(data), degree, norm, labels)
		c.Nontrivial(degree > 1 && len(data) > 1)
		c.Class(degree > len(data), "degree > size")
		c.Class(len(data) == 0, "no data")
		space := yieldSpace{s.space, new(atomic.Int64), int64(rapid.IntRange(1, 7).Draw(c.T, "every"))}

		l1, d1 := clust.MapLabel(data, space)
		l2, d2 := clust.ParMapLabel(data, space, degree)
		if !sameInts(l1, l2) || !sameFloats(d1, d2) {
			c.Failf("ParMapLabel is %v %v, sequential %v %v", l2, d2, l1, d1)
		}
		lo1, c1 := refLosses(clust, data, l1, s.space, norm)
		lo2, c2 := clust.ParReduceLoss(data, space, norm, degree)
		if !sameInts(c1, c2) || !nearLosses(lo1, lo2) {
			c.Failf("ParReduceLoss is %v %v, want %v %v", lo2, c2, lo1, c1)
		}
		lo1, c1 = clust.ReduceLoss(data, space, norm)
		if !sameInts(c1, c2) || !nearLosses(lo1, lo2) {
			c.Failf("ParReduceLoss is %v %v, sequential %v %v", lo2, c2, lo1, c1)
		}
		if a, b := clust.TotalLoss(data, space, norm), clust.ParTotalLoss(data, space, norm, degree); !near(a, b, 1e-9) {
			c.Failf("ParTotalLoss is %v, sequential %v", b, a)
		}
		lo1, c1 = clust.ReduceLossForLabels(data, labels, space, norm)
		lo2, c2 = clust.ParReduceLossForLabels(data, labels, space, norm, degree)
		if !sameInts(c1, c2) || !nearLosses(lo1, lo2) {
			c.Failf("ParReduceLossForLabels is %v %v, sequential %v %v", lo2, c2, lo1, c1)
		}
		if ro, rc := refLosses(clust, data, labels, s.space, norm); !sameInts(rc, c2) || !nearLosses(ro, lo2) {
			c.Failf("ParReduceLossForLabels is %v %v, want %v %v", lo2, c2, ro, rc)
		}
		// averages
		_, c1 = clust.ReduceDBA(data, space)
		m2, c2 := clust.ParReduceDBA(data, space, degree)
		if !sameInts(c1, c2) || len(m2) != len(clust) {
			c.Failf("ParReduceDBA cardinalities are %v, sequential %v", c2, c1)
		}
		groups := byLabel(data, l1, len(clust))
		for i := range clust {
			if len(groups[i]) == 0 {
				if c2[i] != 0 || !same(m2[i], clust[i]) {
					c.Failf("ParReduceDBA: empty cluster %d becomes %v with cardinality %d", i, m2[i], c2[i])
				}
			} else if mean && !nearMean(m2[i], refMean(groups[i], nil), groups[i]) {
				c.Failf("ParReduceDBA: cluster %d is %v, want %v", i, m2[i], refMean(groups[i], nil))
			}
		}
		m1, c1 := clust.ReduceDBAForLabels(data, labels, space)
		m3, c3 := clust.ParReduceDBAForLabels(data, labels, space, degree)
		if !sameInts(c1, c3) || len(m3) != len(clust) {
			c.Failf("ParReduceDBAForLabels cardinalities are %v, sequential %v", c3, c1)
		}
		groups = byLabel(data, labels, len(clust))
		for i := range clust {
			if len(groups[i]) > 0 && mean {
				want := refMean(groups[i], nil)
				if !nearMean(m3[i], want, groups[i]) || !nearMean(m1[i], want, groups[i]) {
					c.Failf("DBAForLabels: cluster %d is %v in parallel, %v sequentially, want %v", i, m3[i], m1[i], want)
				}
			}
		}
	})
	c.Sub("large", 4, largePar)
}

func TestC03(t *testing.T) {
	c := newCheck(t, "C03", "random space, centroids, data, labels and exponent against the naive definition; non-trivial: at least 2 centroids and 2 elements")
	c.Sub("losses", 40000, func(c *Case) {
		s := anySp(c.T)
		clust := core.Clust(s.elemts(c.T, 1, 6, "c"))
		data := s.elemts(c.T, 0, 12, "d")
		norm := drawNorm(c.T)
		labels := drawLabels(c.T, len(data), len(clust))
		c.Data("space %s centroids %s data %s norm %v labels %v", s.name, show(clust), show(data), norm, labels)
		c.Nontrivial(len(clust) > 1 && len(data) > 1)
		nl := make([]int, len(data))
		for i, e := range data {
			nl[i], _ = bruteNearest(clust, e, s.space)
		}
		check := func(what string, l []float64, cards []int, labels []int) {
			wl, wc := refLosses(clust, data, labels, s.space, norm)
			if !nearLosses(l, wl) || !sameInts(cards, wc) {
				c.Failf("%s is %v %v, want %v %v", what, l, cards, wl, wc)
			}
			n := 0
			for i := range cards {
				n += cards[i]
				if cards[i] == 0 && l[i] != 0 {
					c.Failf("%s: empty cluster has loss %v", what, l[i])
				}
				c.Class(cards[i] == 0, "empty cluster")
			}
			if n != len(data) {
				c.Failf("%s: cardinalities %v do not sum to %d", what, cards, len(data))
			}
		}
		l, cards := clust.ReduceLoss(data, s.space, norm)
		check("ReduceLoss", l, cards, nl)
		sum := 0.
		for _, x := range l {
			sum += x
		}
		if tl := clust.TotalLoss(data, s.space, norm); !near(tl, sum, 1e-9) {
			c.Failf("TotalLoss is %v, want %v", tl, sum)
		}
		l, cards = clust.ReduceLossForLabels(data, labels, s.space, norm)
		check("ReduceLossForLabels", l, cards, labels)
		degree := rapid.IntRange(1, 5).Draw(c.T, "degree")
		l, cards = clust.ParReduceLoss(data, s.space, norm, degree)
		check("ParReduceLoss", l, cards, nl)
		l, cards = clust.ParReduceLossForLabels(data, labels, s.space, norm, degree)
		check("ParReduceLossForLabels", l, cards, labels)
	})
	c.Sub("large", 25, largeLosses)
}

func scramble(e core.Elemt) {
	switch v := e.(type) {
	case []float64:
		for i := range v {
			v[i] = 12345.5
		}
	case [][]float64:
		for i := range v {
			scramble(v[i])
		}
	case *pairElt:
		v.X, v.Y = 12345.5, -1
	}
}

func TestC04(t *testing.T) {
	c := newCheck(t, "C04", "random vector-like space, elements and positive weights; means against exact ones, results overwritten to detect aliasing; non-trivial: at least 2 elements")
	c.Sub("dba", 40000, func(c *Case) {
		s := vectorSp(c.T)
		data := s.elemts(c.T, 0, 10, "d")
		weights := make([]int, len(data))
		for i := range weights {
			weights[i] = drawWeight(c.T)
		}
		c.Data("space %s data %s weights %v", s.name, show(data), weights)
		c.Nontrivial(len(data) > 1)
		before := deepCopies(data)
		wbefore := append([]int{}, weights...)
		a, err := core.DBA(data, s.space)
		b, errw := core.WeightedDBA(data, weights, s.space)
		if !sameInts(weights, wbefore) {
			c.Failf("WeightedDBA changes the weights: %v", weights)
		}
		if len(data) == 0 {
			if err == nil || errw == nil {
				c.Failf("averaging nothing is not an error: %v %v", err, errw)
			}
			return
		}
		if err != nil || errw != nil {
			c.Failf("errors: %v %v", err, errw)
		}
		if !nearMean(a, refMean(data, nil), data) {
			c.Failf("DBA is %v, want %v", a, refMean(data, nil))
		}
		if !nearMean(b, refMean(data, weights), data) {
			c.Failf("WeightedDBA is %v, want %v", b, refMean(data, weights))
		}
		scramble(a)
		if nb := refMean(before, weights); !nearMean(b, nb, before) {
			c.Failf("DBA and WeightedDBA results share memory")
		}
		scramble(b)
		if !sameAll(data, before) {
			c.Failf("averaging alters or aliases the data: %s", show(data))
		}
	})
	c.Sub("clusters", 30000, func(c *Case) {
		s := vectorSp(c.T)
		clust := core.Clust(s.elemts(c.T, 1, 5, "c"))
		data := s.elemts(c.T, 0, 10, "d")
		labels := drawLabels(c.T, len(data), len(clust))
		degree := rapid.IntRange(1, 6).Draw(c.T, "degree")
		c.Data("space %s centroids %s data %s labels %v degree %d", s.name, show(clust), show(data), labels, degree)
		c.Nontrivial(len(data) > 1 && len(clust) > 1)
		nl := make([]int, len(data))
		for i, e := range data {
			nl[i], _ = bruteNearest(clust, e, s.space)
		}
		dataB, clustB := deepCopies(data), deepCopies(clust)
		check := func(what string, means []core.Elemt, cards []int, labels []int) {
			groups := byLabel(dataB, labels, len(clust))
			if len(means) != len(clust) || len(cards) != len(clust) {
				c.Failf("%s: %d means, %d cardinalities", what, len(means), len(cards))
			}
			for i := range groups {
				if cards[i] != len(groups[i]) {
					c.Failf("%s: cardinalities %v", what, cards)
				}
				if len(groups[i]) > 0 {
					if !nearMean(means[i], refMean(groups[i], nil), groups[i]) {
						c.Failf("%s: mean %d is %v, want %v", what, i, means[i], refMean(groups[i], nil))
					}
				}
			}
			for i := range means {
				if len(groups[i]) > 0 {
					scramble(means[i]) // fresh elements only
				}
			}
			if !sameAll(data, dataB) || !sameAll(clust, clustB) {
				c.Failf("%s alters or aliases data or centroids: %s %s", what, show(data), show(clust))
			}
		}
		m, cards := clust.ReduceDBA(data, s.space)
		check("ReduceDBA", m, cards, nl)
		m2, cards := clust.ReduceDBAForLabels(data, labels, s.space)
		check("ReduceDBAForLabels", m2, cards, labels)
		m, cards = clust.ParReduceDBA(data, s.space, degree)
		check("ParReduceDBA", m, cards, nl)
		m2, cards = clust.ParReduceDBAForLabels(data, labels, s.space, degree)
		check("ParReduceDBAForLabels", m2, cards, labels)
	})
	c.Sub("large", 20, largeMeans)
}

func checkPar(size, degree int, slow func(rank int)) string {
	var mu sync.Mutex
	type rg struct{ s, e int }
	calls := map[int][]rg{}
	var finished atomic.Int64
	core.Par(func(start, end, rank int) {
		mu.Lock()
		calls[rank] = append(calls[rank], rg{start, end})
		mu.Unlock()
		slow(rank)
		finished.Add(1)
	}, size, degree)
	if n := int(finished.Load()); n != degree {
		return fmt.Sprintf("Par returned while %d of %d processes had finished", n, degree)
	}
	mu.Lock()
	defer mu.Unlock()
	pos, lo, hi := 0, size, 0
	if len(calls) != degree {
		return fmt.Sprintf("ranks called: %v", calls)
	}
	for r := 0; r < degree; r++ {
		if len(calls[r]) != 1 {
			return fmt.Sprintf("rank %d called %d times: %v", r, len(calls[r]), calls)
		}
		g := calls[r][0]
		if g.s != pos || g.e < g.s {
			return fmt.Sprintf("rank %d gets [%d,%d), want a range from %d: %v", r, g.s, g.e, pos, calls)
		}
		pos = g.e
		lo, hi = min(lo, g.e-g.s), max(hi, g.e-g.s)
	}
	if pos != size {
		return fmt.Sprintf("covers %d of %d: %v", pos, size, calls)
	}
	if hi-lo > 1 {
		return fmt.Sprintf("range lengths between %d and %d: %v", lo, hi, calls)
	}
	return ""
}

func TestC05(t *testing.T) {
	c := newCheck(t, "C05", "sizes and degrees: random, plus exhaustive 0..40 x 1..40, processes of random speed; non-trivial: degree > 1 and size > 0")
	c.Sub("random", 20000, func(c *Case) {
		size := rapid.IntRange(0, []int{12, 200, 100000, 1 << 40}[rapid.IntRange(0, 3).Draw(c.T, "k")]).Draw(c.T, "size")
		degree := rapid.IntRange(1, []int{12, 100, 600}[rapid.IntRange(0, 2).Draw(c.T, "k")]).Draw(c.T, "degree")
		slow := rapid.IntRange(-1, degree-1).Draw(c.T, "slow")
		c.Data("size %d degree %d slow rank %d", size, degree, slow)
		c.Nontrivial(degree > 1 && size > 0)
		c.Class(size < degree, "size < degree")
		c.Class(size%degree != 0, "uneven")
		m := checkPar(size, degree, func(rank int) {
			if rank == slow {
				time.Sleep(50 * time.Microsecond)
			} else if rank%3 == 0 {
				runtime.Gosched()
			}
		})
		if m != "" {
			c.Failf("%s", m)
		}
	})
	c.Sub("panics", 2000, func(c *Case) {
		size, degree := rapid.IntRange(0, 50).Draw(c.T, "size"), rapid.IntRange(1, 20).Draw(c.T, "degree")
		if rarely(c.T, 4) { // many of them
			size, degree = manyOf(c.T, 11, "large size"), manyOf(c.T, 11, "large degree")
		}
		faulty := rapid.SliceOfNDistinct(rapid.IntRange(0, degree-1), 1, min(3, degree), rapid.ID[int]).Draw(c.T, "panicking ranks")
		late := rapid.Bool().Draw(c.T, "late")
		c.Data("size %d degree %d, processes %v panic", size, degree, faulty)
		c.Nontrivial(degree > 1)
		c.Class(len(faulty) > 1, "several panics")
		var finished, panicking atomic.Int64
		var cause any
		func() {
			defer func() { cause = recover() }()
			core.Par(func(start, end, rank int) {
				for _, r := range faulty {
					if r == rank {
						if late {
							time.Sleep(20 * time.Microsecond)
						}
						panicking.Add(1)
						panic(fmt.Sprintf("scripted panic of rank %d", rank))
					}
				}
				if !late {
					time.Sleep(20 * time.Microsecond)
				}
				finished.Add(1)
			}, size, degree)
		}()
		if finished.Load() != int64(degree-len(faulty)) || panicking.Load() != int64(len(faulty)) {
			c.Failf("Par gives up while %d of %d processes had finished, %d panicked", finished.Load(), degree, panicking.Load())
		}
		ok := false
		for _, r := range faulty {
			ok = ok || strings.Contains(fmt.Sprint(cause), fmt.Sprintf("scripted panic of rank %d", r))
		}
		if !ok {
			c.Failf("the caller of Par recovers %v", cause)
		}
	})
	c.Sub("exhaustive", 1, func(c *Case) {
		c.Data("all sizes 0..64 and degrees 1..48")
		c.Nontrivial(true)
		for size := 0; size <= 64; size++ {
			for degree := 1; degree <= 48; degree++ {
				if m := checkPar(size, degree, func(int) {}); m != "" {
					c.Failf("size %d degree %d: %s", size, degree, m)
				}
			}
		}
	})
}
