package distclusverif

import (
	"fmt"

	"golang.org/x/exp/rand"
	"pgregory.net/rapid"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
)

// large is a case with tens of thousands of elements, derived from a drawn seed
type large struct {
	space       core.Space
	clust       core.Clust
	data        []core.Elemt
	labels      []int // arbitrary
	nearest     []int
	degree      int
	norm        float64
	description string
}

func drawLarge(t *rapid.T, limit int) *large {
	l := &large{}
	n := rapid.SampledFrom([]int{2000, 20000, limit}).Draw(t, "about")
	n -= rapid.IntRange(0, n/4).Draw(t, "less")
	k := rapid.IntRange(1, 5).Draw(t, "k")
	seed := rapid.IntRange(1, 1<<30).Draw(t, "seed")
	plane := rapid.Bool().Draw(t, "plane")
	values := rapid.SampledFrom([]int{3, 50, 1000}).Draw(t, "values")
	skew := rapid.IntRange(0, 3).Draw(t, "skew")
	l.degree = rapid.IntRange(1, 20).Draw(t, "degree")
	l.norm = float64(rapid.IntRange(1, 2).Draw(t, "norm"))
	g := rand.New(rand.NewSource(uint64(seed)))
	number := func() float64 { return float64(g.Intn(2*values+1) - values) }
	elemt := func() core.Elemt {
		if plane {
			return []float64{number(), number()}
		}
		return number()
	}
	l.space = lineSpace{}
	if plane {
		l.space = euclid.NewSpace()
	}
	for i := 0; i < k; i++ {
		l.clust = append(l.clust, elemt())
	}
	l.data = make([]core.Elemt, n)
	l.labels, l.nearest = make([]int, n), make([]int, n)
	for i := range l.data {
		l.data[i] = elemt()
		l.labels[i] = g.Intn(k)
		if g.Intn(4) < skew { // most elements in a cluster
			l.labels[i] = k - 1
		}
		l.nearest[i], _ = bruteNearest(l.clust, l.data[i], l.space)
	}
	l.description = fmt.Sprintf("large: %d elements (plane %v, values up to %d, skew %d, seed %d) centroids %s degree %d norm %v",
		n, plane, values, skew, seed, show(l.clust), l.degree, l.norm)
	return l
}

func (l *large) of(c *Case) *large {
	c.Data("%s", l.description)
	c.Nontrivial(len(l.clust) > 1)
	c.Class(true, "large")
	return l
}

func (l *large) losses(c *Case, what string, labels []int, got []float64, cards []int) {
	wl, wc := refLosses(l.clust, l.data, labels, l.space, l.norm)
	if !sameInts(cards, wc) || !nearLosses(got, wl) {
		c.Failf("%s is %v %v, want %v %v", what, got, cards, wl, wc)
	}
}

func (l *large) means(c *Case, what string, labels []int, got []core.Elemt, cards []int) {
	groups := byLabel(l.data, labels, len(l.clust))
	if len(got) != len(groups) || len(cards) != len(groups) {
		c.Failf("%s: %d means and %d cardinalities", what, len(got), len(cards))
	}
	for i, g := range groups {
		if cards[i] != len(g) {
			c.Failf("%s: cluster %d has cardinality %d, want %d", what, i, cards[i], len(g))
		}
		if len(g) > 0 && !nearMean(got[i], refMean(g, nil), g) {
			c.Failf("%s: mean %d is %v, want %v", what, i, got[i], refMean(g, nil))
		}
	}
}

func largeAssign(c *Case) {
	l := drawLarge(c.T, 140000).of(c)
	labels, dists := l.clust.MapLabel(l.data, l.space)
	if !sameInts(labels, l.nearest) || len(dists) != len(l.data) {
		c.Failf("MapLabel does not give the nearest centroids")
	}
	for i, e := range l.data {
		if d := l.space.Dist(e, l.clust[labels[i]]); d != dists[i] {
			c.Failf("MapLabel: distance %d is %v, want %v", i, dists[i], d)
		}
	}
}

func largePar(c *Case) {
	l := drawLarge(c.T, 140000).of(c)
	l1, d1 := l.clust.MapLabel(l.data, l.space)
	l2, d2 := l.clust.ParMapLabel(l.data, l.space, l.degree)
	if !sameInts(l1, l2) || !sameFloats(d1, d2) {
		c.Failf("ParMapLabel differs from MapLabel")
	}
	lo, cards := l.clust.ParReduceLoss(l.data, l.space, l.norm, l.degree)
	l.losses(c, "ParReduceLoss", l.nearest, lo, cards)
	s := 0.
	for _, x := range lo {
		s += x
	}
	if tl := l.clust.ParTotalLoss(l.data, l.space, l.norm, l.degree); !near(tl, s, 1e-9) {
		c.Failf("ParTotalLoss is %v, want %v", tl, s)
	}
	lo, cards = l.clust.ParReduceLossForLabels(l.data, l.labels, l.space, l.norm, l.degree)
	l.losses(c, "ParReduceLossForLabels", l.labels, lo, cards)
	m, cards := l.clust.ParReduceDBAForLabels(l.data, l.labels, l.space, l.degree)
	l.means(c, "ParReduceDBAForLabels", l.labels, m, cards)
	cl, cards := l.clust.ParReduceDBA(l.data, l.space, l.degree)
	l.means(c, "ParReduceDBA", l.nearest, cl, cards)
}

func largeLosses(c *Case) {
	l := drawLarge(c.T, 140000).of(c)
	lo, cards := l.clust.ReduceLoss(l.data, l.space, l.norm)
	l.losses(c, "ReduceLoss", l.nearest, lo, cards)
	s := 0.
	for _, x := range lo {
		s += x
	}
	if tl := l.clust.TotalLoss(l.data, l.space, l.norm); !near(tl, s, 1e-9) {
		c.Failf("TotalLoss is %v, want %v", tl, s)
	}
	lo, cards = l.clust.ReduceLossForLabels(l.data, l.labels, l.space, l.norm)
	l.losses(c, "ReduceLossForLabels", l.labels, lo, cards)
	lo, cards = l.clust.ParReduceLoss(l.data, l.space, l.norm, l.degree)
	l.losses(c, "ParReduceLoss", l.nearest, lo, cards)
	lo, cards = l.clust.ParReduceLossForLabels(l.data, l.labels, l.space, l.norm, l.degree)
	l.losses(c, "ParReduceLossForLabels", l.labels, lo, cards)
}

func largeMeans(c *Case) {
	l := drawLarge(c.T, 140000).of(c)
	m, cards := l.clust.ReduceDBAForLabels(l.data, l.labels, l.space)
	l.means(c, "ReduceDBAForLabels", l.labels, m, cards)
	m, cards = l.clust.ParReduceDBAForLabels(l.data, l.labels, l.space, l.degree)
	l.means(c, "ParReduceDBAForLabels", l.labels, m, cards)
	cl, cards := l.clust.ReduceDBA(l.data, l.space)
	l.means(c, "ReduceDBA", l.nearest, cl, cards)
	cl, cards = l.clust.ParReduceDBA(l.data, l.space, l.degree)
	l.means(c, "ParReduceDBA", l.nearest, cl, cards)
	a, err := core.DBA(l.data, l.space)
	if err != nil || !nearMean(a, refMean(l.data, nil), l.data) {
		c.Failf("DBA is %v (%v), want %v", a, err, refMean(l.data, nil))
	}
	weights := make([]int, len(l.data))
	for i := range weights {
		weights[i] = 1 + i*i%70000
	}
	a, err = core.WeightedDBA(l.data, weights, l.space)
	if err != nil || !nearMean(a, refMean(l.data, weights), l.data) {
		c.Failf("WeightedDBA is %v (%v), want %v", a, err, refMean(l.data, weights))
	}
}
