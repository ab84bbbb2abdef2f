package distclusverif

import (
	"fmt"
	"math"
	"strings"
	"testing"
	"time"

	"golang.org/x/exp/rand"
	"pgregory.net/rapid"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
	"github.com/wearelumenai/distclus/mcmc"
)

// window models a data buffer: visible elements and staged ones
type windowModel struct {
	size    int
	visible []int
	staged  []int
}

func (w *windowModel) add(e int) {
	w.visible = append(w.visible, e)
	if w.size > 0 && len(w.visible) > w.size {
		w.visible = w.visible[len(w.visible)-w.size:]
	}
}

func (w *windowModel) push(e int, running bool) {
	if running {
		w.staged = append(w.staged, e)
		return
	}
	w.apply()
	w.add(e)
}

func (w *windowModel) apply() {
	for _, e := range w.staged {
		w.add(e)
	}
	w.staged = nil
}

func (w *windowModel) check(data []core.Elemt) string {
	if len(data) != len(w.visible) {
		return fmt.Sprintf("holds %d elements, want %d", len(data), len(w.visible))
	}
	for i, e := range data {
		if e.(int) != w.visible[i] {
			return fmt.Sprintf("element %d is %v, want %d (holds %v, want %v)", i, e, w.visible[i], data, w.visible)
		}
	}
	return ""
}

func TestC11(t *testing.T) {
	c := newCheck(t, "C11", "random histories of pushes (running or not, single or by batches up to several thousands), applies and reads over frame sizes 0..12 (and large), initial data of 0..20 elements; non-trivial: at least one staged element applied and more elements than the frame")
	c.Sub("history", 20000, func(c *Case) {
		size := rapid.IntRange(-1, 12).Draw(c.T, "frame")
		if rapid.IntRange(0, 20).Draw(c.T, "large") == 0 {
			size = rapid.IntRange(1, 3000).Draw(c.T, "frame")
		}
		next := 0
		initial := make([]core.Elemt, rapid.IntRange(0, 20).Draw(c.T, "n"), 64)
		w := &windowModel{size: size}
		for i := range initial {
			initial[i] = next
			w.add(next)
			next++
		}
		spare := initial[:cap(initial)]
		for i := len(initial); i < len(spare); i++ {
			spare[i] = -1
		}
		given := append([]core.Elemt{}, spare...)
		type op struct{ kind, n int }
		ops := make([]op, rapid.IntRange(1, 25).Draw(c.T, "nops"))
		for i := range ops {
			ops[i] = op{rapid.IntRange(0, 5).Draw(c.T, "op"), 1}
			switch rapid.IntRange(0, 60).Draw(c.T, "batch") {
			case 0, 1, 2, 3, 4, 5, 6:
				ops[i].n = rapid.IntRange(2, 15).Draw(c.T, "k")
			case 60:
				ops[i].n = rapid.IntRange(1000, 6000).Draw(c.T, "k")
			}
		}
		c.Data("frame %d initial %d ops %v (0-1 push, 2-3 push running, 4 apply, 5 read)", size, len(initial), ops)
		applied := false
		buffer := core.NewDataBuffer(initial, size)
		var b core.Buffer = buffer
		type snapshot struct{ read, copied []core.Elemt }
		var snaps []snapshot
		if m := w.check(b.Data()); m != "" {
			c.Failf("initially: %s", m)
		}
		for i, o := range ops {
			switch o.kind {
			case 4:
				applied = applied || len(w.staged) > 0
				if err := b.Apply(); err != nil {
					c.Failf("Apply: %v", err)
				}
				w.apply()
			case 5:
			default:
				running := o.kind >= 2
				for k := 0; k < o.n; k++ {
					if err := b.Push(next, running); err != nil {
						c.Failf("Push: %v", err)
					}
					w.push(next, running)
					next++
				}
			}
			d := b.Data()
			if m := w.check(d); m != "" {
				c.Failf("after operation %d: %s", i, m)
			}
			snaps = append(snaps, snapshot{d, append([]core.Elemt{}, d...)})
		}
		c.Nontrivial(applied && size > 0 && next > size)
		c.Class(size > 0 && next > size, "frame overflown")
		c.Class(applied, "staged applied")
		for i := range spare {
			if spare[i] != given[i] {
				c.Failf("the caller's slice is changed at %d (length %d): %v", i, len(initial), spare[i])
			}
		}
		for i, p := range snaps {
			if !sameAll(p.read, p.copied) {
				c.Failf("data read after operation %d later become %v, were %v", i, p.read, p.copied)
			}
		}
		// the buffer does not depend on the caller's slice either
		for i := range initial {
			initial[i] = -7
		}
		if m := w.check(b.Data()); m != "" {
			c.Failf("after the caller changed its slice: %s", m)
		}
	})
	c.Sub("crowd", 4000, func(c *Case) { crowdBuffer(c, t) })
}

func scriptedRand(t *rapid.T) (*rand.Rand, string) {
	n := rapid.IntRange(0, 6).Draw(t, "nwords")
	words := make([]uint64, n)
	for i := range words {
		words[i] = drawWord(t)
	}
	seed := uint64(rapid.IntRange(1, 1<<30).Draw(t, "seed"))
	if rarely(t, 4) { // the same number many times
		w := drawWord(t)
		stuck := rapid.IntRange(1, []int{40, 400, 5000}[rapid.IntRange(0, 2).Draw(t, "stuckkind")]).Draw(t, "stuck")
		for i := 0; i < stuck; i++ {
			words = append(words, w)
		}
		desc := fmt.Sprintf("random words %x, %d times, then seed %d", words[:n+1], stuck, seed)
		return rand.New(&scripted{vals: words, next: rand.NewSource(seed)}), desc
	}
	desc := fmt.Sprintf("random words %x then seed %d", words, seed)
	return rand.New(&scripted{vals: append([]uint64{}, words...), next: rand.NewSource(seed)}), desc
}

func indexOf(data []core.Elemt, e core.Elemt) int {
	for i := range data {
		if same(data[i], e) {
			return i
		}
	}
	return -1
}

// submultiset reports whether every element of l is in data, at most as many times
func submultiset(l, data []core.Elemt) bool {
	used := make([]bool, len(data))
next:
	for _, e := range l {
		for i := range data {
			if !used[i] && same(data[i], e) {
				used[i] = true
				continue next
			}
		}
		return false
	}
	return true
}

func TestC12(t *testing.T) {
	c := newCheck(t, "C12", "random space, data with duplicates, k from -2 to beyond the data size, scripted random sources with boundary values; non-trivial: 2 <= k <= data size")
	c.Sub("initializers", 40000, func(c *Case) {
		s := anySp(c.T)
		data := s.elemts(c.T, 0, 8, "d")
		k := rapid.IntRange(-2, len(data)+2).Draw(c.T, "k")
		if len(data) > 100 && rapid.Bool().Draw(c.T, "large k") {
			k = len(data) - rapid.IntRange(0, len(data)/2).Draw(c.T, "fewer")
		}
		which := rapid.IntRange(0, 2).Draw(c.T, "initializer")
		if which == 2 && k <= len(data) {
			k = affordable(s, len(data), k)
		}
		name := []string{"given", "rand", "pp"}[which]
		init := []core.Initializer{kmeans.GivenInitializer, kmeans.RandInitializer, kmeans.PPInitializer}[which]
		if rapid.Bool().Draw(c.T, "byname") {
			cased := ""
			for _, r := range name {
				if rapid.Bool().Draw(c.T, "upper") {
					cased += strings.ToUpper(string(r))
				} else {
					cased += string(r)
				}
			}
			init = kmeans.CreateInitializer(cased)
			name = cased
			if init == nil {
				c.Failf("no initializer named %q", cased)
			}
		}
		src, rdesc := scriptedRand(c.T)
		c.Data("space %s data %s k %d initializer %s %s", s.name, show(data), k, name, rdesc)
		c.Nontrivial(k >= 2 && k <= len(data))
		before := deepCopies(data)
		clust, err := init(k, data, s.space, src)
		if !sameAll(data, before) {
			c.Failf("the data are altered: %s", show(data))
		}
		if k < 1 || k > len(data) {
			c.Class(true, "impossible k")
			if err == nil || len(clust) != 0 {
				c.Failf("k=%d with %d elements gives %v, error %v", k, len(data), clust, err)
			}
			return
		}
		switch which {
		case 0:
			if err != nil || !sameAll(clust, before[:k]) {
				c.Failf("gives %s, error %v", show(clust), err)
			}
		case 1:
			if err != nil || len(clust) != k || !submultiset(clust, before) {
				c.Failf("gives %s, error %v: not %d different positions of the data", show(clust), err, k)
			}
		case 2:
			if err != nil {
				c.Class(true, "pp error")
				if len(clust) != 0 {
					c.Failf("gives %s with error %v", show(clust), err)
				}
				// legitimate only if no choice of k elements at pairwise positive distance was reachable
				if distinct := distinctCount(before, s.space); distinct >= k && metric(s) {
					c.Failf("error %v although %d elements are at positive distance", err, distinct)
				}
				return
			}
			if len(clust) != k {
				c.Failf("gives %d centroids", len(clust))
			}
			if metric(s) && distinctCount(before, s.space) < k {
				c.Failf("gives %s without enough distinct elements", show(clust))
			}
			for i := range clust {
				if indexOf(before, clust[i]) < 0 {
					c.Failf("centroid %v is not an element", clust[i])
				}
				for j := 0; j < i; j++ {
					if !(s.space.Dist(clust[i], clust[j]) > 0) {
						c.Failf("centroids %d and %d are at distance %v: %s", i, j, s.space.Dist(clust[i], clust[j]), show(clust))
					}
				}
			}
		}
		for i := range clust {
			scramble(clust[i])
		}
		if !sameAll(data, before) {
			c.Failf("centroids share memory with the data")
		}
	})
	c.Sub("bulk", 250, func(c *Case) {
		s, data, common, others := needles(c.T)
		distinct := distinctCount(append(append([]core.Elemt{}, common...), others...), s.space)
		held := distinctCount(data, s.space)
		k := rapid.IntRange(1, distinct+1).Draw(c.T, "k")
		which := rapid.IntRange(0, 3).Draw(c.T, "initializer")
		src, rdesc := scriptedRand(c.T)
		c.Data("space %s, %d elements among %s, at some positions %s (%d distinct), k %d initializer %d %s", s.name, len(data), show(common), show(others), held, k, which, rdesc)
		c.Nontrivial(k > 1 && k <= held)
		switch which {
		case 0:
			if k = len(data) - k; k < 6000 {
				clust, err := kmeans.RandInitializer(k, data, s.space, src)
				if err != nil || len(clust) != k {
					c.Failf("%d centroids, error %v", len(clust), err)
				}
				count := map[string]int{}
				for _, e := range data {
					count[fmt.Sprint(e)]++
				}
				for _, e := range clust {
					if count[fmt.Sprint(e)]--; count[fmt.Sprint(e)] < 0 {
						c.Failf("%v is drawn more often than it is in the data", e)
					}
				}
			}
		default:
			clust, err := kmeans.PPInitializer(k, data, s.space, src)
			if (k <= held) != (err == nil) || err == nil && len(clust) != k {
				c.Failf("gives %s, error %v", show(clust), err)
			}
			if err == nil && distinctCount(clust, s.space) < k {
				c.Failf("gives %s: not at positive distances", show(clust))
			}
		}
	})
	c.Sub("algorithm", 10000, func(c *Case) {
		s := safeSp(c.T)
		data := s.elemts(c.T, 1, 6, "d")
		for n := rapid.IntRange(0, 3).Draw(c.T, "duplicates"); n > 0; n-- {
			data = append(data, deepCopy(data[0]))
		}
		k := rapid.IntRange(1, len(data)+2).Draw(c.T, "k")
		name := []string{"given", "rand", "pp"}[rapid.IntRange(0, 2).Draw(c.T, "initializer")]
		if name == "pp" && k <= len(data) {
			k = affordable(s, len(data), k)
		}
		useMCMC := rapid.Bool().Draw(c.T, "mcmc")
		seed := uint64(rapid.IntRange(1, 1<<30).Draw(c.T, "seed"))
		how := rapid.IntRange(0, 2).Draw(c.T, "call")
		c.Data("space %s data %s k %d initializer %s mcmc %v seed %d call %d", s.name, show(data), k, name, useMCMC, seed, how)
		c.bubble(t, func() string {
			gen := rand.New(rand.NewSource(seed))
			var algo *core.Algo
			ctrl := core.CtrlConf{Iter: 1}
			if useMCMC {
				algo = mcmc.NewAlgo(mcmc.Conf{CtrlConf: ctrl, InitK: k, MaxK: k, RGen: gen}, s.space, data, kmeans.CreateInitializer(name), mcmc.NewDirac())
			} else {
				algo = kmeans.NewAlgo(kmeans.Conf{CtrlConf: ctrl, K: k, RGen: gen}, s.space, data, kmeans.CreateInitializer(name))
			}
			var err error
			if !within(wedged, func() {
				err = []func() error{algo.Init, algo.Play, algo.Batch}[how]()
				if err == nil {
					algo.Stop()
				}
			}) {
				return "the call does not return"
			}
			time.Sleep(time.Second)
			cl, st := algo.Centroids(), algo.Status()
			if err == nil {
				if len(cl) < 1 || len(cl) > k || how == 0 && (len(cl) != k || (name != "pp" || metric(s)) && !submultiset(cl, data)) {
					return fmt.Sprintf("centroids %s", show(cl))
				}
				if k > len(data) {
					return "no error"
				}
				return ""
			}
			c.Nontrivial(k <= len(data))
			c.Class(true, "failed initialisation")
			if k <= len(data) && name != "pp" {
				return fmt.Sprint(err)
			}
			if len(cl) != 0 {
				return fmt.Sprintf("initialisation fails with %v and exposes centroids %v", err, cl)
			}
			if st.Value != core.Finished || !sameErr(st.Error, err) {
				return fmt.Sprintf("initialisation fails with %v, status %s", err, showStatus(st))
			}
			for _, e := range data {
				if p, l, _ := algo.Predict(e); p != nil || l != -1 {
					return fmt.Sprintf("initialisation fails with %v, prediction %v %d", err, p, l)
				}
			}
			return ""
		})
	})
}

// metric tells spaces where distance 0 is equality
func metric(s sp) bool {
	return s.name == "line" || s.name == "pair" || strings.HasPrefix(s.name, "euclid")
}

func distinctCount(data []core.Elemt, space core.Space) int {
	var kept []core.Elemt
next:
	for _, e := range data {
		for _, f := range kept {
			if space.Dist(e, f) == 0 {
				continue next
			}
		}
		kept = append(kept, e)
	}
	return len(kept)
}

func TestC13(t *testing.T) {
	c := newCheck(t, "C13", "random weight vectors (zeros, ties, ratios from 1e-300 to 1e300) and random words including the smallest and largest a generator can return; non-trivial: a zero weight together with at least 2 positive ones")
	c.Sub("draw", 80000, func(c *Case) {
		n := rapid.IntRange(0, 8).Draw(c.T, "n")
		if rapid.IntRange(0, 20).Draw(c.T, "large") == 0 {
			n = rapid.IntRange(0, 300).Draw(c.T, "n")
		}
		bulk := 0
		if rarely(c.T, 9) {
			n = rapid.IntRange(1, 8).Draw(c.T, "n")
			bulk = rapid.IntRange(300, []int{1000, 3000, 10000}[rapid.IntRange(0, 2).Draw(c.T, "bulkkind")]).Draw(c.T, "bulk")
		}
		w := make([]float64, n, n+bulk)
		kind := rapid.IntRange(0, 4).Draw(c.T, "kind")
		sum, pos, zeros := 0., 0, 0
		for i := range w {
			if rapid.IntRange(0, 2).Draw(c.T, "zero") == 0 {
				zeros++
				continue
			}
			switch kind {
			case 0:
				w[i] = float64(rapid.IntRange(0, 3).Draw(c.T, "w"))
			case 1:
				w[i] = float64(rapid.IntRange(0, 1000000).Draw(c.T, "w")) / 9973
			case 2:
				w[i] = 0.1
			case 3:
				w[i] = math.Pow(10, float64(rapid.IntRange(-300, 290).Draw(c.T, "w")))
			default:
				w[i] = rapid.Float64Range(0, 1).Draw(c.T, "w")
			}
			sum += w[i]
			if w[i] > 0 {
				pos++
			} else {
				zeros++
			}
		}
		if bulk > 0 { // the same weights at random places of a long vector
			g, _ := rng(c.T)
			drawn := w
			w = make([]float64, bulk)
			sum, pos = 0, 0
			sparse := rapid.Bool().Draw(c.T, "sparse")
			for i := range w {
				if !sparse || g.Intn(bulk) < 5 {
					w[i] = drawn[g.Intn(len(drawn))]
				}
				if w[i] > 0 {
					pos++
				}
				sum += w[i]
			}
			n, zeros = bulk, bulk-pos
			c.Class(true, "long")
		}
		word, seed := drawWord(c.T), uint64(rapid.IntRange(1, 1<<30).Draw(c.T, "seed"))
		mk := func() *rand.Rand {
			return rand.New(&scripted{vals: []uint64{word}, next: rand.NewSource(seed)})
		}
		u := mk().Float64()
		c.Data("weights %v word %x (u=%v)", w, word, u)
		c.Nontrivial(zeros > 0 && pos > 1)
		c.Class(u == 0, "u=0")
		c.Class(u > 1-1e-12, "u close to 1")
		before := append([]float64{}, w...)
		i, err := kmeans.WeightedChoice(w, mk())
		if !sameFloats(w, before) {
			c.Failf("weights are altered: %v", w)
		}
		if !(sum > 0) {
			if err == nil {
				c.Failf("no error for weights summing to 0")
			}
			return
		}
		if err != nil {
			c.Failf("error %v", err)
		}
		if i < 0 || i >= n || !(w[i] > 0) {
			c.Failf("draws index %d", i)
		}
		below := 0.
		for j := 0; j < i; j++ {
			below += w[j]
		}
		eps := 1e-9 * sum
		if below > u*sum+eps || below+w[i] < u*sum-eps {
			c.Failf("draws index %d: running sum goes from %v to %v, drawn %v", i, below, below+w[i], u*sum)
		}
		// strictly inside the previous weights: must not go further than the first index reached
		for j, s := 0, 0.; j < i; j++ {
			s += w[j]
			if w[j] > 0 && s > u*sum+eps {
				c.Failf("draws index %d although %d reaches %v of %v", i, j, u*sum, s)
			}
		}
	})
	c.Sub("kmeans++ step", 20000, func(c *Case) {
		space := euclid.NewSpace()
		dim, kind := rapid.IntRange(1, 2).Draw(c.T, "dim"), rapid.IntRange(0, 1).Draw(c.T, "kind")
		s := sp{"euclid", space, func(t *rapid.T, l string) core.Elemt { return vector(t, dim, kind, l) }, true, 1}
		data, clust := s.elemts(c.T, 1, 8, "d"), core.Clust(s.elemts(c.T, 1, 4, "c"))
		src, rdesc := scriptedRand(c.T)
		c.Data("centroids %s data %s %s", show(clust), show(data), rdesc)
		possible := false
		for _, e := range data {
			_, d := bruteNearest(clust, e, space)
			possible = possible || d > 0
		}
		c.Nontrivial(possible)
		e, err := kmeans.PPIter(clust, data, space, src)
		if possible != (err == nil) {
			c.Failf("PPIter gives %v, error %v", e, err)
		}
		if possible {
			if _, d := bruteNearest(clust, e, space); !(d > 0) || indexOf(data, e) < 0 {
				c.Failf("PPIter gives %v, at distance %v from the centroids", e, d)
			}
		}
	})
	c.Sub("bulk step", 400, func(c *Case) {
		s, data, common, others := needles(c.T)
		src, rdesc := scriptedRand(c.T)
		c.Data("space %s, %d elements among %s, at some positions %s; %s", s.name, len(data), show(common), show(others), rdesc)
		possible := false
		for _, e := range others {
			_, d := bruteNearest(common, e, s.space)
			possible = possible || d > 0 && indexOf(data, e) >= 0
		}
		c.Nontrivial(possible)
		e, err := kmeans.PPIter(common, data, s.space, src)
		if possible != (err == nil) {
			c.Failf("PPIter gives %v, error %v", e, err)
		}
		if possible {
			if _, d := bruteNearest(common, e, s.space); !(d > 0) || indexOf(data, e) < 0 {
				c.Failf("PPIter gives %v, at distance %v from the centroids", e, d)
			}
		}
	})
}
