package distclusverif

import (
	"fmt"
	"math"
	"sort"
	"testing"

	"gonum.org/v1/gonum/stat/distuv"
	"pgregory.net/rapid"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/kmeans"
	"github.com/wearelumenai/distclus/mcmc"
	"github.com/wearelumenai/distclus/streaming"
)

// lawRisk is the probability that a right law is rejected, for one case
const lawRisk = 1e-13

// law is a distribution over outcomes known by their name
type law map[string]float64

// rejects tells why n draws do not follow the law: an outcome is counted so often, or so rarely, that it happens
// with a probability below lawRisk (Chernoff bound)
func (l law) rejects(counts map[string]int, n int) string {
	for _, o := range outcomes(counts) {
		if l[o] == 0 {
			return fmt.Sprintf("outcome %s is drawn %d times in %d but has probability 0", o, counts[o], n)
		}
	}
	for _, o := range outcomes(l) {
		p, f := l[o], float64(counts[o])/float64(n)
		kl := 0.
		if f > 0 {
			kl += f * math.Log(f/p)
		}
		if f < 1 && p < 1 {
			kl += (1 - f) * math.Log((1-f)/(1-p))
		} else if f < 1 {
			kl = math.Inf(1)
		}
		if kl*float64(n) > math.Log(2*float64(len(l))/lawRisk) {
			return fmt.Sprintf("outcome %s of probability %v is drawn %d times in %d", o, p, counts[o], n)
		}
	}
	return ""
}

func outcomes[V any](m map[string]V) (l []string) {
	for o := range m {
		l = append(l, o)
	}
	sort.Strings(l)
	return
}

func (c *Case) judge(l law, counts map[string]int, n int) {
	possible := 0
	for _, p := range l {
		if p > 1e-3 {
			possible++
		}
	}
	c.Nontrivial(possible > 1)
	if msg := l.rejects(counts, n); msg != "" {
		c.Failf("%s", msg)
	}
}

// classOf is the rank of the first element equal to e
func classOf(data []core.Elemt, e core.Elemt) string {
	return fmt.Sprint(indexOf(data, e))
}

// nearestLaw is the law of one k-means++ draw: an element with probability proportional to its distance to the nearest centroid
func nearestLaw(clust core.Clust, data []core.Elemt, space core.Space) (law, bool) {
	l, sum := law{}, 0.
	for _, e := range data {
		_, _, d := clust.Assign(e, space)
		if d > 0 {
			l[classOf(data, e)] += d
			sum += d
		}
	}
	for o := range l {
		l[o] /= sum
	}
	return l, sum > 0
}

// ppLaw is the law of the classes of k centroids drawn by k-means++
func ppLaw(data []core.Elemt, space core.Space, k int) law {
	l := law{}
	var next func(clust core.Clust, name string, p float64)
	next = func(clust core.Clust, name string, p float64) {
		if len(clust) == k {
			l[name] += p
			return
		}
		step, ok := nearestLaw(clust, data, space)
		if !ok {
			l["error"] += p
			return
		}
		for _, o := range outcomes(step) {
			var i int
			fmt.Sscan(o, &i)
			next(append(append(core.Clust{}, clust...), data[i]), name+","+o, p*step[o])
		}
	}
	for _, e := range data {
		next(core.Clust{e}, classOf(data, e), 1/float64(len(data)))
	}
	return l
}

func TestC43(t *testing.T) {
	c := newCheck(t, "C43", "thousands of draws with one seeded generator per case, counted per outcome and compared with the exact law by a Chernoff bound of risk 1e-13; non-trivial: at least two outcomes of probability above 1/1000")
	c.Sub("rand", 300, func(c *Case) {
		n := rapid.IntRange(1, 8).Draw(c.T, "n")
		k := rapid.IntRange(1, n).Draw(c.T, "k")
		gen, seed := rng(c.T)
		trials := 4000
		c.Data("%d elements, k %d, seed %d", n, k, seed)
		var data []core.Elemt
		for i := 0; i < n; i++ {
			data = append(data, float64(i))
		}
		l, counts := law{}, map[string]int{}
		subsets := 0.
		for m := 0; m < 1<<n; m++ {
			bits := 0
			for i := 0; i < n; i++ {
				bits += m >> i & 1
			}
			if bits == k {
				l[fmt.Sprintf("%08b", m)] = 1
				subsets++
			}
		}
		for o := range l {
			l[o] = 1 / subsets
		}
		for i := 0; i < trials; i++ {
			clust, err := kmeans.RandInitializer(k, data, lineSpace{}, gen)
			if err != nil {
				c.Failf("error %v", err)
			}
			m := 0
			for _, e := range clust {
				m |= 1 << int(e.(float64))
			}
			counts[fmt.Sprintf("%08b", m)]++
		}
		c.judge(l, counts, trials)
	})
	c.Sub("pp", 300, func(c *Case) {
		s := anySp(c.T)
		var data []core.Elemt
		for i := rapid.IntRange(1, 6).Draw(c.T, "n"); i > 0; i-- {
			data = append(data, s.gen(c.T, "d"))
		}
		for i := rapid.IntRange(0, 2).Draw(c.T, "duplicates"); i > 0; i-- {
			data = append(data, deepCopy(data[0]))
		}
		k := rapid.IntRange(1, min(3, len(data))).Draw(c.T, "k")
		gen, seed := rng(c.T)
		trials := 4000
		if len(s.name) > 2 && s.name[:3] == "dtw" {
			trials = 1000
		}
		c.Data("space %s data %s k %d seed %d", s.name, show(data), k, seed)
		counts := map[string]int{}
		for i := 0; i < trials; i++ {
			clust, err := kmeans.PPInitializer(k, data, s.space, gen)
			if err != nil {
				counts["error"]++
				continue
			}
			name := classOf(data, clust[0])
			for _, e := range clust[1:] {
				name += "," + classOf(data, e)
			}
			counts[name]++
		}
		l := ppLaw(data, s.space, k)
		c.Class(l["error"] > 0, "possibly too few elements")
		c.judge(l, counts, trials)
	})
	c.Sub("births and deaths", 300, func(c *Case) {
		s := safeSp(c.T)
		var data []core.Elemt
		n := rapid.IntRange(2, 9).Draw(c.T, "n")
		if rarely(c.T, 2) {
			n = rapid.IntRange(20, 90).Draw(c.T, "more")
		}
		for i := 0; i < n; i++ {
			data = append(data, s.gen(c.T, "d"))
		}
		var prev core.Clust
		for i := rapid.IntRange(2, 5).Draw(c.T, "k"); i > 0; i-- {
			e := s.gen(c.T, "c")
			if indexOf(prev, e) < 0 {
				prev = append(prev, e)
			}
		}
		gen, seed := rng(c.T)
		death := len(prev) > 1 && rapid.Bool().Draw(c.T, "death")
		store := rapid.Bool().Draw(c.T, "store")
		trials := 3000
		if len(s.name) > 2 && s.name[:3] == "dtw" {
			trials = 400
		}
		c.Data("space %s data %s centers %s seed %d death %v store %v", s.name, show(data), show(prev), seed, death, store)
		l, counts := law{}, map[string]int{}
		cs := mcmc.NewCenterStore(gen)
		if death {
			for i := range prev {
				l[fmt.Sprint(i)] = 1 / float64(len(prev))
			}
		} else {
			var ok bool
			if l, ok = nearestLaw(prev, data, s.space); !ok {
				l = law{"error": 1}
			}
		}
		for i := 0; i < trials; i++ {
			switch {
			case death:
				clust, err := cs.GetCenters(data, s.space, len(prev)-1, prev)
				if err != nil || len(clust) != len(prev)-1 {
					c.Failf("a death gives %s, error %v", show(clust), err)
				}
				gone := len(prev) - 1
				for j := range clust {
					if !same(clust[j], prev[j]) {
						gone = j
						break
					}
				}
				counts[fmt.Sprint(gone)]++
			case store:
				clust, err := cs.GetCenters(data, s.space, len(prev)+1, prev)
				if err != nil {
					counts["error"]++
				} else {
					counts[classOf(data, clust[len(prev)])]++
				}
			default:
				e, err := kmeans.PPIter(prev, data, s.space, gen)
				if err != nil {
					counts["error"]++
				} else {
					counts[classOf(data, e)]++
				}
			}
		}
		c.Class(death, "death")
		c.judge(l, counts, trials)
	})
	c.Sub("large", 120, largeLaws)
	c.Sub("weighted", 400, func(c *Case) {
		var weights []float64
		l, sum := law{}, 0.
		for i := rapid.IntRange(1, 12).Draw(c.T, "n"); i > 0; i-- {
			w := rapid.SampledFrom([]float64{0, 0, 1, 1, 2, 3, 5, 8, 0.1, 1e-3, 30}).Draw(c.T, "w")
			weights = append(weights, w)
			sum += w
		}
		gen, seed := rng(c.T)
		c.Data("weights %v seed %d", weights, seed)
		for i, w := range weights {
			if w > 0 {
				l[fmt.Sprint(i)] = w / sum
			}
		}
		if sum == 0 {
			l["error"] = 1
		}
		counts, trials := map[string]int{}, 20000
		for i := 0; i < trials; i++ {
			if choice, err := kmeans.WeightedChoice(weights, gen); err != nil {
				counts["error"]++
			} else {
				counts[fmt.Sprint(choice)]++
			}
		}
		c.judge(l, counts, trials)
	})
	c.Sub("new centers", 600, func(c *Case) {
		gen, seed := rng(c.T)
		conf := streaming.Conf{
			BufferSize: 1, OutAfter: 1 << 30, OutRatio: 2, RGen: gen,
			Mu:    rapid.SampledFrom([]float64{0.5, 0.1, 0.9, 1.5, -0.25}).Draw(c.T, "mu"),
			Sigma: rapid.SampledFrom([]float64{0.1, 0.5, 0.02, 2}).Draw(c.T, "sigma"),
		}
		at := float64(rapid.IntRange(0, 300).Draw(c.T, "at")) / 100
		others := rapid.SliceOfN(rapid.IntRange(-64, 0), 0, 6).Draw(c.T, "others")
		cards := rapid.SliceOfN(rapid.IntRange(0, 7), 8, 8).Draw(c.T, "cards")
		c.Data("mu %v sigma %v relative distance %v more centers %v of cardinalities %v seed %d", conf.Mu, conf.Sigma, at, others, cards, seed)
		p := distuv.Normal{Mu: conf.Mu, Sigma: conf.Sigma}.CDF(at)
		l := law{"new": p, "merged": 1 - p}
		for o := range l {
			if l[o] < 1e-12 { // rounding
				l[o] = 1e-12
			}
		}
		counts, trials := map[string]int{}, 3000
		for i := 0; i < trials; i++ {
			impl := streaming.NewImpl(conf, nil)
			impl.AddCenter(0., 0)
			impl.AddCenter(-64., 64)
			for j, x := range others {
				impl.AddCenter(float64(x), 1)
				for n := cards[j]; n > 0; n-- {
					impl.UpdateCenter(j+2, float64(x), 0, lineSpace{})
				}
			}
			impl.Process(64*at, lineSpace{})
			if len(impl.GetClusters()) > 2+len(others) {
				counts["new"]++
			} else {
				counts["merged"]++
			}
		}
		c.judge(l, counts, trials)
	})
	c.Sub("student", 120, func(c *Case) {
		gen, seed := rng(c.T)
		conf := mcmc.MultivTConf{Dim: rapid.IntRange(1, 5).Draw(c.T, "dim"), RGen: gen,
			Nu: rapid.SampledFrom([]float64{1, 2, 3, 5, 10, 40, 1.5, 2.5, 7.25, 1000}).Draw(c.T, "nu")}
		time := rapid.SampledFrom([]int{1, 3, 10, 160, 5000}).Draw(c.T, "time")
		at := rapid.SampledFrom([]float64{0, 0, 3, -1000}).Draw(c.T, "mu")
		k := rapid.IntRange(0, conf.Dim-1).Draw(c.T, "component")
		c.Data("dim %d nu %v time %d mu %v component %d seed %d", conf.Dim, conf.Nu, time, at, k, seed)
		c.Nontrivial(true)
		m := mcmc.NewMultivT(conf)
		mu := make([]float64, conf.Dim)
		for i := range mu {
			mu[i] = at
		}
		student := distuv.StudentsT{Sigma: 1, Nu: conf.Nu}
		trials := 12000
		// quantiles by 16 and the tails, seen as outcomes
		l, counts := law{}, map[string]int{}
		bin := func(p float64) string {
			switch {
			case p < 0.005:
				return "lower tail"
			case p > 0.995:
				return "upper tail"
			}
			return fmt.Sprint("quantile ", int(p*16))
		}
		for i := 0; i < 16; i++ {
			l[fmt.Sprint("quantile ", i)] = 1. / 16
		}
		l["quantile 0"] -= 0.005
		l["quantile 15"] -= 0.005
		l["lower tail"], l["upper tail"] = 0.005, 0.005
		for i := 0; i < trials; i++ {
			x := m.Sample(mu, time).([]float64)[k]
			counts[bin(student.CDF((x-at)*math.Sqrt(20*float64(time))))]++
		}
		c.judge(l, counts, trials)
	})
}

// hyper is the law of the number of marked elements when k out of n are drawn without replacement, m being marked
func hyper(n, m, k int) law {
	lc := func(a, b int) float64 {
		x, _ := math.Lgamma(float64(a + 1))
		y, _ := math.Lgamma(float64(b + 1))
		z, _ := math.Lgamma(float64(a - b + 1))
		return x - y - z
	}
	l := law{}
	for i := max(0, k-(n-m)); i <= min(k, m); i++ {
		l[fmt.Sprint(i)] = math.Exp(lc(m, i) + lc(n-m, k-i) - lc(n, k))
	}
	return l
}

// largeLaws: the laws over many elements, judged on parts of them
func largeLaws(c *Case) {
	what := rapid.SampledFrom([]string{"rand", "births", "births", "weighted", "deaths"}).Draw(c.T, "what")
	gen, seed := rng(c.T)
	aux, _ := rng(c.T)
	reject := func(l law, counts map[string]int, trials int, of string) {
		for o, p := range l {
			if p < 1e-15 { // rounding
				l[o] = 1e-15
			}
		}
		if msg := l.rejects(counts, trials); msg != "" {
			c.Failf("%s: %s", of, msg)
		}
	}
	if what == "rand" {
		n := manyOf(c.T, 12, "n")
		k := rapid.IntRange(1, max(1, n/2)).Draw(c.T, "k")
		if n > 8 && rapid.Bool().Draw(c.T, "many") {
			k = n/2 - rapid.IntRange(0, n/4).Draw(c.T, "fewer")
		}
		trials := min(4000, max(200, 400000/k))
		marked := aux.Perm(n)[:(n+1)/2]
		c.Data("rand: %d of %d elements, seed %d", k, n, seed)
		c.Nontrivial(n > k)
		data := make([]core.Elemt, n)
		for i := range data {
			data[i] = float64(i)
		}
		mark := make([]bool, n)
		for _, i := range marked {
			mark[i] = true
		}
		in, first := make([]int, n), make([]int, n)
		halves, lower, ends := map[string]int{}, map[string]int{}, map[string]int{}
		for i := 0; i < trials; i++ {
			clust, err := kmeans.RandInitializer(k, data, lineSpace{}, gen)
			if err != nil || len(clust) != k {
				c.Failf("%d centroids, error %v", len(clust), err)
			}
			h, l, e := 0, 0, 0
			for j, x := range clust {
				p := int(x.(float64))
				in[p]++
				if j == 0 {
					first[p]++
				}
				if mark[p] {
					h++
				}
				if p < n/2 {
					l++
				}
				if p == 0 || p == n-1 {
					e++
				}
			}
			halves[fmt.Sprint(h)]++
			lower[fmt.Sprint(l)]++
			ends[fmt.Sprint(e)]++
		}
		for p := range in {
			q := float64(k) / float64(n)
			l := law{"drawn": q}
			counts := map[string]int{"drawn": in[p]}
			if q < 1 {
				l["left"], counts["left"] = 1-q, trials-in[p]
			}
			if counts["left"] == 0 {
				delete(counts, "left")
			}
			if counts["drawn"] == 0 {
				delete(counts, "drawn")
			}
			reject(l, counts, trials, fmt.Sprintf("element %d", p))
		}
		reject(hyper(n, len(marked), k), halves, trials, "random half")
		reject(hyper(n, n/2, k), lower, trials, "first half")
		reject(hyper(n, min(n, 2), k), ends, trials, "first and last")
		return
	}
	// the classes judged are the first, the last, a heavy one, and the others by rank
	n := 2 + manyOf(c.T, 11, "n")
	heavy := rapid.SampledFrom([]int{0, n - 1, n / 2, -1}).Draw(c.T, "heavy")
	if heavy < 0 {
		heavy = aux.Intn(n)
	}
	class := func(i int) string {
		switch i {
		case heavy:
			return "heavy"
		case 0:
			return "first"
		case n - 1:
			return "last"
		}
		return fmt.Sprint("eighth ", i*8/n)
	}
	weights, sum := make([]float64, n), 0.
	for i := range weights {
		weights[i] = []float64{0, 1, 1, 2, 5, 0.25}[aux.Intn(6)]
		sum += weights[i]
	}
	weights[heavy] = (sum + 1) * rapid.SampledFrom([]float64{1, 0.25, 4}).Draw(c.T, "share")
	c.Nontrivial(true)
	c.Data("%s over %d elements, the heaviest is number %d, seed %d", what, n, heavy, seed)
	l, counts, trials := law{}, map[string]int{}, min(4000, 3000000/n)
	switch what {
	case "weighted", "births":
		total := 0.
		for _, w := range weights {
			total += w
		}
		data := make([]core.Elemt, n)
		clust := core.Clust{0.}
		// several centers, data beside all of them
		for i := rapid.IntRange(0, 40).Draw(c.T, "centers"); what == "births" && i > 0; i-- {
			clust = append(clust, float64(i)*1e4*total)
		}
		for i, w := range weights {
			if w > 0 {
				l[class(i)] += w / total
			}
			at := clust[aux.Intn(len(clust))].(float64)
			data[i] = at + w
			if at != 0 { // rounding
				weights[i] = data[i].(float64) - at
			}
		}
		store := rapid.Bool().Draw(c.T, "store")
		cs := mcmc.NewCenterStore(gen)
		rank := map[float64]int{}
		if what == "births" {
			perm := aux.Perm(len(clust))
			sh := make(core.Clust, len(clust))
			for i, p := range perm {
				sh[i] = clust[p]
			}
			clust = sh
			// equal elements are one: judge by value
			for i := n - 1; i >= 0; i-- {
				rank[data[i].(float64)] = i
			}
			l = law{}
			for i, w := range weights {
				if w > 0 {
					l[class(rank[data[i].(float64)])] += w / total
				}
			}
		}
		for i := 0; i < trials; i++ {
			switch {
			case what == "weighted":
				choice, err := kmeans.WeightedChoice(weights, gen)
				if err != nil {
					c.Failf("error %v", err)
				}
				counts[class(choice)]++
			case store:
				cl, err := cs.GetCenters(data, lineSpace{}, len(clust)+1, clust)
				if err != nil || len(cl) != len(clust)+1 {
					c.Failf("a birth gives %d centers, error %v", len(cl), err)
				}
				counts[class(rank[cl[len(clust)].(float64)])]++
			default:
				e, err := kmeans.PPIter(clust, data, lineSpace{}, gen)
				if err != nil {
					c.Failf("error %v", err)
				}
				counts[class(rank[e.(float64)])]++
			}
		}
	case "deaths":
		prev := make(core.Clust, n)
		for i := range prev {
			prev[i] = float64(i)
			l[class(i)] += 1 / float64(n)
		}
		for i := 0; i < trials; i++ {
			cs := mcmc.NewCenterStore(gen)
			cl, err := cs.GetCenters(nil, lineSpace{}, n-1, prev)
			if err != nil || len(cl) != n-1 {
				c.Failf("a death gives %d centers, error %v", len(cl), err)
			}
			gone := n - 1
			for j := range cl {
				if cl[j] != prev[j] {
					gone = j
					break
				}
			}
			counts[class(gone)]++
		}
	}
	reject(l, counts, trials, what)
}
