package distclusverif

import (
	"fmt"
	"math"
	"math/big"
	"testing"

	"pgregory.net/rapid"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/cosinus"
	"github.com/wearelumenai/distclus/dtw"
	"github.com/wearelumenai/distclus/euclid"
)

func bigf(x float64) *big.Float { return new(big.Float).SetPrec(200).SetFloat64(x) }

func bigDot(a, b []float64) *big.Float {
	s := bigf(0)
	for i := range a {
		s.Add(s, new(big.Float).SetPrec(200).Mul(bigf(a[i]), bigf(b[i])))
	}
	return s
}

func bigDist(a, b []float64) float64 {
	s := bigf(0)
	for i := range a {
		d := new(big.Float).SetPrec(200).Sub(bigf(a[i]), bigf(b[i]))
		s.Add(s, d.Mul(d, d))
	}
	f, _ := new(big.Float).SetPrec(200).Sqrt(s).Float64()
	return f
}

func bigCosDist(a, b []float64) float64 {
	n := new(big.Float).SetPrec(200).Sqrt(new(big.Float).SetPrec(200).Mul(bigDot(a, a), bigDot(b, b)))
	q := new(big.Float).SetPrec(200).Quo(bigDot(a, b), n)
	f, _ := q.Sub(bigf(1), q).Float64()
	return f
}

// extremeVector mixes ordinary and far magnitudes
func extremeVector(t *rapid.T, dim int, l string) []float64 {
	kind := rapid.IntRange(0, 4).Draw(t, "vk")
	if kind < 4 {
		return vector(t, dim, kind, l)
	}
	v := make([]float64, dim)
	for i := range v {
		v[i] = float64(rapid.IntRange(-99, 99).Draw(t, l)) * math.Pow(10, float64(rapid.IntRange(-60, 60).Draw(t, "e")))
	}
	return v
}

// checkVectorOps checks combination, copy and dimension shared by the vector spaces
func checkVectorOps(c *Case, space dtw.PointSpace, a, b []float64, w1, w2 int) {
	a0, b0 := append([]float64{}, a...), append([]float64{}, b...)
	check := func(what string, r []float64) {
		if len(r) != len(a) {
			c.Failf("%s has dimension %d", what, len(r))
		}
		for i := range r {
			want := (a0[i]*float64(w1) + b0[i]*float64(w2)) / float64(w1+w2)
			if tol := 1e-12 * math.Max(math.Abs(a0[i]), math.Abs(b0[i])); !(math.Abs(r[i]-want) <= tol) {
				c.Failf("%s is %v, coordinate %d should be %v", what, r, i, want)
			}
		}
		scramble(r)
		if !sameFloats(a, a0) || !sameFloats(b, b0) {
			c.Failf("%s alters or aliases its arguments", what)
		}
	}
	check("Combine", space.Combine(a, w1, b, w2).([]float64))
	check("PointCombine", space.PointCombine(a, w1, b, w2))
	for _, cp := range [][]float64{space.Copy(a).([]float64), space.PointCopy(a)} {
		if !sameFloats(cp, a0) {
			c.Failf("copy of %v is %v", a0, cp)
		}
		scramble(cp)
		if !sameFloats(a, a0) {
			c.Failf("copy shares memory with its original")
		}
	}
	if d := space.Dim([]core.Elemt{a, b[:0]}); d != len(a) {
		c.Failf("Dim is %d, first vector has %d", d, len(a))
	}
	if d := space.Dim([]core.Elemt{b}); d != len(b) {
		c.Failf("Dim is %d, first vector has %d", d, len(b))
	}
	if d := space.Dim(nil); d != 0 {
		c.Failf("Dim of nothing is %d", d)
	}
}

func drawWeight(t *rapid.T) int {
	if rarely(t, 4) {
		return rapid.IntRange(1, 1<<40).Draw(t, "hw") // up to many times a light weight
	}
	return rapid.IntRange(1, []int{3, 100, 1000000}[rapid.IntRange(0, 2).Draw(t, "wk")]).Draw(t, "w")
}

func TestC06(t *testing.T) {
	c := newCheck(t, "C06", "random vectors of dimension 1..6 (up to 2000 in some cases), integer weights, against a 200-bit reference and metric laws; non-trivial: the vectors differ")
	c.Sub("metric", 40000, func(c *Case) {
		space := euclid.NewSpace()
		dim := rapid.IntRange(1, 6).Draw(c.T, "dim")
		if rarely(c.T, 4) {
			dim = rapid.IntRange(1, []int{20, 40, 200, 2000}[rapid.SampledFrom([]int{0, 0, 0, 0, 1, 1, 1, 2, 2, 3}).Draw(c.T, "larger")]).Draw(c.T, "dim")
		}
		x, y, z := extremeVector(c.T, dim, "x"), extremeVector(c.T, dim, "y"), extremeVector(c.T, dim, "z")
		if rapid.IntRange(0, 4).Draw(c.T, "equal") == 0 {
			copy(y, x)
			if rapid.Bool().Draw(c.T, "one") {
				y[rapid.IntRange(0, dim-1).Draw(c.T, "i")] += 1
			}
		}
		w1, w2 := drawWeight(c.T), drawWeight(c.T)
		c.Data("x %v y %v z %v weights %d %d", x, y, z, w1, w2)
		c.Nontrivial(!sameFloats(x, y))
		x0, y0 := append([]float64{}, x...), append([]float64{}, y...)
		d := space.Dist(x, y)
		want := bigDist(x0, y0)
		if !(math.Abs(d-want) <= 1e-12*want) {
			c.Failf("Dist is %v, want %v", d, want)
		}
		if p := space.PointDist(x, y); p != d {
			c.Failf("PointDist is %v, Dist %v", p, d)
		}
		if space.Dist(y, x) != d {
			c.Failf("Dist is not symmetric: %v %v", d, space.Dist(y, x))
		}
		if d < 0 || (d == 0) != sameFloats(x0, y0) {
			c.Failf("Dist is %v for equal=%v vectors", d, sameFloats(x0, y0))
		}
		if space.Dist(x, space.Copy(x)) != 0 {
			c.Failf("Dist to itself is not 0")
		}
		if a, b := space.Dist(x, z), d+space.Dist(y, z); a > b*(1+1e-12) {
			c.Failf("triangle inequality: %v > %v", a, b)
		}
		if !sameFloats(x, x0) || !sameFloats(y, y0) {
			c.Failf("Dist alters its arguments")
		}
		checkVectorOps(c, space, x, y, w1, w2)
		// the storage of a vector gets another one
		copy(x, z)
		if d, want := space.Dist(x, y), bigDist(z, y); !(math.Abs(d-want) <= 1e-12*want) || space.Dist(x, z) != 0 {
			c.Failf("Dist is %v when %v is overwritten by %v, want %v", d, x0, z, want)
		}
	})
}

func TestC07(t *testing.T) {
	c := newCheck(t, "C07", "random non-zero vectors of dimension 1..6 (up to 2000), also parallel and opposite ones, against a 200-bit reference and metamorphic laws; non-trivial: the vectors differ")
	c.Sub("cosine", 40000, func(c *Case) {
		space := cosinus.NewSpace()
		dim := rapid.IntRange(1, 6).Draw(c.T, "dim")
		if rarely(c.T, 4) {
			dim = rapid.IntRange(1, []int{20, 40, 200, 2000}[rapid.SampledFrom([]int{0, 0, 0, 0, 1, 1, 1, 2, 2, 3}).Draw(c.T, "larger")]).Draw(c.T, "dim")
		}
		kind := rapid.IntRange(0, 3).Draw(c.T, "kind")
		x, y := nonZero(vector(c.T, dim, kind, "x")), nonZero(vector(c.T, dim, kind, "y"))
		for _, v := range [][]float64{x, y} {
			if rapid.IntRange(0, 4).Draw(c.T, "far") == 0 {
				m := math.Pow(10, float64(rapid.IntRange(-120, 120).Draw(c.T, "magnitude")))
				for i := range v {
					v[i] *= m
				}
			}
		}
		f := float64(rapid.IntRange(1, 100000).Draw(c.T, "f")) / 997
		if rapid.IntRange(0, 4).Draw(c.T, "farf") == 0 {
			e := rapid.IntRange(-120, 120).Draw(c.T, "fe")
			if m := maxAbs(x); m > 1e20 || m < 1e-20 {
				e /= 12
			}
			f *= math.Pow(10, float64(e))
		}
		rel := rapid.IntRange(0, 4).Draw(c.T, "relation")
		if rel < 2 { // parallel or opposite
			for i := range y {
				y[i] = x[i] * f * []float64{1, -1}[rel]
			}
		}
		w1, w2 := drawWeight(c.T), drawWeight(c.T)
		c.Data("x %v y %v factor %v weights %d %d", x, y, f, w1, w2)
		c.Nontrivial(!sameFloats(x, y))
		c.Class(rel == 0, "parallel")
		c.Class(rel == 1, "opposite")
		x0, y0 := append([]float64{}, x...), append([]float64{}, y...)
		d := space.Dist(x, y)
		if !(d >= 0 && d <= 2) {
			c.Failf("Dist is %v, outside [0,2]", d)
		}
		if want := bigCosDist(x, y); !(math.Abs(d-want) <= 1e-12) {
			c.Failf("Dist is %v, want %v", d, want)
		}
		if p := space.PointDist(x, y); p != d {
			c.Failf("PointDist is %v, Dist %v", p, d)
		}
		if s := space.Dist(y, x); !(math.Abs(s-d) <= 1e-12) || !(s >= 0 && s <= 2) {
			c.Failf("Dist is not symmetric: %v %v", d, s)
		}
		if s := space.Dist(x, space.Copy(x)); !(s >= 0 && s <= 1e-12) {
			c.Failf("Dist to itself is %v", s)
		}
		if !sameFloats(x, x0) || !sameFloats(y, y0) {
			c.Failf("Dist alters its arguments")
		}
		scaled, opposite := make([]float64, dim), make([]float64, dim)
		for i := range x {
			scaled[i], opposite[i] = x[i]*f, -x[i]
		}
		if s := space.Dist(scaled, y); !(math.Abs(s-d) <= 1e-12) {
			c.Failf("Dist changes from %v to %v when a vector is scaled by %v", d, s, f)
		}
		if s := space.Dist(y, scaled); !(math.Abs(s-d) <= 1e-12) {
			c.Failf("Dist changes from %v to %v when a vector is scaled by %v", d, s, f)
		}
		if s := space.Dist(opposite, y); !(math.Abs(2-s-d) <= 1e-12) {
			c.Failf("Dist is %v, and %v when a vector is negated", d, s)
		}
		if s := cosinus.Cosinus(x, y); !(math.Abs(1-s-d) <= 1e-12) {
			c.Failf("Dist is %v but Cosinus %v", d, s)
		}
		checkVectorOps(c, space, x, y, w1, w2)
		// the storage of a vector gets another one
		z := nonZero(vector(c.T, dim, kind, "z"))
		c.More("then x is overwritten by %v", z)
		copy(x, z)
		for _, d := range []float64{space.Dist(x, y), space.PointDist(y, x), 1 - cosinus.Cosinus(x, y)} {
			if want := bigCosDist(z, y); !(math.Abs(d-want) <= 1e-12) {
				c.Failf("distance is %v when %v is overwritten by %v, want %v", d, x0, z, want)
			}
		}
		if n := cosinus.Norm(x); !near(n*n, cosinus.ScalarProduct(z, z), 1e-9) {
			c.Failf("Norm is %v when %v is overwritten by %v", n, x0, z)
		}
	})
}

// manhattan is a user-defined point space
type manhattan struct{ euclid.Space }

func (manhattan) PointDist(a, b []float64) (s float64) {
	for i := range a {
		s += math.Abs(a[i] - b[i])
	}
	return
}
func (m manhattan) Dist(a, b core.Elemt) float64 { return m.PointDist(a.([]float64), b.([]float64)) }

func drawInner(t *rapid.T) (space dtw.PointSpace, name string, nz bool) {
	switch rapid.IntRange(0, 4).Draw(t, "inner") {
	case 0:
		return cosinus.NewSpace(), "cosine", true
	case 1:
		return manhattan{}, "manhattan", false
	default:
		return euclid.NewSpace(), "euclid", false
	}
}

// lerp is the linear interpolation of a series at rational position num/den
func lerp(s [][]float64, num, den int) []float64 {
	i := num / den
	r := make([]float64, len(s[0]))
	f := float64(num-i*den) / float64(den)
	for k := range r {
		r[k] = s[i][k]
		if f > 0 {
			r[k] = s[i][k]*(1-f) + s[i+1][k]*f
		}
	}
	return r
}

func refResize(s [][]float64, n int) [][]float64 {
	r := make([][]float64, n)
	for i := range r {
		if n == 1 {
			r[i] = lerp(s, 0, 1)
		} else {
			r[i] = lerp(s, i*(len(s)-1), n-1)
		}
	}
	return r
}

func refShrink(s1, s2 [][]float64, window int) ([][]float64, [][]float64) {
	if window > 0 && len(s1) > len(s2)+window {
		return refResize(s1, len(s2)+window), s2
	}
	if window > 0 && len(s2) > len(s1)+window {
		return s1, refResize(s2, len(s1)+window)
	}
	return s1, s2
}

// refDTW is the textbook recurrence over all cells within the window (0: none)
func refDTW(s1, s2 [][]float64, space dtw.PointSpace, window int) float64 {
	cost := make([][]float64, len(s1))
	for i := range s1 {
		cost[i] = make([]float64, len(s2))
		for j := range s2 {
			best := math.Inf(1)
			if i == 0 && j == 0 {
				best = 0
			}
			if i > 0 {
				best = math.Min(best, cost[i-1][j])
			}
			if j > 0 {
				best = math.Min(best, cost[i][j-1])
			}
			if i > 0 && j > 0 {
				best = math.Min(best, cost[i-1][j-1])
			}
			cost[i][j] = best + space.PointDist(s1[i], s2[j])
			if window > 0 && (i-j > window || j-i > window) {
				cost[i][j] = math.Inf(1)
			}
		}
	}
	return cost[len(s1)-1][len(s2)-1]
}

// allPaths enumerates the warping paths (small series only)
func allPaths(l1, l2, window int, visit func(path []dtw.Ends)) {
	var walk func(path []dtw.Ends)
	walk = func(path []dtw.Ends) {
		e := path[len(path)-1]
		if e.End0 == l1-1 && e.End1 == l2-1 {
			visit(path)
			return
		}
		for _, st := range [][2]int{{1, 1}, {1, 0}, {0, 1}} {
			n := dtw.Ends{End0: e.End0 + st[0], End1: e.End1 + st[1]}
			if n.End0 < l1 && n.End1 < l2 && (window == 0 || (n.End0-n.End1 <= window && n.End1-n.End0 <= window)) {
				walk(append(append([]dtw.Ends{}, path...), n))
			}
		}
	}
	walk([]dtw.Ends{{End0: 0, End1: 0}})
}

func pathCost(s1, s2 [][]float64, space dtw.PointSpace, path []dtw.Ends) (s float64) {
	for _, e := range path {
		s += space.PointDist(s1[e.End0], s2[e.End1])
	}
	return
}

// forward returns the path from both starts to both ends
func forward(path []dtw.Ends) []dtw.Ends {
	if len(path) > 1 && (path[0].End0 != 0 || path[0].End1 != 0) {
		r := make([]dtw.Ends, len(path))
		for i := range path {
			r[len(path)-1-i] = path[i]
		}
		return r
	}
	return path
}

func checkPath(path []dtw.Ends, l1, l2, window int) string {
	p := forward(path)
	if len(p) == 0 || p[0] != (dtw.Ends{End0: 0, End1: 0}) || p[len(p)-1] != (dtw.Ends{End0: l1 - 1, End1: l2 - 1}) {
		return fmt.Sprintf("path %v does not link the starts to the ends (%d,%d)", path, l1-1, l2-1)
	}
	for i := range p {
		if window > 0 && (p[i].End0-p[i].End1 > window || p[i].End1-p[i].End0 > window) {
			return fmt.Sprintf("path %v leaves window %d", path, window)
		}
		if i > 0 {
			a, b := p[i].End0-p[i-1].End0, p[i].End1-p[i-1].End1
			if a < 0 || b < 0 || a > 1 || b > 1 || a+b == 0 {
				return fmt.Sprintf("path %v has an illegal step at %d", path, i)
			}
		}
	}
	return ""
}

func drawSeriesPair(c *Case, minLen, maxLen int) (s1, s2 [][]float64, space dtw.PointSpace, name string) {
	space, name, nz := drawInner(c.T)
	dim, kind := rapid.IntRange(1, 3).Draw(c.T, "dim"), rapid.IntRange(0, 2).Draw(c.T, "kind")
	if rarely(c.T, 6) {
		dim = rapid.IntRange(4, 40).Draw(c.T, "dim")
	}
	s1 = series(c.T, minLen, maxLen, dim, kind, nz, "s")
	switch rapid.IntRange(0, 12).Draw(c.T, "same") {
	case 0:
		s2 = deepCopy(s1).([][]float64)
	case 1: // a part of the first one, sharing its storage
		i := rapid.IntRange(0, len(s1)-minLen).Draw(c.T, "from")
		s2 = s1[i : i+rapid.IntRange(minLen, len(s1)-i).Draw(c.T, "len")]
	case 2: // overlapping parts of one record
		all := series(c.T, maxLen, maxLen+4, dim, kind, nz, "s")
		cut := func() [][]float64 {
			i := rapid.IntRange(0, 4).Draw(c.T, "from")
			i = min(i, len(all)-minLen)
			return all[i : i+min(rapid.IntRange(minLen, maxLen).Draw(c.T, "len"), len(all)-i)]
		}
		s1, s2 = cut(), cut()
	default:
		s2 = series(c.T, minLen, maxLen, dim, kind, nz, "s")
	}
	if rapid.IntRange(0, 5).Draw(c.T, "swap") == 0 {
		s1, s2 = s2, s1
	}
	if rarely(c.T, 4) { // very large, or small, in the same proportions
		by := rapid.SampledFrom([]int{-40, -20, 20, 40, 60, 100}).Draw(c.T, "scale")
		s1, s2 = scaledSeries(s1, by), scaledSeries(s2, by)
	}
	return
}

// costUnit is the magnitude distances are rounded at
func costUnit(inner dtw.PointSpace, s ...core.Elemt) float64 {
	if _, ok := inner.(cosinus.Space); ok {
		return 1
	}
	if m := maxAbs(s...); m > 0 {
		return m
	}
	return 1
}

// scaledSeries multiplies a series by a power of two
func scaledSeries(s [][]float64, by int) (r [][]float64) {
	r = deepCopy(s).([][]float64)
	for _, p := range r {
		for i := range p {
			p[i] = math.Ldexp(p[i], by)
		}
	}
	return
}

func drawMaxLen(t *rapid.T) int {
	if rarely(t, 6) {
		return 150
	}
	return []int{4, 9, 30}[rapid.IntRange(0, 2).Draw(t, "maxlen")]
}

func TestC08(t *testing.T) {
	c := newCheck(t, "C08", "random pairs of series (lengths 1..30 and sometimes 150, dimension 1..3 and sometimes 40, Euclidean, cosine and user-defined inner spaces), windows 0..40 including smaller than the length gap; non-trivial: both series have at least 2 points and differ")
	c.Sub("space", 15000, func(c *Case) {
		m := drawMaxLen(c.T)
		s1, s2, inner, name := drawSeriesPair(c, 1, m)
		window := rapid.IntRange(0, m+10).Draw(c.T, "window")
		c.Data("inner %s window %d s1 %v s2 %v", name, window, s1, s2)
		c.Nontrivial(len(s1) > 1 && len(s2) > 1 && !same(s1, s2))
		c.Class(len(s1) > len(s2), "first longer")
		c.Class(len(s1) < len(s2), "second longer")
		r1, r2 := refShrink(s1, s2, window)
		c.Class(len(r1) != len(s1) || len(r2) != len(s2), "resampled")
		b1, b2 := deepCopy(s1), deepCopy(s2)
		u := costUnit(inner, s1, s2)
		space := dtw.NewSpace(dtw.Conf{InnerSpace: inner, Window: window})
		d := space.Dist(s1, s2)
		want := refDTW(r1, r2, inner, window)
		if !near(d/u, want/u, 1e-9) {
			c.Failf("Dist is %v, want %v", d, want)
		}
		if r := space.Dist(s2, s1); !near(r/u, d/u, 1e-9) {
			c.Failf("Dist is not symmetric: %v %v", d, r)
		}
		if z := space.Dist(s1, deepCopy(s1)); !(math.Abs(z/u) <= 1e-9) {
			c.Failf("Dist to itself is %v", z)
		}
		if dim := space.Dim([]core.Elemt{s1, s2[:0]}); dim != len(s1[0]) {
			c.Failf("Dim is %d for points of dimension %d", dim, len(s1[0]))
		}
		if a, b := space.Dim(nil), space.Dim([]core.Elemt{s1[:0]}); a != 0 || b != 0 {
			c.Failf("Dim without data is %d, of an empty series %d", a, b)
		}
		if !sameBits([]core.Elemt{s1, s2}, []core.Elemt{b1, b2}) {
			c.Failf("Dist alters the series")
		}
		// the storage of a point gets another one
		i, j := rapid.IntRange(0, len(s1)-1).Draw(c.T, "i"), rapid.IntRange(0, len(s2)-1).Draw(c.T, "j")
		c.More("then point %d of s1 is overwritten by point %d of s2", i, j)
		copy(s1[i], s2[j])
		r1, r2 = refShrink(s1, s2, window)
		if d, want := space.Dist(s1, s2), refDTW(r1, r2, inner, window); !near(d/u, want/u, 1e-9) {
			c.Failf("Dist is %v after a point is overwritten, want %v", d, want)
		}
	})
	c.Sub("path", 15000, func(c *Case) {
		m := drawMaxLen(c.T)
		s1, s2, inner, name := drawSeriesPair(c, 1, m)
		gap := len(s1) - len(s2)
		if gap < 0 {
			gap = -gap
		}
		window := 0
		if rapid.Bool().Draw(c.T, "windowed") {
			window = max(1, gap) + rapid.IntRange(0, 6).Draw(c.T, "window")
		}
		c.Data("inner %s window %d s1 %v s2 %v", name, window, s1, s2)
		c.Nontrivial(len(s1) > 1 && len(s2) > 1 && !same(s1, s2))
		var dt dtw.DTW
		if window == 0 && rapid.Bool().Draw(c.T, "plain") {
			dt = dtw.NewDTW(s1, s2, inner)
		} else {
			dt = dtw.NewDTWWindow(s1, s2, inner, window)
		}
		want := refDTW(s1, s2, inner, window)
		u := costUnit(inner, s1, s2)
		if !near(dt.Dist()/u, want/u, 1e-9) {
			c.Failf("Dist is %v, want %v", dt.Dist(), want)
		}
		if msg := checkPath(dt.Path(), len(s1), len(s2), window); msg != "" {
			c.Failf("%s", msg)
		}
		if pc := pathCost(s1, s2, inner, dt.Path()); !near(pc/u, want/u, 1e-9) {
			c.Failf("path %v costs %v, the cheapest costs %v", dt.Path(), pc, want)
		}
		if len(s1) <= 4 && len(s2) <= 4 {
			c.Class(true, "all paths enumerated")
			best := math.Inf(1)
			allPaths(len(s1), len(s2), window, func(p []dtw.Ends) { best = math.Min(best, pathCost(s1, s2, inner, p)) })
			if !near(best/u, want/u, 1e-9) {
				c.Failf("Dist is %v, cheapest enumerated path %v", dt.Dist(), best)
			}
		}
		cost := dtw.NewCumCostMatrix(s1, s2, inner, window)
		if g := cost.Get(len(s1)-1, len(s2)-1); !near(g/u, want/u, 1e-9) {
			c.Failf("cumulated cost is %v, want %v", g, want)
		}
	})
}

// refAverage averages the points aligned by a (forward) path and samples them at weighted positions
func refAverage(s1, s2 [][]float64, path []dtw.Ends, w1, w2 int) [][]float64 {
	mean := func(e dtw.Ends) []float64 {
		r := make([]float64, len(s1[0]))
		for k := range r {
			r[k] = (s1[e.End0][k]*float64(w1) + s2[e.End1][k]*float64(w2)) / float64(w1+w2)
		}
		return r
	}
	pos := func(e dtw.Ends) int { return e.End0*w1 + e.End1*w2 }
	n := pos(path[len(path)-1])/(w1+w2) + 1
	res := make([][]float64, n)
	for i := range res {
		x := i * (w1 + w2)
		j := 0
		for pos(path[j]) < x {
			j++
		}
		res[i] = mean(path[j])
		if p := pos(path[j]); p != x {
			q := pos(path[j-1])
			f := float64(x-q) / float64(p-q)
			a, b := mean(path[j-1]), mean(path[j])
			for k := range a {
				res[i][k] = a[k]*(1-f) + b[k]*f
			}
		}
	}
	return res
}

// checkAverage checks an average of two series that respect the window
func checkAverage(got, s1, s2 [][]float64, inner dtw.PointSpace, window, w1, w2 int) string {
	tol := 1e-9 * maxAbs(s1, s2)
	want := ((len(s1)-1)*w1+(len(s2)-1)*w2)/(w1+w2) + 1
	if len(got) != want {
		return fmt.Sprintf("the average has %d points, want %d", len(got), want)
	}
	for k := range s1[0] {
		first := (s1[0][k]*float64(w1) + s2[0][k]*float64(w2)) / float64(w1+w2)
		if !(math.Abs(got[0][k]-first) <= tol) {
			return fmt.Sprintf("first point is %v, coordinate %d should be %v", got[0], k, first)
		}
		lo, hi := math.Inf(1), math.Inf(-1)
		for _, s := range [][][]float64{s1, s2} {
			for _, p := range s {
				lo, hi = math.Min(lo, p[k]), math.Max(hi, p[k])
			}
		}
		for i := range got {
			if len(got[i]) != len(s1[0]) || !(got[i][k] >= lo-tol && got[i][k] <= hi+tol) {
				return fmt.Sprintf("point %d of the average, %v, is outside the range of the points", i, got[i])
			}
		}
	}
	dt := dtw.NewDTWWindow(s1, s2, inner, window)
	path := forward(dt.Path())
	if msg := checkPath(path, len(s1), len(s2), window); msg != "" {
		return msg
	}
	ref := refAverage(s1, s2, path, w1, w2)
	if nearElt(got, ref, tol) {
		return ""
	}
	// any other cheapest path is as good
	if len(s1)+len(s2) <= 12 {
		best, ok := refDTW(s1, s2, inner, window), false
		u := costUnit(inner, s1, s2)
		allPaths(len(s1), len(s2), window, func(p []dtw.Ends) {
			if !ok && near(pathCost(s1, s2, inner, p)/u, best/u, 1e-9) && nearElt(got, refAverage(s1, s2, p, w1, w2), tol) {
				ok = true
			}
		})
		if ok {
			return ""
		}
	}
	return fmt.Sprintf("the average is %v, want %v", got, ref)
}

func TestC09(t *testing.T) {
	c := newCheck(t, "C09", "random pairs of series, weights and windows, the average recomputed along the reported (or any) cheapest path; non-trivial: different series of at least 2 points")
	c.Sub("average", 25000, func(c *Case) {
		m := drawMaxLen(c.T)
		s1, s2, inner, name := drawSeriesPair(c, 1, m)
		window := rapid.IntRange(0, m+5).Draw(c.T, "window")
		w1, w2 := drawWeight(c.T), drawWeight(c.T)
		c.Data("inner %s window %d weights %d %d s1 %v s2 %v", name, window, w1, w2, s1, s2)
		c.Nontrivial(len(s1) > 1 && len(s2) > 1 && !same(s1, s2))
		b1, b2 := deepCopy(s1), deepCopy(s2)
		r1, r2 := refShrink(s1, s2, window)
		c.Class(len(r1) != len(s1) || len(r2) != len(s2), "resampled")
		space := dtw.NewSpace(dtw.Conf{InnerSpace: inner, Window: window})
		got := space.Combine(s1, w1, s2, w2).([][]float64)
		if msg := checkAverage(got, r1, r2, inner, window, w1, w2); msg != "" {
			// the reference resampling may differ by rounding and break ties otherwise
			l1, l2 := dtw.ShrinkLongest(s1, s2, inner, window)
			if !nearElt(l1, r1, 1e-9*maxAbs(s1)) || !nearElt(l2, r2, 1e-9*maxAbs(s2)) {
				c.Failf("resampling gives %v %v, want %v %v", l1, l2, r1, r2)
			}
			if checkAverage(got, l1, l2, inner, window, w1, w2) != "" {
				c.Failf("Combine: %s", msg)
			}
		}
		scramble(got)
		if !same(s1, b1) || !same(s2, b2) {
			c.Failf("Combine alters or aliases its arguments")
		}
		gap := len(s1) - len(s2)
		if window == 0 || (gap <= window && -gap <= window) {
			got = dtw.NewDTWWindow(s1, s2, inner, window).DBA(w1, w2)
			if msg := checkAverage(got, s1, s2, inner, window, w1, w2); msg != "" {
				c.Failf("DBA: %s", msg)
			}
		}
		if name != "cosine" { // there, different points may be at distance 0
			self := space.Combine(s1, w1, deepCopy(s1), w2).([][]float64)
			if !nearElt(self, s1, 1e-9*maxAbs(s1)) {
				c.Failf("combining a series with itself gives %v", self)
			}
		}
		// copies are independent
		cp := space.Copy(s1)
		if !same(cp, s1) {
			c.Failf("copy of the series is %v", cp)
		}
		scramble(cp)
		if !same(s1, b1) {
			c.Failf("copy of the series shares memory with it")
		}
	})
}

func TestC10(t *testing.T) {
	c := newCheck(t, "C10", "random series of 2..200 points (sometimes thousands), target sizes 1..500 (sometimes up to 9600), windows, against exact-position linear interpolation; non-trivial: the size changes")
	c.Sub("resize", 30000, func(c *Case) {
		space, name, nz := drawInner(c.T)
		s := series(c.T, 2, []int{6, 40, 40, 200}[rapid.IntRange(0, 3).Draw(c.T, "m")], rapid.IntRange(1, 3).Draw(c.T, "dim"), rapid.IntRange(0, 3).Draw(c.T, "kind"), nz, "s")
		n := rapid.IntRange(1, []int{8, 60, 60, 500}[rapid.IntRange(0, 3).Draw(c.T, "m")]).Draw(c.T, "n")
		if rarely(c.T, 4) { // long
			n = rapid.SampledFrom([]int{700, 1500, 3000, 9000}).Draw(c.T, "about") + rapid.IntRange(0, 600).Draw(c.T, "more")
			if rapid.Bool().Draw(c.T, "both") {
				g, _ := rng(c.T)
				for i := g.Intn(4000); i > 0; i-- {
					s = append(s, s[g.Intn(len(s))])
				}
			}
		}
		c.Data("inner %s series %v size %d", name, s, n)
		c.Nontrivial(n != len(s))
		c.Class(n > len(s), "longer")
		c.Class(n < len(s), "shorter")
		b := deepCopy(s)
		got := dtw.Resize(s, n, space)
		tol := 1e-9 * maxAbs(s)
		if want := refResize(s, n); !nearElt(got, want, tol) {
			c.Failf("Resize gives %v, want %v", got, want)
		}
		if !same(s, b) {
			c.Failf("Resize alters the series")
		}
	})
	c.Sub("shrink", 15000, func(c *Case) {
		m := drawMaxLen(c.T)
		s1, s2, space, name := drawSeriesPair(c, 1, m)
		window := rapid.IntRange(0, m).Draw(c.T, "window")
		c.Data("inner %s window %d s1 %v s2 %v", name, window, s1, s2)
		w1, w2 := refShrink(s1, s2, window)
		c.Nontrivial(len(w1) != len(s1) || len(w2) != len(s2))
		b1, b2 := deepCopy(s1), deepCopy(s2)
		g1, g2 := dtw.ShrinkLongest(s1, s2, space, window)
		tol := 1e-9 * maxAbs(s1, s2)
		if !nearElt(g1, w1, tol) || !nearElt(g2, w2, tol) {
			c.Failf("ShrinkLongest gives %v %v, want %v %v", g1, g2, w1, w2)
		}
		if !same(s1, b1) || !same(s2, b2) {
			c.Failf("ShrinkLongest alters the series")
		}
	})
}
