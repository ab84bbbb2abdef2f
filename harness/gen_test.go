package distclusverif

import (
	"fmt"
	"math"
	"slices"
	"strings"

	"golang.org/x/exp/rand"
	"pgregory.net/rapid"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/cosinus"
	"github.com/wearelumenai/distclus/dtw"
	"github.com/wearelumenai/distclus/euclid"
)

// ---- numbers ----

// coord draws a coordinate; kind 0: small integers (many ties and duplicates), 1: quarters,
// 2: ordinary reals, 3: mixed magnitudes
func coord(t *rapid.T, kind int, l string) float64 {
	switch kind {
	case 0:
		return float64(rapid.IntRange(-3, 3).Draw(t, l))
	case 1:
		return float64(rapid.IntRange(-40, 40).Draw(t, l)) / 4
	case 2:
		return float64(rapid.IntRange(-1000000, 1000000).Draw(t, l)) / 9973
	default:
		m := float64(rapid.IntRange(-999, 999).Draw(t, l))
		e := rapid.IntRange(-6, 6).Draw(t, l+"e")
		return m * math.Pow(10, float64(e))
	}
}

func vector(t *rapid.T, dim, kind int, l string) []float64 {
	v := make([]float64, dim)
	for i := range v {
		v[i] = coord(t, kind, l)
	}
	return v
}

// seededVectors gives vectors like vector, that only cost the drawing of a seed
func seededVectors(t *rapid.T, dim, kind int) func() []float64 {
	g := rand.New(rand.NewSource(uint64(rapid.IntRange(1, 1<<30).Draw(t, "vectors seed"))))
	return func() []float64 {
		v := make([]float64, dim)
		for i := range v {
			switch kind {
			case 0:
				v[i] = float64(g.Intn(7) - 3)
			case 1:
				v[i] = float64(g.Intn(81)-40) / 4
			case 2:
				v[i] = float64(g.Intn(2000001)-1000000) / 9973
			default:
				v[i] = float64(g.Intn(1999)-999) * math.Pow(10, float64(g.Intn(13)-6))
			}
		}
		return v
	}
}

// wideDim draws the dimension of vectors: small, rarely large
func wideDim(t *rapid.T) int {
	if rarely(t, 6) {
		return rapid.SampledFrom([]int{8, 16, 17, 32, 33, 64, 100, 130, 257, 300}).Draw(t, "wide")
	}
	return rapid.IntRange(1, 5).Draw(t, "dim")
}

// vectors gives the generator of the vectors of a dimension
func vectors(t *rapid.T, dim, kind int) func(t *rapid.T, l string) []float64 {
	if dim <= 5 {
		return func(t *rapid.T, l string) []float64 { return vector(t, dim, kind, l) }
	}
	draw := seededVectors(t, dim, kind)
	return func(*rapid.T, string) []float64 { return draw() }
}

func nonZero(v []float64) []float64 {
	for _, x := range v {
		if x != 0 {
			return v
		}
	}
	v[0] = 1
	return v
}

// ---- spaces ----

// sp is a generated space together with a generator of its elements
type sp struct {
	name  string
	space core.Space
	gen   func(t *rapid.T, l string) core.Elemt
	mean  bool // Combine is a weighted mean of float vectors
	unit  float64
}

// lineSpace is a user-defined space of float64 numbers
type lineSpace struct{}

func (lineSpace) Dist(a, b core.Elemt) float64 { return math.Abs(a.(float64) - b.(float64)) }
func (lineSpace) Combine(a core.Elemt, wa int, b core.Elemt, wb int) core.Elemt {
	return (a.(float64)*float64(wa) + b.(float64)*float64(wb)) / float64(wa+wb)
}
func (lineSpace) Copy(a core.Elemt) core.Elemt { return a }
func (lineSpace) Dim(data []core.Elemt) int    { return 1 }

// tableSpace is a user-defined space of ints with an arbitrary symmetric non-negative distance table
type tableSpace struct{ d [][]float64 }

func (s tableSpace) Dist(a, b core.Elemt) float64 { return s.d[a.(int)][b.(int)] }
func (s tableSpace) Combine(a core.Elemt, wa int, b core.Elemt, wb int) core.Elemt {
	if wb > wa {
		return b
	}
	return a
}
func (s tableSpace) Copy(a core.Elemt) core.Elemt { return a }
func (s tableSpace) Dim(data []core.Elemt) int    { return 1 }

// pairSpace is a user-defined space of struct pointers: elements are not slices of floats
type pairElt struct{ X, Y float64 }
type pairSpace struct{}

func (pairSpace) Dist(a, b core.Elemt) float64 {
	p, q := a.(*pairElt), b.(*pairElt)
	return math.Abs(p.X-q.X) + math.Abs(p.Y-q.Y)
}
func (pairSpace) Combine(a core.Elemt, wa int, b core.Elemt, wb int) core.Elemt {
	p, q := a.(*pairElt), b.(*pairElt)
	w := float64(wa + wb)
	return &pairElt{(p.X*float64(wa) + q.X*float64(wb)) / w, (p.Y*float64(wa) + q.Y*float64(wb)) / w}
}
func (pairSpace) Copy(a core.Elemt) core.Elemt { p := *a.(*pairElt); return &p }
func (pairSpace) Dim(data []core.Elemt) int    { return 2 }

func euclidSp(t *rapid.T) sp {
	dim := wideDim(t)
	kind := rapid.IntRange(0, 3).Draw(t, "kind")
	gen := vectors(t, dim, kind)
	return sp{fmt.Sprintf("euclid%d", dim), euclid.NewSpace(),
		func(t *rapid.T, l string) core.Elemt { return gen(t, l) }, true, 1}
}

func cosinusSp(t *rapid.T) sp {
	dim := wideDim(t)
	kind := rapid.IntRange(0, 2).Draw(t, "kind")
	gen := vectors(t, dim, kind)
	return sp{fmt.Sprintf("cosinus%d", dim), cosinus.NewSpace(),
		func(t *rapid.T, l string) core.Elemt { return nonZero(gen(t, l)) }, true, 1}
}

func series(t *rapid.T, minLen, maxLen, dim, kind int, nz bool, l string) [][]float64 {
	n := rapid.IntRange(minLen, maxLen).Draw(t, l+"len")
	s := make([][]float64, n)
	for i := range s {
		s[i] = vector(t, dim, kind, l)
		if nz { // averages of such points are not zero either
			s[i][0] = math.Abs(s[i][0]) + 1
		}
	}
	return s
}

func dtwSp(t *rapid.T) sp {
	dim := rapid.IntRange(1, 3).Draw(t, "dim")
	kind := rapid.IntRange(0, 2).Draw(t, "kind")
	window := rapid.IntRange(0, 5).Draw(t, "window")
	inner := dtw.PointSpace(euclid.NewSpace())
	cos := rapid.IntRange(0, 3).Draw(t, "inner") == 0
	if cos {
		inner = cosinus.NewSpace()
	}
	return sp{fmt.Sprintf("dtw%d/w%d/cos=%v", dim, window, cos), dtw.NewSpace(dtw.Conf{InnerSpace: inner, Window: window}),
		func(t *rapid.T, l string) core.Elemt { return series(t, 2, 7, dim, kind, cos, l) }, false, 1}
}

func lineSp(t *rapid.T) sp {
	kind := rapid.IntRange(0, 3).Draw(t, "kind")
	return sp{"line", lineSpace{}, func(t *rapid.T, l string) core.Elemt { return coord(t, kind, l) }, false, 1}
}

func pairSp(t *rapid.T) sp {
	kind := rapid.IntRange(0, 2).Draw(t, "kind")
	return sp{"pair", pairSpace{}, func(t *rapid.T, l string) core.Elemt {
		return &pairElt{coord(t, kind, l), coord(t, kind, l)}
	}, false, 1}
}

func tableSp(t *rapid.T) sp {
	n := rapid.IntRange(1, 8).Draw(t, "tablesize")
	kind := rapid.IntRange(0, 2).Draw(t, "kind")
	d := make([][]float64, n)
	for i := range d {
		d[i] = make([]float64, n)
	}
	for i := range d {
		for j := 0; j <= i; j++ {
			d[i][j] = math.Abs(coord(t, kind, "d"))
			d[j][i] = d[i][j]
		}
	}
	return sp{fmt.Sprintf("table%v", d), tableSpace{d},
		func(t *rapid.T, l string) core.Elemt { return rapid.IntRange(0, n-1).Draw(t, l) }, false, 1}
}

// safeSp draws any space; cosine elements stay in a half space so that no average of them is zero
func safeSp(t *rapid.T) sp {
	s := anySp(t)
	if strings.HasPrefix(s.name, "cosinus") {
		gen := s.gen
		s.gen = func(t *rapid.T, l string) core.Elemt {
			v := gen(t, l).([]float64)
			v[0] = math.Abs(v[0]) + 0.5
			return v
		}
	}
	return s
}

// scaledSpace has the elements of another space in other units of distance
type scaledSpace struct {
	core.Space
	unit float64
}

func (s scaledSpace) Dist(a, b core.Elemt) float64 { return s.Space.Dist(a, b) * s.unit }

func anySp(t *rapid.T) sp {
	s := anyUnitSp(t)
	s.unit = 1
	if e := rapid.SampledFrom([]int{0, 0, 0, 0, 0, 0, 0, 0, -40, 40}).Draw(t, "unit"); e != 0 {
		s.unit = math.Ldexp(1, e)
		s.space = scaledSpace{s.space, s.unit}
		s.name += fmt.Sprint("*2^", e)
	}
	return s
}

func anyUnitSp(t *rapid.T) sp {
	switch rapid.IntRange(0, 5).Draw(t, "space") {
	case 0:
		return euclidSp(t)
	case 1:
		return cosinusSp(t)
	case 2:
		return dtwSp(t)
	case 3:
		return lineSp(t)
	case 4:
		return tableSp(t)
	default:
		return pairSp(t)
	}
}

// rarely is true once out of 2^n times (integers and reals are drawn near their bounds more often than that)
func rarely(t *rapid.T, n int) bool {
	for ; n > 0; n-- {
		if !rapid.Bool().Draw(t, "rare") {
			return false
		}
	}
	return true
}

// upTo draws between 1 and max, or far more when there are many elements
func upTo(t *rapid.T, max, n int, l string) int {
	if n > many && rapid.Bool().Draw(t, "many") {
		max = n/2 + 1
		if n > 4*many { // bulk
			max = many
		}
	}
	return rapid.IntRange(1, max).Draw(t, l)
}

// many is more elements than ordinary cases have
const many = 50

// wide is true for vectors of many coordinates
func (s sp) wide() bool {
	var d int
	_, err := fmt.Sscanf(strings.TrimLeft(s.name, "euclidcosn"), "%d", &d)
	return err == nil && d > 5
}

// elemts draws between min and max elements (sometimes many more), some of them (references to) duplicates
func (s sp) elemts(t *rapid.T, min, max int, l string) []core.Elemt {
	bulk := 0
	if max > 3 && rarely(t, 6) {
		min, max = many+1, many+150
		if rarely(t, 3) {
			bulk = 4*many + rapid.IntRange(1, []int{300, 1000, bulkMax - 4*many}[rapid.IntRange(0, 2).Draw(t, "bulkkind")]).Draw(t, "bulk")
			if strings.HasPrefix(s.name, "dtw") {
				bulk = 4*many + bulk/10
			}
			if s.wide() {
				bulk = 4*many + bulk/20
			}
		}
	}
	n := rapid.IntRange(min, max).Draw(t, "n"+l)
	r := make([]core.Elemt, n)
	for i := range r {
		switch dup := rapid.IntRange(0, 9).Draw(t, "dup"); {
		case i > 0 && dup == 0: // the same reference
			r[i] = r[rapid.IntRange(0, i-1).Draw(t, "dupof")]
		case i > 0 && dup == 1:
			r[i] = deepCopy(r[rapid.IntRange(0, i-1).Draw(t, "dupof")])
		default:
			r[i] = s.gen(t, l)
		}
	}
	if bulk > 0 {
		g := rand.New(rand.NewSource(uint64(rapid.IntRange(1, 1<<30).Draw(t, "bulkseed"))))
		pool := r[:n:n]
		if rapid.IntRange(0, 2).Draw(t, "uniform") == 0 { // few elements that differ, far apart
			pool = pool[:rapid.IntRange(1, 2).Draw(t, "distinct")]
			other := r[n-1]
			for r = r[:0:0]; len(r) < bulk; {
				r = append(r, deepCopy(pool[g.Intn(len(pool))]))
			}
			for i := g.Intn(4); i >= 0; i-- {
				r[g.Intn(len(r))] = deepCopy(other)
			}
		}
		for len(r) < bulk {
			r = append(r, mixed(pool[g.Intn(n)], pool[g.Intn(n)], g))
		}
	}
	if rapid.IntRange(0, 3).Draw(t, "flat") == 0 {
		flatten(r)
		if strings.HasPrefix(s.name, "dtw") {
			windows(t, r)
		}
	}
	return r
}

// bulkMax is the number of elements of the largest cases of ordinary checks
const bulkMax = 2500

// mixed is an element with coordinates of two others
func mixed(a, b core.Elemt, g *rand.Rand) core.Elemt {
	switch v := deepCopy(a).(type) {
	case []float64:
		for i := range v {
			if o := b.([]float64); g.Intn(2) == 0 && i < len(o) {
				v[i] = o[i]
			}
		}
		for i := range v {
			if v[i] != 0 {
				return v
			}
		}
		return deepCopy(a) // no new null vector
	case *pairElt:
		v.Y = b.(*pairElt).Y
		return v
	case float64:
		if g.Intn(2) == 0 {
			return v + float64(g.Intn(100))/4
		}
		return v
	default:
		return v
	}
}

// flatten lays vectors out as successive rows of one array, as matrices often are:
// each vector has the next ones in its spare capacity
func flatten(l []core.Elemt) {
	var flat []float64
	for _, e := range l {
		if v, ok := e.([]float64); ok {
			flat = append(flat, v...)
		}
	}
	for i, e := range l {
		if v, ok := e.([]float64); ok {
			l[i] = flat[:len(v)]
			flat = flat[len(v):]
		}
	}
}

// windows lays series out as successive ones of one long series, possibly as overlapping windows of it,
// of which some have the same start
func windows(t *rapid.T, l []core.Elemt) {
	var flat [][]float64
	var starts []int
	for _, e := range l {
		starts = append(starts, len(flat))
		flat = append(flat, e.([][]float64)...)
	}
	g := rand.New(rand.NewSource(uint64(rapid.IntRange(1, 1<<30).Draw(t, "windows"))))
	overlap := g.Intn(2) == 0
	for i, e := range l {
		start, n := starts[i], len(e.([][]float64))
		if overlap {
			start = starts[g.Intn(len(l))]
			if i > 0 && g.Intn(2) == 0 {
				start = starts[i-1]
			}
			starts[i] = start
			n = min(1+g.Intn(2*n), len(flat)-start)
		}
		l[i] = flat[start : start+n]
	}
}

// needles draws thousands of elements equal to a few ones, but for some others at random positions
func needles(t *rapid.T) (s sp, data, common, others []core.Elemt) {
	if rapid.Bool().Draw(t, "line") {
		s = lineSp(t)
	} else {
		s = euclidSp(t)
	}
	n := rapid.SampledFrom([]int{300, 1500, 6000, 20000}).Draw(t, "about")
	n -= rapid.IntRange(0, n/4).Draw(t, "less")
	for i := rapid.IntRange(1, 4).Draw(t, "values"); i > 0; i-- {
		common = append(common, s.gen(t, "common"))
	}
	for i := rapid.IntRange(1, 3).Draw(t, "others"); i > 0; i-- {
		others = append(others, s.gen(t, "other"))
	}
	g, _ := rng(t)
	data = make([]core.Elemt, n)
	for i := range data {
		data[i] = deepCopy(common[g.Intn(len(common))])
	}
	for _, e := range others {
		data[g.Intn(n)] = deepCopy(e)
	}
	return
}

func show(l []core.Elemt) string {
	if len(l) > 4*bulkMax {
		return fmt.Sprintf("%d elements", len(l))
	}
	s := "["
	for i, e := range l {
		if i > 0 {
			s += " "
		}
		if p, ok := e.(*pairElt); ok {
			s += fmt.Sprintf("%v", *p)
		} else {
			s += fmt.Sprintf("%v", e)
		}
	}
	return s + "]"
}

func deepCopy(e core.Elemt) core.Elemt {
	switch v := e.(type) {
	case []float64:
		return append([]float64{}, v...)
	case [][]float64:
		r := make([][]float64, len(v))
		for i := range v {
			r[i] = append([]float64{}, v[i]...)
		}
		return r
	case *pairElt:
		p := *v
		return &p
	case nil:
		return nil
	default: // values
		return v
	}
}

func deepCopies(l []core.Elemt) []core.Elemt {
	if l == nil {
		return nil
	}
	r := make([]core.Elemt, len(l))
	for i, e := range l {
		r[i] = deepCopy(e)
	}
	return r
}

// same compares two elements bit for bit (NaN equals NaN)
func same(a, b core.Elemt) bool {
	switch v := a.(type) {
	case []float64:
		w, ok := b.([]float64)
		return ok && sameFloats(v, w)
	case [][]float64:
		w, ok := b.([][]float64)
		if !ok || len(v) != len(w) {
			return false
		}
		for i := range v {
			if !sameFloats(v[i], w[i]) {
				return false
			}
		}
		return true
	case *pairElt:
		w, ok := b.(*pairElt)
		return ok && *v == *w
	default:
		return a == b
	}
}

func sameFloats(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] && !(math.IsNaN(a[i]) && math.IsNaN(b[i])) {
			return false
		}
	}
	return true
}

// sameBits tells whether elements are exactly the same, signs of zeros included
func sameBits(a, b []core.Elemt) bool {
	if !sameAll(a, b) {
		return false
	}
	signs := func(l []core.Elemt) (r []bool) {
		for _, e := range l {
			switch v := e.(type) {
			case float64:
				r = append(r, math.Signbit(v))
			case []float64:
				for _, x := range v {
					r = append(r, math.Signbit(x))
				}
			case [][]float64:
				for _, p := range v {
					for _, x := range p {
						r = append(r, math.Signbit(x))
					}
				}
			}
		}
		return
	}
	return slices.Equal(signs(a), signs(b))
}

// negativeZeros turns the null coordinates of vectors and series into negative zeros
func negativeZeros(l []core.Elemt) {
	neg := func(v []float64) {
		for i := range v {
			if v[i] == 0 {
				v[i] = math.Copysign(0, -1)
			}
		}
	}
	for _, e := range l {
		switch v := e.(type) {
		case []float64:
			neg(v)
		case [][]float64:
			for _, p := range v {
				neg(p)
			}
		}
	}
}

// rescale multiplies, rarely, all the coordinates by a large or small power of two
func rescale(t *rapid.T, ls ...[]core.Elemt) {
	e := rapid.SampledFrom([]int{0, 0, 0, 0, -30, -60, -200, 200, 60}).Draw(t, "scale")
	if e == 0 {
		return
	}
	done := map[*float64]bool{}
	mul := func(x *float64) {
		if !done[x] {
			done[x] = true
			*x = math.Ldexp(*x, e)
		}
	}
	for _, l := range ls {
		for i, e := range l {
			switch v := e.(type) {
			case float64:
				mul(&v)
				l[i] = v
			case *pairElt:
				mul(&v.X)
				mul(&v.Y)
			case []float64:
				for j := range v {
					mul(&v[j])
				}
			case [][]float64:
				for _, p := range v {
					for j := range p {
						mul(&p[j])
					}
				}
			}
		}
	}
}

func sameAll(a, b []core.Elemt) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !same(a[i], b[i]) {
			return false
		}
	}
	return true
}

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// near compares floats up to a relative and an absolute tolerance
func near(a, b, tol float64) bool {
	if a == b || math.IsNaN(a) && math.IsNaN(b) {
		return true
	}
	return math.Abs(a-b) <= tol*(1+math.Max(math.Abs(a), math.Abs(b)))
}

// maxAbs is the largest coordinate magnitude of float elements
func maxAbs(l ...core.Elemt) (m float64) {
	up := func(x float64) {
		if a := math.Abs(x); a > m {
			m = a
		}
	}
	for _, e := range l {
		switch v := e.(type) {
		case []float64:
			for _, x := range v {
				up(x)
			}
		case [][]float64:
			for _, p := range v {
				for _, x := range p {
					up(x)
				}
			}
		case float64:
			up(v)
		case *pairElt:
			up(v.X)
			up(v.Y)
		}
	}
	return
}

// nearElt compares two elements with an absolute tolerance
func nearElt(a, b core.Elemt, tol float64) bool {
	switch v := a.(type) {
	case []float64:
		w, ok := b.([]float64)
		if !ok || len(v) != len(w) {
			return false
		}
		for i := range v {
			if !(math.Abs(v[i]-w[i]) <= tol) {
				return false
			}
		}
		return true
	case [][]float64:
		w, ok := b.([][]float64)
		if !ok || len(v) != len(w) {
			return false
		}
		for i := range v {
			if !nearElt(v[i], w[i], tol) {
				return false
			}
		}
		return true
	case float64:
		w, ok := b.(float64)
		return ok && math.Abs(v-w) <= tol
	case *pairElt:
		w, ok := b.(*pairElt)
		return ok && math.Abs(v.X-w.X) <= tol && math.Abs(v.Y-w.Y) <= tol
	default:
		return a == b
	}
}

// scripted is a random source that answers given values, then a generated stream
type scripted struct {
	vals []uint64
	next rand.Source
	used int
}

func (s *scripted) Seed(seed uint64) { s.next.Seed(seed) }
func (s *scripted) Uint64() uint64 {
	s.used++
	if len(s.vals) > 0 {
		v := s.vals[0]
		s.vals = s.vals[1:]
		return v
	}
	return s.next.Uint64()
}

// drawWord draws a 64 bit word with frequent boundary values
func drawWord(t *rapid.T) uint64 {
	switch rapid.IntRange(0, 5).Draw(t, "word") {
	case 0:
		return 0
	case 1:
		return math.MaxUint64
	case 2:
		return math.MaxUint64 - uint64(rapid.IntRange(1, 1<<14).Draw(t, "hi"))
	case 3:
		return uint64(rapid.IntRange(1, 1<<14).Draw(t, "lo"))
	default:
		return rapid.Uint64().Draw(t, "u64")
	}
}

// rng draws a reproducible generator
func rng(t *rapid.T) (*rand.Rand, uint64) {
	s := uint64(rapid.IntRange(1, 1<<30).Draw(t, "rgen"))
	return rand.New(rand.NewSource(s)), s
}

// affordable bounds a number of clusters so that k-means++ among n elements, which measures n.k.k/2 distances, takes seconds at most
func affordable(s sp, n, k int) int {
	budget := 2e7
	if strings.HasPrefix(s.name, "dtw") {
		budget = 2e5
	}
	return min(k, 8+int(math.Sqrt(budget/float64(max(n, 1)))))
}
