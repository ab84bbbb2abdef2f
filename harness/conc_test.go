package distclusverif

import (
	"fmt"
	"hash/fnv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"golang.org/x/exp/rand"
	"pgregory.net/rapid"

	"distclusverif/vsync"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/kmeans"
	"github.com/wearelumenai/distclus/mcmc"
	"github.com/wearelumenai/distclus/streaming"
)

// bagSpace is a space of bags: an element is a string whose runes are the identities of
// the elements combined in it, so that a centroid tells which data it was made of.
type bagSpace struct {
	mu  *sync.Mutex
	bad *string // combination with weights that are not the sizes of the bags
}

func newBagSpace() bagSpace { return bagSpace{&sync.Mutex{}, new(string)} }

const firstID = 0x4e00

func bag(id int) core.Elemt { return string(rune(firstID + id)) }

func ids(e core.Elemt) (l []int) {
	for _, r := range e.(string) {
		l = append(l, int(r)-firstID)
	}
	return
}

func clustIDs(cl core.Clust) (l []int) {
	for _, e := range cl {
		l = append(l, ids(e)...)
	}
	return
}

func (s bagSpace) Dist(a, b core.Elemt) float64 {
	x, y := a.(string), b.(string)
	if x > y {
		x, y = y, x
	}
	if x == y {
		return 0
	}
	h := fnv.New32a()
	h.Write([]byte(x + "/" + y))
	return float64(h.Sum32()%1000+1) / 100
}

func (s bagSpace) Combine(a core.Elemt, wa int, b core.Elemt, wb int) core.Elemt {
	x, y := a.(string), b.(string)
	if len(ids(x)) != wa || len(ids(y)) != wb {
		s.mu.Lock()
		if *s.bad == "" {
			*s.bad = fmt.Sprintf("%v combined with weight %d and %v with weight %d", ids(x), wa, ids(y), wb)
		}
		s.mu.Unlock()
	}
	return x + y
}
func (s bagSpace) Copy(a core.Elemt) core.Elemt { return a }
func (s bagSpace) Dim(data []core.Elemt) int    { return 1 }

// seqr gives the order of recorded events
type seqr struct {
	mu sync.Mutex
	n  int
}

func (s *seqr) tick() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.n++
	return s.n
}

// perturb delays lock operations by seeded random virtual times
func perturb(seed int) (undo func()) {
	if seed == 0 {
		return func() {}
	}
	r := rand.New(rand.NewSource(uint64(seed)))
	var mu sync.Mutex
	vsync.Delay = func() {
		mu.Lock()
		x := r.Intn(24)
		mu.Unlock()
		switch {
		case x == 0:
			time.Sleep(time.Millisecond)
		case x == 1:
			time.Sleep(300 * time.Microsecond)
		case x == 2:
			time.Sleep(3 * time.Millisecond)
		case x < 7:
			time.Sleep(1)
		}
	}
	return func() { vsync.Delay = nil }
}

// spy observes an implementation: calls in their order
type spy struct {
	core.Impl
	seq    *seqr
	sleep  time.Duration
	mu     sync.Mutex
	inits  []spyCall
	iters  []spyCall
	pushes []int // ids the implementation received
	refuse func(n int) bool
	fail   func(n int) error
}

type spyCall struct {
	begin, end int // order of the call
	clust      core.Clust
	figs       core.RuntimeFigures
	err        error
}

func (s *spy) Init(m core.OCModel) (core.Clust, error) {
	c := spyCall{begin: s.seq.tick()}
	cl, err := s.Impl.Init(m)
	c.end, c.clust, c.err = s.seq.tick(), core.Clust(deepCopies(cl)), err
	s.mu.Lock()
	s.inits = append(s.inits, c)
	s.mu.Unlock()
	return cl, err
}

func (s *spy) Iterate(m core.OCModel) (core.Clust, core.RuntimeFigures, error) {
	c := spyCall{begin: s.seq.tick()}
	time.Sleep(s.sleep)
	if s.fail != nil {
		s.mu.Lock()
		n := len(s.iters)
		s.mu.Unlock()
		if err := s.fail(n); err != nil {
			s.mu.Lock()
			s.iters = append(s.iters, spyCall{begin: c.begin, end: s.seq.tick(), err: err})
			s.mu.Unlock()
			return nil, nil, err
		}
	}
	cl, f, err := s.Impl.Iterate(m)
	c.end, c.clust, c.err, c.figs = s.seq.tick(), core.Clust(deepCopies(cl)), err, copyFigs(f)
	s.mu.Lock()
	s.iters = append(s.iters, c)
	s.mu.Unlock()
	return cl, f, err
}

func (s *spy) Push(e core.Elemt, m core.OCModel) error {
	s.mu.Lock()
	n := len(s.pushes)
	if str, ok := e.(string); ok {
		s.pushes = append(s.pushes, ids(str)...)
	}
	refused := s.refuse != nil && s.refuse(n)
	s.mu.Unlock()
	if refused {
		return errPush
	}
	return s.Impl.Push(e, m)
}

// pushRec is a push and its result
type pushRec struct {
	id, client, begin, end int
	ok                     bool
	err                    error
}

// cop is an operation of a concurrent client
type cop struct {
	kind  string
	sleep int // 100 µs
}

func (o cop) String() string { return fmt.Sprintf("%d:%s", o.sleep, o.kind) }

func drawClient(t *rapid.T, kinds []string, lo, hi int) (l []cop) {
	n := rapid.IntRange(lo, hi).Draw(t, "nops")
	for i := 0; i < n; i++ {
		l = append(l, cop{rapid.SampledFrom(kinds).Draw(t, "op"), rapid.SampledFrom([]int{0, 0, 0, 1, 4, 10, 13, 30, 70}).Draw(t, "sleep")})
	}
	return
}

// clients runs concurrent clients; the result tells which one is stuck
func clients(n int, f func(client int)) string { return clientsWithin(wedged, n, f) }

func clientsWithin(d time.Duration, n int, f func(client int)) string {
	done := make([]bool, n)
	var mu sync.Mutex
	if !within(d, func() {
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				f(i)
				mu.Lock()
				done[i] = true
				mu.Unlock()
			}()
		}
		wg.Wait()
	}) {
		mu.Lock()
		defer mu.Unlock()
		for i, d := range done {
			if !d {
				return fmt.Sprintf("client %d is stuck", i)
			}
		}
	}
	return ""
}

// precedes: the order of consumption respects the order of pushes that do not overlap
func orderOf(consumed []int, pushes map[int]pushRec) string {
	for i := 0; i < len(consumed); i++ {
		for j := i + 1; j < len(consumed); j++ {
			a, b := pushes[consumed[i]], pushes[consumed[j]]
			if b.end < a.begin {
				return fmt.Sprintf("element %d is consumed before %d, which was pushed before", consumed[i], consumed[j])
			}
		}
	}
	return ""
}

func TestC21(t *testing.T) {
	c := newCheck(t, "C21", "streaming in a space of bags (centers tell which elements they hold): random initial data, buffer size, configuration, 1..3 concurrent pushers and a controller, with random lock delays; every consumption, refusal, center and weight is checked against the accepted pushes; non-trivial: a refused push or an iteration on an empty queue, and at least three elements consumed")
	c.Sub("large queue", 100, func(c *Case) { largeQueue(c, t) })
	c.Sub("queue", 8000, func(c *Case) {
		n0 := rapid.IntRange(0, 5).Draw(c.T, "n0")
		conf := streaming.Conf{BufferSize: rapid.IntRange(max(1, n0), 9).Draw(c.T, "buffer"), OutAfter: rapid.IntRange(2, 6).Draw(c.T, "outafter"),
			OutRatio: []float64{0, 0.5, 1, 3}[rapid.IntRange(0, 3).Draw(c.T, "outratio")], Mu: []float64{0, 0.2, 1.5, -1}[rapid.IntRange(0, 3).Draw(c.T, "mu")],
			Sigma: []float64{0, 0.5, 2}[rapid.IntRange(0, 2).Draw(c.T, "sigma")]}
		if rapid.IntRange(0, 2).Draw(c.T, "limited") == 2 {
			conf.Iter = rapid.IntRange(1, 12).Draw(c.T, "iter")
		}
		seed := rapid.IntRange(1, 1<<30).Draw(c.T, "seed")
		pseed := max(0, rapid.IntRange(-500, 500).Draw(c.T, "perturbation"))
		var cl [][]cop
		for i := rapid.IntRange(1, 3).Draw(c.T, "pushers"); i > 0; i-- {
			cl = append(cl, drawClient(c.T, []string{"push"}, 0, 14))
		}
		pushers := len(cl)
		kinds := []string{"play", "play", "play", "pause", "init", "sleep", "sleep"}
		if rapid.Bool().Draw(c.T, "stops") {
			kinds = append(kinds, "stop")
		}
		cl = append(cl, drawClient(c.T, kinds, 0, 10))
		c.Data("initially %d, buffer %d outAfter %d outRatio %v mu %v sigma %v iter %d seed %d perturbation %d clients %v", n0, conf.BufferSize, conf.OutAfter, conf.OutRatio, conf.Mu, conf.Sigma, conf.Iter, seed, pseed, cl)
		conf.RGen = rand.New(rand.NewSource(uint64(seed)))
		c.bubble(t, func() string {
			defer perturb(pseed)()
			space := newBagSpace()
			sq := &seqr{}
			recs := map[int]pushRec{}
			var initial []core.Elemt
			next := 0
			for ; next < n0; next++ {
				initial = append(initial, bag(next))
				recs[next] = pushRec{id: next, client: -1, begin: next - 100, end: next - 100, ok: true}
			}
			inner := streaming.NewAlgo(conf, space, initial)
			sp := &spy{Impl: inner.Impl(), seq: sq, sleep: time.Millisecond}
			algo := core.NewAlgo(inner.Conf(), sp, space)
			var mu sync.Mutex
			push := func(client int) {
				mu.Lock()
				r := pushRec{id: next, client: client}
				next++
				mu.Unlock()
				r.begin = sq.tick()
				r.err = algo.Push(bag(r.id))
				r.ok = r.err == nil
				r.end = sq.tick()
				mu.Lock()
				recs[r.id] = r
				mu.Unlock()
			}
			if m := clients(len(cl), func(i int) {
				for _, o := range cl[i] {
					time.Sleep(time.Duration(o.sleep) * 100 * time.Microsecond)
					switch o.kind {
					case "push":
						push(i)
					case "play":
						algo.Play()
					case "pause":
						algo.Pause()
					case "stop":
						algo.Stop()
					case "init":
						algo.Init()
					}
				}
			}); m != "" {
				return m
			}
			// everything accepted is consumed in the end
			msg := ""
			for i := 0; i < 60 && msg == ""; i++ {
				time.Sleep(30 * time.Millisecond)
				if s := algo.Status(); s.Value == core.Running && conf.Iter == 0 {
					time.Sleep(100 * time.Millisecond)
					break
				} else if s.Value != core.Running {
					before := len(sp.inits) + len(sp.iters)
					if s.Value == core.Ready {
						algo.Stop()
					}
					if err := algo.Play(); err != nil && len(sp.inits) == before {
						break // nothing more to start with
					} else if err != nil && sp.inits[len(sp.inits)-1].err != nil {
						break
					}
				}
			}
			if !within(wedged, func() { algo.Stop() }) {
				return "the final stop does not return"
			}
			synctest.Wait()
			time.Sleep(time.Second)
			// the history
			var consumed []int
			seen := map[int]bool{}
			var current []int // held by the centers
			i, j := 0, 0
			empty, refused := false, false
			accepted := 0
			for _, r := range recs {
				if r.ok {
					accepted++
				} else {
					refused = true
				}
			}
			queued := func(at int) (sure, may []int) { // accepted and not consumed yet
				for id := 0; id < next; id++ {
					if r := recs[id]; r.ok && !seen[id] {
						if r.end < at {
							sure = append(sure, id)
						}
						if r.begin < at {
							may = append(may, id)
						}
					}
				}
				return
			}
			for i < len(sp.inits) || j < len(sp.iters) {
				isInit := j == len(sp.iters) || i < len(sp.inits) && sp.inits[i].begin < sp.iters[j].begin
				var call spyCall
				var desc string
				if isInit {
					call, desc = sp.inits[i], fmt.Sprintf("initialisation %d", i)
					i++
				} else {
					call, desc = sp.iters[j], fmt.Sprintf("iteration %d", j)
					j++
				}
				sure, _ := queued(call.begin)
				if isInit && call.err != nil || !isInit && call.clust == nil {
					if len(sure) > 0 {
						return fmt.Sprintf("%s (%v) ignores the elements %v", desc, call.err, sure)
					}
					if isInit && call.clust != nil {
						return fmt.Sprintf("%s fails with %v and gives centroids %v", desc, call.err, clustIDs(call.clust))
					}
					empty = true
					if isInit {
						current = nil
					}
					continue
				}
				if call.err != nil {
					return fmt.Sprintf("%s: %v", desc, call.err)
				}
				if isInit {
					current = nil
				}
				got := clustIDs(call.clust)
				count := map[int]int{}
				for _, x := range got {
					count[x]++
				}
				for _, x := range current {
					count[x]--
				}
				var fresh []int
				for x, k := range count {
					switch {
					case k == 1 && !seen[x]:
						fresh = append(fresh, x)
					case k != 0:
						return fmt.Sprintf("%s: centers hold %v after %v, element %d is there %+d times (consumed before: %v)", desc, got, current, x, k, seen[x])
					}
				}
				if len(fresh) != 1 {
					return fmt.Sprintf("%s: centers hold %v after %v", desc, got, current)
				}
				r := recs[fresh[0]]
				if !r.ok || r.begin > call.end {
					return fmt.Sprintf("%s consumes element %d (accepted %v, pushed at %d, %d now)", desc, fresh[0], r.ok, r.begin, call.end)
				}
				seen[fresh[0]] = true
				consumed = append(consumed, fresh[0])
				current = got
				if isInit && len(call.clust) != 1 {
					return fmt.Sprintf("%s gives %d centers", desc, len(call.clust))
				}
			}
			if *space.bad != "" {
				return "weights are not the numbers of elements: " + *space.bad
			}
			if m := orderOf(consumed, recs); m != "" {
				return m + fmt.Sprintf(" (consumed %v)", consumed)
			}
			last := map[int]int{}
			for _, x := range consumed { // order of one pusher
				if p, ok := last[recs[x].client]; ok && p > x {
					return fmt.Sprintf("element %d is consumed after %d of the same pusher", x, p)
				}
				last[recs[x].client] = x
			}
			if len(consumed) != accepted {
				return fmt.Sprintf("%d elements accepted, %d consumed (%v)", accepted, len(consumed), consumed)
			}
			// refusals: only when the queue is full, acceptances: only when it is not
			for id, r := range recs {
				if id < n0 {
					continue
				}
				most, least := 0, 0
				consumedBefore, consumedMaybe := 0, 0
				for _, k := range append(append([]spyCall{}, sp.inits...), sp.iters...) {
					if k.clust != nil {
						if k.end < r.begin {
							consumedBefore++
						}
						if k.begin < r.end {
							consumedMaybe++
						}
					}
				}
				for oid, o := range recs {
					if oid != id && o.ok {
						if o.begin < r.end {
							most++
						}
						if o.end < r.begin {
							least++
						}
					}
				}
				if !r.ok && most-consumedBefore < conf.BufferSize {
					return fmt.Sprintf("element %d is refused (%v) with at most %d elements waiting, buffer %d", id, r.err, most-consumedBefore, conf.BufferSize)
				}
				if r.ok && least-consumedMaybe+1 > conf.BufferSize {
					return fmt.Sprintf("element %d is accepted with %d elements waiting, buffer %d", id, least-consumedMaybe, conf.BufferSize)
				}
			}
			// the algorithm counts consumptions since the last initialisation
			n := 0
			if len(sp.inits) > 0 {
				for _, k := range sp.iters {
					if k.clust != nil && k.begin > sp.inits[len(sp.inits)-1].end {
						n++
					}
				}
				if f := algo.RuntimeFigures()[core.Iterations]; f != float64(n) {
					return fmt.Sprintf("%v iterations counted, %d elements consumed since the last initialisation", f, n)
				}
				if k := sp.inits[len(sp.inits)-1]; k.err == nil {
					if got := clustIDs(algo.Centroids()); !sameInts(got, current) {
						return fmt.Sprintf("published centers hold %v, want %v", got, current)
					}
				}
			}
			c.Class(refused, "refused push")
			c.Class(empty, "empty queue")
			c.Class(pushers > 1, "concurrent pushers")
			c.Class(len(sp.inits) > 1, "re-initialised")
			c.Nontrivial((refused || empty) && len(consumed) >= 3)
			return ""
		})
	})
	c.Sub("crowd", 3000, func(c *Case) { crowdQueue(c, t) })
}

var _ = strings.Join
var _ = kmeans.NewAlgo
var _ = mcmc.NewAlgo
