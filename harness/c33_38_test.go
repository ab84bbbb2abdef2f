package distclusverif

import (
	"errors"
	"fmt"
	"maps"
	"math"
	"runtime"
	"slices"
	"strings"
	"testing"
	"time"

	"golang.org/x/exp/rand"
	"pgregory.net/rapid"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/cosinus"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
	"github.com/wearelumenai/distclus/mcmc"
	"github.com/wearelumenai/distclus/streaming"
)

// drawInt draws an omitted (0), valid or invalid parameter
func drawInt(t *rapid.T, lo, hi int, l string) int {
	if rapid.IntRange(0, 2).Draw(t, l+"?") == 0 {
		return 0
	}
	if rarely(t, 4) {
		hi = []int{100, 1000, 1000000}[rapid.IntRange(0, 2).Draw(t, l+"far")]
	}
	return rapid.IntRange(lo, hi).Draw(t, l)
}

func drawCtrl(t *rapid.T) (c core.CtrlConf) {
	// mostly valid, so that single invalid parameters are seen
	lo := func(l string) int {
		if rapid.IntRange(0, 7).Draw(t, l+"neg") == 7 {
			return -3
		}
		return 0
	}
	c.Iter = drawInt(t, lo("iter"), 20, "iter")
	c.IterPerData = drawInt(t, lo("ipd"), 5, "ipd")
	c.DataPerIter = drawInt(t, lo("dpi"), 5, "dpi")
	c.IterFreq = float64(drawInt(t, lo("freq"), 100, "freq")) / 8
	c.Timeout = time.Duration(drawInt(t, lo("timeout"), 5000, "timeout")) * rapid.SampledFrom([]time.Duration{1, time.Millisecond, time.Second, time.Hour}).Draw(t, "timeunit")
	if rapid.IntRange(0, 3).Draw(t, "fin") == 0 {
		c.Finishing = core.NewIterFinishing(3, 1)
	}
	return
}

func ctrlValid(c core.CtrlConf) bool {
	return c.Iter >= 0 && c.IterPerData >= 0 && c.DataPerIter >= 0 && c.IterFreq >= 0 && c.Timeout >= 0
}

func sameCtrl(a, b core.CtrlConf) bool {
	return a.Iter == b.Iter && a.IterPerData == b.IterPerData && a.DataPerIter == b.DataPerIter && a.IterFreq == b.IterFreq &&
		a.Timeout == b.Timeout && a.Finishing == b.Finishing && (a.StatusNotifier == nil) == (b.StatusNotifier == nil)
}

func orInt(v, d int) int {
	if v == 0 {
		return d
	}
	return v
}

func orFloat(v, d float64) float64 {
	if v == 0 {
		return d
	}
	return v
}

func TestC33(t *testing.T) {
	c := newCheck(t, "C33", "every combination of omitted, valid and invalid values of each parameter of the core, k-means, MCMC and streaming configurations against a default table and a validity predicate, prepared once and twice, then used to build an algorithm; non-trivial: something omitted and something given")
	c.Sub("conf", 80000, func(c *Case) {
		ctrl := drawCtrl(c.T)
		kind := rapid.IntRange(0, 3).Draw(c.T, "algorithm")
		gen := rand.New(rand.NewSource(uint64(rapid.IntRange(1, 1000).Draw(c.T, "seed"))))
		if rapid.Bool().Draw(c.T, "nogen") {
			gen = nil
		}
		valid, fits := ctrlValid(ctrl), true
		var conf core.Conf
		var check func() string // the prepared configuration holds the expected values
		var build func() *core.Algo
		var rgen func() *rand.Rand
		desc := fmt.Sprintf("iter %d perdata %d dataper %d freq %v timeout %v finishing %v generator %v", ctrl.Iter, ctrl.IterPerData, ctrl.DataPerIter, ctrl.IterFreq, ctrl.Timeout, ctrl.Finishing, gen != nil)
		switch kind {
		case 0:
			cc := ctrl
			conf = &cc
			check = func() string {
				if !sameCtrl(cc, ctrl) {
					return fmt.Sprintf("%+v becomes %+v", ctrl, cc)
				}
				return ""
			}
			build = func() *core.Algo { c2 := ctrl; return core.NewAlgo(&c2, newMock(), euclid.NewSpace()) }
		case 1:
			k := kmeans.Conf{CtrlConf: ctrl, Par: rapid.Bool().Draw(c.T, "par"), K: drawInt(c.T, -2, 6, "k"),
				FrameSize: drawInt(c.T, 0, 9, "frame"), RGen: gen, NumCPU: drawInt(c.T, 1, 9, "cpu")}
			desc = fmt.Sprintf("k-means %s par %v K %d frame %d cpu %d", desc, k.Par, k.K, k.FrameSize, k.NumCPU)
			valid = valid && k.K >= 1
			kk := k
			conf = &kk
			rgen = func() *rand.Rand { return kk.RGen }
			check = func() string {
				if !sameCtrl(kk.CtrlConf, ctrl) || kk.Par != k.Par || kk.K != k.K || kk.FrameSize != k.FrameSize || kk.NumCPU != orInt(k.NumCPU, runtime.NumCPU()) {
					return fmt.Sprintf("%+v becomes %+v", k, kk)
				}
				return ""
			}
			build = func() *core.Algo { return kmeans.NewAlgo(k, euclid.NewSpace(), nil, kmeans.GivenInitializer) }
		case 2:
			m := mcmc.Conf{CtrlConf: ctrl, Par: rapid.Bool().Draw(c.T, "par"), InitK: drawInt(c.T, -2, 20, "k"), MaxK: drawInt(c.T, -1, 20, "maxk"),
				FrameSize: drawInt(c.T, 0, 9, "frame"), RGen: gen, NumCPU: drawInt(c.T, 1, 9, "cpu"),
				B: float64(drawInt(c.T, 1, 9, "b")) / 2, Amp: float64(drawInt(c.T, 1, 9, "amp")) / 2, R: float64(drawInt(c.T, 1, 9, "r")), Norm: float64(drawInt(c.T, 1, 9, "norm")) / 2}
			if rapid.Bool().Draw(c.T, "probak") {
				m.ProbaK = []float64{float64(rapid.IntRange(0, 3).Draw(c.T, "p")), 1, 2}
			}
			desc = fmt.Sprintf("mcmc %s par %v initK %d maxK %d frame %d cpu %d B %v Amp %v R %v norm %v probaK %v", desc, m.Par, m.InitK, m.MaxK, m.FrameSize, m.NumCPU, m.B, m.Amp, m.R, m.Norm, m.ProbaK)
			valid = valid && m.InitK >= 1 && m.InitK <= orInt(m.MaxK, 16)
			mm := m
			mm.ProbaK = append([]float64(nil), m.ProbaK...)
			conf = &mm
			rgen = func() *rand.Rand { return mm.RGen }
			check = func() string {
				p := m.ProbaK
				if p == nil {
					p = []float64{1, 8, 1}
				}
				if !sameCtrl(mm.CtrlConf, ctrl) || mm.Par != m.Par || mm.InitK != m.InitK || mm.FrameSize != m.FrameSize || mm.NumCPU != orInt(m.NumCPU, runtime.NumCPU()) ||
					mm.MaxK != orInt(m.MaxK, 16) || mm.B != orFloat(m.B, 1) || mm.Amp != m.Amp || mm.R != m.R || mm.Norm != orFloat(m.Norm, 2) || !sameFloats(mm.ProbaK, p) {
					return fmt.Sprintf("%+v becomes %+v", m, mm)
				}
				return ""
			}
			build = func() *core.Algo {
				return mcmc.NewAlgo(m, euclid.NewSpace(), nil, kmeans.GivenInitializer, mcmc.NewDirac())
			}
		default:
			s := streaming.Conf{CtrlConf: ctrl, BufferSize: min(drawInt(c.T, 1, 20, "buffer"), 20000), Mu: float64(drawInt(c.T, -9, 9, "mu")) / 4, Sigma: float64(drawInt(c.T, 1, 9, "sigma")) / 4,
				OutRatio: float64(drawInt(c.T, 1, 9, "ratio")) / 2, OutAfter: drawInt(c.T, -1, 9, "after"), RGen: gen}
			desc = fmt.Sprintf("streaming %s buffer %d mu %v sigma %v ratio %v after %d", desc, s.BufferSize, s.Mu, s.Sigma, s.OutRatio, s.OutAfter)
			valid = valid && (s.OutAfter == 0 || s.OutAfter >= 2)
			ss := s
			conf = &ss
			rgen = func() *rand.Rand { return ss.RGen }
			check = func() string {
				if !sameCtrl(ss.CtrlConf, ctrl) || ss.BufferSize != orInt(s.BufferSize, 100) || ss.Mu != orFloat(s.Mu, .5) || ss.Sigma != orFloat(s.Sigma, .1) ||
					ss.OutRatio != orFloat(s.OutRatio, 2) || ss.OutAfter != orInt(s.OutAfter, 5) {
					return fmt.Sprintf("%+v becomes %+v", s, ss)
				}
				return ""
			}
			// the initial elements must fit in the queue
			n := rapid.IntRange(0, 25).Draw(c.T, "data")
			if s.BufferSize == 0 && rapid.Bool().Draw(c.T, "full") {
				n += 90
			}
			if rarely(c.T, 3) && s.BufferSize >= 0 { // just what it holds, or one more
				n = orInt(s.BufferSize, 100) + rapid.IntRange(-1, 1).Draw(c.T, "around")
			}
			desc = fmt.Sprintf("%s %d elements", desc, n)
			fits = n <= orInt(s.BufferSize, 100)
			data := make([]core.Elemt, n)
			for i := range data {
				data[i] = []float64{float64(i)}
			}
			build = func() *core.Algo { return streaming.NewAlgo(s, euclid.NewSpace(), data) }
		}
		c.Data("%s", desc)
		c.Nontrivial(true)
		c.Class(valid, "valid")
		c.Class(!valid, "invalid")
		var first *rand.Rand
		prepare := core.PrepareConf
		if rapid.IntRange(0, 2).Draw(c.T, "verify") == 0 && conf.Ctrl().Verify() == nil {
			prepare = func(conf core.Conf) error { return conf.Verify() }
		}
		for i := 0; i < 2; i++ {
			err := prepare(conf)
			if (err == nil) != valid {
				c.Failf("preparing (%d): error %v, valid %v", i, err, valid)
			}
			if m := check(); m != "" {
				c.Failf("preparing (%d): %s", i, m)
			}
			if rgen != nil {
				if rgen() == nil || gen != nil && rgen() != gen || i > 0 && rgen() != first {
					c.Failf("preparing (%d): generator %p becomes %p", i, gen, rgen())
				}
				first = rgen()
			}
		}
		var algo *core.Algo
		var panicked any
		if !within(10*time.Second, func() {
			defer func() { panicked = recover() }()
			algo = build()
		}) {
			c.Failf("building does not return")
		}
		c.Class(!fits, "more data than the queue holds")
		valid = valid && fits
		switch {
		case valid && (panicked != nil || algo == nil):
			c.Failf("building fails on a valid configuration: %v", panicked)
		case valid && algo.Status().Value != core.Created:
			c.Failf("a new algorithm is %v", algo.Status())
		case !valid && panicked == nil && algo != nil:
			c.Failf("building succeeds on an invalid configuration")
		}
		if valid {
			// the algorithm's own configuration is prepared, the caller's values are kept
			got := algo.Conf().Ctrl()
			if !sameCtrl(*got, ctrl) {
				c.Failf("the algorithm runs with %+v, given %+v", *got, ctrl)
			}
		}
	})
}

// fin is a generated condition with its reference evaluation
type fin struct {
	f    core.Finishing
	eval func(core.OCModel) bool
	desc string
}

// leaf on the iterations figure
type atIters map[int]bool

func (a atIters) IsFinished(m core.OCModel) bool {
	return a[int(m.RuntimeFigures()[core.Iterations])]
}

var statuses = []core.ClustStatus{core.Created, core.Initializing, core.Ready, core.Running, core.Idle, core.Finished}

func drawFin(t *rapid.T, depth, base int) fin {
	kind := rapid.IntRange(0, 7).Draw(t, "fin")
	if depth == 0 && kind > 3 {
		kind -= 4
	}
	switch kind {
	case 0:
		return fin{nil, func(core.OCModel) bool { return false }, "absent"}
	case 1:
		it, per := rapid.IntRange(-1, 6).Draw(t, "iter"), rapid.IntRange(-1, 3).Draw(t, "per")
		if base > 0 && rapid.Bool().Draw(t, "large") {
			it += base
		}
		return fin{core.NewIterFinishing(it, per), func(m core.OCModel) bool {
			f := m.RuntimeFigures()
			return (it > 0 || per > 0) && int(f[core.Iterations]) >= it+per*int(f[core.PushedData])
		}, fmt.Sprintf("iter(%d,%d)", it, per)}
	case 2:
		a := atIters{}
		for i := 0; i < 12; i++ {
			if rapid.IntRange(0, 3).Draw(t, "at") == 3 {
				a[i] = true
			}
		}
		return fin{a, func(m core.OCModel) bool { return a[int(m.RuntimeFigures()[core.Iterations])] }, fmt.Sprint("at", a)}
	case 3:
		withErr := rapid.Bool().Draw(t, "err")
		var l []core.ClustStatus
		for _, s := range statuses {
			if rapid.IntRange(0, 2).Draw(t, "status") == 2 {
				l = append(l, s)
			}
		}
		return fin{core.NewStatusFinishing(withErr, l...), func(m core.OCModel) bool {
			for _, s := range l {
				if s == m.Status().Value {
					return true
				}
			}
			return withErr && m.Status().Error != nil
		}, fmt.Sprintf("status(%v,%v)", withErr, l)}
	default:
		n := rapid.IntRange(0, 4).Draw(t, "operands")
		if rarely(t, 5) { // many operands without operands
			n = rapid.IntRange(5, []int{20, 70, 300}[rapid.IntRange(0, 2).Draw(t, "operandskind")]).Draw(t, "operands")
			depth = 1
		}
		sub := make([]fin, n)
		fs := make([]core.Finishing, n)
		descs := make([]string, n)
		for i := range sub {
			switch {
			case n < 5 || i < 5:
				sub[i] = drawFin(t, depth-1, base)
			case i == n-1:
				sub[i] = drawFin(t, 0, base)
			default:
				sub[i] = sub[rapid.IntRange(0, 4).Draw(t, "again")]
			}
			fs[i], descs[i] = sub[i].f, sub[i].desc
		}
		if kind < 6 {
			return fin{core.NewAndFinishing(fs...), func(m core.OCModel) bool {
				for _, s := range sub {
					if !s.eval(m) {
						return false
					}
				}
				return n > 0
			}, "and(" + strings.Join(descs, ",") + ")"}
		}
		return fin{core.NewOrFinishing(fs...), func(m core.OCModel) bool {
			for _, s := range sub {
				if s.eval(m) {
					return true
				}
			}
			return false
		}, "or(" + strings.Join(descs, ",") + ")"}
	}
}

func TestC34(t *testing.T) {
	c := newCheck(t, "C34", "random trees (depth 4, 0..4 operands, absent operands) of iteration, status and user-defined conditions evaluated on random figures and statuses against a boolean reference; runs with such conditions in virtual time; non-trivial: a combinator with at least two operands, or a run ended by the custom condition")
	c.Sub("trees", 60000, func(c *Case) {
		// figures and parameters about small or large numbers
		base := 0
		if rapid.IntRange(0, 2).Draw(c.T, "large") == 0 {
			base = 1<<rapid.SampledFrom([]int{7, 8, 15, 16, 24, 31, 32, 33, 40, 50}).Draw(c.T, "base") - rapid.IntRange(0, 5).Draw(c.T, "below")
		}
		f := drawFin(c.T, 4, base)
		iters, pushed := base+rapid.IntRange(0, 12).Draw(c.T, "iters"), rapid.IntRange(0, 4).Draw(c.T, "pushed")
		if base > 0 && rapid.IntRange(0, 3).Draw(c.T, "by pushes") == 0 { // the large numbers come from pushes
			pushed = iters / rapid.IntRange(1, 3).Draw(c.T, "per")
			iters += rapid.IntRange(0, 2).Draw(c.T, "off")
		}
		st := core.NewOCStatus(statuses[rapid.IntRange(0, len(statuses)-1).Draw(c.T, "st")])
		if rapid.IntRange(0, 2).Draw(c.T, "fail") == 0 {
			e := errors.New("e")
			st = core.NewOCStatusError(e)
			if rapid.Bool().Draw(c.T, "alive") { // any model may have an error
				st = core.OCStatus{Value: rapid.SampledFrom(statuses).Draw(c.T, "st"), Error: e}
			}
		}
		figures := core.RuntimeFigures{core.Iterations: float64(iters), core.PushedData: float64(pushed)}
		if rapid.IntRange(0, 9).Draw(c.T, "nofigures") == 9 {
			figures = core.RuntimeFigures{}
		}
		c.Data("%s on %v %v", f.desc, figures, st)
		c.Nontrivial(strings.Contains(f.desc, "),") || strings.Contains(f.desc, "],"))
		m := core.NewSimpleOCModel(&core.CtrlConf{}, euclid.NewSpace(), st, figures, nil)
		want := f.eval(m)
		c.Class(want, "holds")
		if got := core.IsFinished(f.f, m); got != want {
			c.Failf("evaluates to %v, want %v", got, want)
		}
		if f.f != nil {
			if got := f.f.IsFinished(m); got != want {
				c.Failf("IsFinished is %v, want %v", got, want)
			}
		}
	})
	c.Sub("runs", 12000, func(c *Case) {
		f := drawFin(c.T, 2, 0)
		iter, per := rapid.IntRange(0, 12).Draw(c.T, "iter"), rapid.IntRange(0, 3).Draw(c.T, "per")
		pushed := rapid.IntRange(0, 3).Draw(c.T, "pushed")
		plays := rapid.IntRange(1, 2).Draw(c.T, "plays")
		idle := rapid.IntRange(0, 9).Draw(c.T, "none") // iteration that publishes nothing
		c.Data("finishing %s iter %d per data %d pushed %d plays %d, iteration %d publishes nothing", f.desc, iter, per, pushed, plays, idle)
		conf := core.CtrlConf{Iter: iter, IterPerData: per, Finishing: f.f}
		c.bubble(t, func() string {
			m := newMock()
			m.iter = func(n int, _ core.OCModel) (core.Clust, core.RuntimeFigures, error) {
				time.Sleep(10 * time.Millisecond)
				if n == idle {
					return nil, nil, nil
				}
				return core.Clust{float64(n)}, nil, nil
			}
			algo := core.NewAlgo(&conf, m, lineSpace{})
			for i := 0; i < pushed; i++ {
				if err := algo.Push(1.); err != nil {
					return fmt.Sprint("push: ", err)
				}
			}
			// the first number of iterations at which the run must end
			at := func(n int) core.OCModel {
				return core.NewSimpleOCModel(&conf, lineSpace{}, core.NewOCStatus(core.Running),
					core.RuntimeFigures{core.Iterations: float64(n), core.PushedData: float64(pushed)}, nil)
			}
			want := 0
			for want < 40 {
				if (iter > 0 || per > 0) && want >= iter+per*pushed {
					break
				}
				if f.eval(at(want)) {
					c.Nontrivial(true)
					break
				}
				want++
			}
			for p := 0; p < plays; p++ {
				if err := algo.Play(); err != nil {
					return fmt.Sprint("Play: ", err)
				}
				time.Sleep(2 * time.Second)
				st, n := algo.Status(), int(algo.RuntimeFigures()[core.Iterations])
				if want == 40 { // never ends by itself
					if p > 0 || st.Value != core.Running || n < 100 {
						return fmt.Sprintf("a run that never finishes is %v after %d iterations", st, n)
					}
					algo.Stop()
					return ""
				}
				if st.Value != core.Ready || st.Error != nil || n != want {
					algo.Stop()
					return fmt.Sprintf("play %d: %v after %d iterations, want ready after %d", p, st, n, want)
				}
			}
			return ""
		})
	})
}

func TestC36(t *testing.T) {
	c := newCheck(t, "C36", "whole histories (play, push, pause, predict, stop, copy, restart) of k-means, MCMC and streaming over every space, initialiser and distribution, and direct reductions with labels and weights; all elements, slices (spare capacity included), centroids, labels and weights given are compared with deep snapshots; non-trivial: at least one iteration and one push")
	c.Sub("algorithms", 8000, func(c *Case) {
		s := safeSp(c.T)
		es := s.elemts(c.T, 2, 20, "e")
		if rapid.IntRange(0, 2).Draw(c.T, "negative") == 0 {
			negativeZeros(es)
		}
		rescale(c.T, es)
		initial := rapid.IntRange(1, len(es)).Draw(c.T, "initial")
		which := rapid.IntRange(0, 4).Draw(c.T, "algorithm")
		seed := uint64(rapid.IntRange(1, 1<<30).Draw(c.T, "seed"))
		gen := rand.New(rand.NewSource(seed))
		frame := max(0, upTo(c.T, 11, len(es), "frame")-5)
		held := initial
		if frame > 0 {
			held = min(held, frame)
		}
		k := min(upTo(c.T, min(held, 4), held, "k"), 4+20000/len(es)) // many short iterations
		cpu := rapid.IntRange(1, 8).Draw(c.T, "cpu")
		init := rapid.IntRange(0, 3).Draw(c.T, "init")
		cents := core.Clust(pick(es, []int{len(es) - 1, 0}))[:min(2, k)]
		k2 := k
		ini := map[int]core.Initializer{0: kmeans.GivenInitializer, 1: kmeans.RandInitializer, 2: kmeans.PPInitializer, 3: cents.Initializer}[init]
		if init == 3 {
			k2 = len(cents)
		}
		dist := rapid.IntRange(0, 2).Draw(c.T, "distrib")
		ops := rapid.SliceOfN(rapid.SampledFrom([]string{"play", "push", "push", "predict", "pause", "stop", "copy", "sleep"}), 2, 14).Draw(c.T, "ops")
		data := append(make([]core.Elemt, 0, len(es)+5), es[:initial]...)
		spare := data[:cap(data)]
		c.Data("algorithm %d space %s elements %s initially %d frame %d k %d cpu %d initializer %d distribution %d seed %d ops %v", which, s.name, show(es), initial, frame, k2, cpu, init, dist, seed, ops)
		before, beforeSpare, beforeCents := deepCopies(es), deepCopies(spare), deepCopies(cents)
		iterated, pushed := false, false
		c.bubble(t, func() string {
			var d mcmc.Distrib = mcmc.NewDirac()
			if v, ok := es[0].([]float64); ok && dist == 1 && strings.HasPrefix(s.name, "euclid") {
				d = mcmc.NewMultivT(mcmc.MultivTConf{Dim: len(v), RGen: gen})
			} else if dist > 0 {
				d = noise{gen, 0.3, 0.1, es}
			}
			var algo *core.Algo
			mk := func(par bool) *core.Algo {
				switch {
				case which < 2:
					return kmeans.NewAlgo(kmeans.Conf{K: k2, FrameSize: frame, RGen: gen, Par: which == 1, NumCPU: cpu}, s.space, data, ini)
				case which < 4:
					return mcmc.NewAlgo(mcmc.Conf{InitK: k2, MaxK: k2 + 3, FrameSize: frame, RGen: gen, Par: which == 3, NumCPU: cpu, Amp: 0.01}, s.space, data, ini, d)
				default:
					return streaming.NewAlgo(streaming.Conf{RGen: gen, BufferSize: bulkMax}, s.space, data)
				}
			}
			inner := mk(true)
			algo = core.NewAlgo(inner.Conf(), &slowImpl{Impl: inner.Impl()}, s.space)
			next := initial
			intact := func(when string) string {
				switch {
				case !sameBits(es, before):
					return fmt.Sprintf("%s: elements become %s", when, show(es))
				case !sameBits(spare, beforeSpare):
					return fmt.Sprintf("%s: the data slice becomes %s", when, show(spare))
				case !sameBits(cents, beforeCents):
					return fmt.Sprintf("%s: the given centroids become %s", when, show(cents))
				}
				return ""
			}
			for i, o := range ops {
				switch o {
				case "play":
					algo.Play()
					time.Sleep(10 * time.Millisecond)
				case "pause":
					algo.Pause()
				case "stop":
					algo.Stop()
				case "sleep":
					time.Sleep(20 * time.Millisecond)
				case "push":
					if next < len(es) {
						algo.Push(es[next])
						next++
						pushed = true
						time.Sleep(5 * time.Millisecond)
					}
				case "predict":
					for _, e := range es {
						algo.Predict(e)
					}
				case "copy":
					if cp, err := inner.Copy(inner.Conf(), s.space); err == nil {
						_ = cp.Init()
						cp.Push(es[0])
						_, _, _ = cp.Predict(es[0])
					}
				}
				if m := intact(fmt.Sprintf("after operation %d (%s)", i, o)); m != "" {
					algo.Stop()
					return m
				}
			}
			time.Sleep(20 * time.Millisecond)
			iterated = algo.RuntimeFigures()[core.Iterations] > 0
			algo.Stop()
			return intact("at the end")
		})
		c.Nontrivial(iterated && pushed)
		c.Class(iterated, fmt.Sprintf("algorithm %d iterates", which))
	})
	c.Sub("reductions", 20000, func(c *Case) {
		s := safeSp(c.T)
		es := s.elemts(c.T, 1, 12, "e")
		clust := core.Clust(s.elemts(c.T, 1, 4, "c"))
		if rapid.IntRange(0, 2).Draw(c.T, "negative") == 0 {
			negativeZeros(es)
			negativeZeros(clust)
		}
		rescale(c.T, es, clust)
		labels := drawLabels(c.T, len(es), len(clust))
		weights := make([]int, len(es))
		for i := range weights {
			weights[i] = rapid.IntRange(1, 5).Draw(c.T, "w")
		}
		if factor := rapid.SampledFrom([]int{1, 1, 1, 2, 3, 10, 64}).Draw(c.T, "factor"); factor > 1 { // a common factor
			for i := range weights {
				weights[i] *= factor
			}
		}
		degree := rapid.IntRange(1, 6).Draw(c.T, "degree")
		k := rapid.IntRange(1, len(es)).Draw(c.T, "k")
		k = affordable(s, len(es), k)
		src, rdesc := scriptedRand(c.T)
		c.Data("space %s elements %s centroids %s labels %v weights %v degree %d k %d %s", s.name, show(es), show(clust), labels, weights, degree, k, rdesc)
		c.Nontrivial(len(es) > len(clust))
		e0, c0 := deepCopies(es), deepCopies(clust)
		l0, w0 := append([]int{}, labels...), append([]int{}, weights...)
		var results []core.Elemt
		add := func(l core.Clust) { results = append(results, l...) }
		ops := map[string]func(){
			"DBA":                    func() { r, _ := core.DBA(es, s.space); add(core.Clust{r}) },
			"WeightedDBA":            func() { r, _ := core.WeightedDBA(es, weights, s.space); add(core.Clust{r}) },
			"ReduceDBA":              func() { r, _ := clust.ReduceDBA(es, s.space); add(r) },
			"ParReduceDBA":           func() { clust.ParReduceDBA(es, s.space, degree) },
			"ReduceDBAForLabels":     func() { r, _ := clust.ReduceDBAForLabels(es, labels, s.space); add(r) },
			"ParReduceDBAForLabels":  func() { r, _ := clust.ParReduceDBAForLabels(es, labels, s.space, degree); add(r) },
			"ReduceLoss":             func() { clust.ReduceLoss(es, s.space, 2) },
			"ParReduceLoss":          func() { clust.ParReduceLoss(es, s.space, 2, degree) },
			"ReduceLossForLabels":    func() { clust.ReduceLossForLabels(es, labels, s.space, 2) },
			"ParReduceLossForLabels": func() { clust.ParReduceLossForLabels(es, labels, s.space, 2, degree) },
			"MapLabel":               func() { clust.MapLabel(es, s.space) },
			"ParMapLabel":            func() { clust.ParMapLabel(es, s.space, degree) },
			"GivenInitializer":       func() { r, _ := kmeans.GivenInitializer(k, es, s.space, src); add(r) },
			"RandInitializer":        func() { r, _ := kmeans.RandInitializer(k, es, s.space, src); add(r) },
			"PPInitializer":          func() { r, _ := kmeans.PPInitializer(k, es, s.space, src); add(r) },
			"Clust.Initializer":      func() { clust.Initializer(len(clust), es, s.space, src) },
			"combine, copy, distance": func() {
				s.space.Dist(es[0], clust[0])
				add(core.Clust{s.space.Combine(es[0], 2, clust[0], 3), s.space.Copy(es[0])})
			},
		}
		for _, name := range slices.Sorted(maps.Keys(ops)) {
			ops[name]()
			if !sameBits(es, e0) || !sameBits(clust, c0) || !sameInts(labels, l0) || !sameInts(weights, w0) {
				c.Failf("%s alters its arguments: elements %s centroids %s labels %v weights %v", name, show(es), show(clust), labels, weights)
			}
		}
		// results are fresh: what the caller does to them does not reach the inputs
		if s.name != "line" && !strings.HasPrefix(s.name, "table") {
			for _, r := range results {
				scramble(r)
			}
			if !sameBits(es, e0) || !sameBits(clust, c0) {
				c.Failf("results share memory with the arguments: elements %s centroids %s", show(es), show(clust))
			}
		}
	})
}

// slowImpl makes iterations take (virtual) time
type slowImpl struct {
	core.Impl
	pre  func(core.OCModel)
	hook func(model core.OCModel, clust core.Clust, fig core.RuntimeFigures, err error)
}

func (w *slowImpl) Iterate(m core.OCModel) (core.Clust, core.RuntimeFigures, error) {
	if w.pre != nil {
		w.pre(m)
	}
	time.Sleep(time.Millisecond)
	cl, f, err := w.Impl.Iterate(m)
	if w.hook != nil {
		w.hook(m, cl, f, err)
	}
	return cl, f, err
}

// gap is the smallest relative difference between the distances to the two nearest centroids
func gap(clust core.Clust, data []core.Elemt, space core.Space, scale float64) float64 {
	g := math.Inf(1)
	for _, e := range data {
		b1, b2 := math.Inf(1), math.Inf(1)
		for _, ct := range clust {
			if d := space.Dist(e, ct); d < b1 {
				b1, b2 = d, b1
			} else if d < b2 {
				b2 = d
			}
		}
		g = math.Min(g, (b2-b1)/scale)
	}
	return g
}

func TestC38(t *testing.T) {
	c := newCheck(t, "C38", "random data in general position, initial centroids, sequential or parallel k-means for 1..6 iterations, compared with the run on transformed data (translation, power-of-two scaling, coordinate permutation and negation, centroid permutation, data order, duplication, composed); cosine labels under scaling of elements; runs with near ties are skipped; non-trivial: at least two centroids and a label different from 0")
	c.Sub("kmeans", 30000, func(c *Case) {
		dim := rapid.IntRange(1, 4).Draw(c.T, "dim")
		kind := rapid.IntRange(1, 2).Draw(c.T, "kind")
		n := rapid.IntRange(1, 20).Draw(c.T, "n")
		k := rapid.IntRange(1, 5).Draw(c.T, "k")
		if rarely(c.T, 3) {
			k = rapid.IntRange(6, []int{12, 40, 90}[rapid.IntRange(0, 2).Draw(c.T, "kkind")]).Draw(c.T, "k")
		}
		draw, many := func() []float64 { return vector(c.T, dim, kind, "e") }, false
		if many = rarely(c.T, 6); many {
			n = manyOf(c.T, 10, "many")
			draw = seededVectors(c.T, dim, kind)
		}
		es, cs := make([][]float64, n), make([][]float64, k)
		for i := range es {
			es[i] = draw()
		}
		for i := range cs {
			cs[i] = vector(c.T, dim, kind, "c")
		}
		iters := rapid.IntRange(1, 6).Draw(c.T, "iters")
		cpu := [2]int{rapid.IntRange(0, 6).Draw(c.T, "cpu1"), rapid.IntRange(0, 6).Draw(c.T, "cpu2")}
		on := rapid.IntRange(1, 127).Draw(c.T, "transformations")
		shift := make([]float64, dim)
		neg := make([]bool, dim)
		scale := 1.
		perm := make([]int, dim)
		for i := range perm {
			perm[i] = i
		}
		if on&1 != 0 {
			shift = vector(c.T, dim, kind, "shift")
		}
		if on&2 != 0 {
			scale = math.Ldexp(1, rapid.IntRange(-6, 6).Draw(c.T, "scale")*rapid.SampledFrom([]int{1, 1, 7, 30}).Draw(c.T, "units"))
		}
		if on&4 != 0 {
			perm = rapid.Permutation(perm).Draw(c.T, "perm")
		}
		if on&8 != 0 {
			for i := range neg {
				neg[i] = rapid.Bool().Draw(c.T, "neg")
			}
		}
		cperm := make([]int, k)
		for i := range cperm {
			cperm[i] = i
		}
		if on&16 != 0 {
			cperm = rapid.Permutation(cperm).Draw(c.T, "cperm")
		}
		order := make([]int, n)
		for i := range order {
			order[i] = i
		}
		if on&32 != 0 && many {
			g, _ := rng(c.T)
			order = g.Perm(n)
		} else if on&32 != 0 {
			order = rapid.Permutation(order).Draw(c.T, "order")
		}
		times := 1
		if on&64 != 0 {
			times = rapid.IntRange(1, 3).Draw(c.T, "times")
		}
		c.Data("elements %v centroids %v iterations %d cpu %v shift %v scale %v perm %v neg %v centroids %v order %v times %d", es, cs, iters, cpu, shift, scale, perm, neg, cperm, order, times)
		f := func(v []float64) []float64 {
			r := make([]float64, dim)
			for i := range r {
				x := (v[perm[i]] + shift[i]) * scale
				if neg[i] {
					x = -x
				}
				r[i] = x
			}
			return r
		}
		var d1, d2 []core.Elemt
		var c1 core.Clust
		c2 := make(core.Clust, k)
		m := 0.
		for _, e := range es {
			d1 = append(d1, e)
			m = math.Max(m, math.Max(maxAbs(e), maxAbs(f(e))/scale))
		}
		for _, j := range order {
			for i := 0; i < times; i++ {
				d2 = append(d2, f(es[j]))
			}
		}
		for i, x := range cs {
			c1 = append(c1, append([]float64{}, x...))
			c2[cperm[i]] = f(x)
			m = math.Max(m, math.Max(maxAbs(x), maxAbs(f(x))/scale))
		}
		m += 1e-3
		space := euclid.NewSpace()
		step := func(cl core.Clust, d []core.Elemt, cpu int) core.Clust {
			conf := kmeans.Conf{K: k, NumCPU: cpu}
			mk := kmeans.NewSeqImpl
			if cpu > 0 {
				mk = kmeans.NewParImpl
			}
			impl := mk(conf, kmeans.GivenInitializer, d)
			r, _, err := impl.Iterate(simpleModel(&conf, space, core.Running, cl))
			if err != nil {
				c.Failf("Iterate: %v", err)
			}
			return r
		}
		seen := map[int]bool{}
		for i := 0; i < iters; i++ {
			if k > 1 && !(gap(c1, d1, space, m) > 1e-7) {
				c.Class(true, "near tie: skipped")
				return
			}
			l1, _ := c1.MapLabel(d1, space)
			l2, _ := c2.MapLabel(d2, space)
			for j, o := range order {
				seen[l1[o]] = true
				for q := 0; q < times; q++ {
					if l2[j*times+q] != cperm[l1[o]] {
						c.Failf("iteration %d: element %d has label %d, its image %d instead of %d", i, o, l1[o], l2[j*times+q], cperm[l1[o]])
					}
				}
			}
			c1, c2 = step(c1, d1, cpu[0]), step(c2, d2, cpu[1])
			for j := range c1 {
				if want := f(c1[j].([]float64)); !nearElt(c2[cperm[j]], want, 1e-9*m*scale*float64(i+1)) {
					c.Failf("iteration %d: centroid %d is %v, its image %v instead of %v", i, j, c1[j], c2[cperm[j]], want)
				}
			}
		}
		c.Nontrivial(len(seen) > 1)
	})
	c.Sub("cosine", 20000, func(c *Case) {
		dim := rapid.IntRange(1, 4).Draw(c.T, "dim")
		mk := func(l string, n int) (r []core.Elemt) {
			for ; n > 0; n-- {
				r = append(r, nonZero(vector(c.T, dim, 2, l)))
			}
			return
		}
		es := mk("e", rapid.IntRange(1, 12).Draw(c.T, "n"))
		cl := core.Clust(mk("c", rapid.IntRange(1, 5).Draw(c.T, "k")))
		var im []core.Elemt
		for _, e := range es {
			f := math.Exp(float64(rapid.IntRange(-50, 50).Draw(c.T, "scale")) / 8)
			v := append([]float64{}, e.([]float64)...)
			for i := range v {
				v[i] *= f
			}
			im = append(im, v)
		}
		c.Data("elements %s images %s centroids %s", show(es), show(im), show(cl))
		space := cosinus.NewSpace()
		l1, d1 := cl.MapLabel(es, space)
		l2, d2 := cl.MapLabel(im, space)
		for i := range es {
			if len(cl) > 1 && !(gap(cl, es[i:i+1], space, 1) > 1e-9) {
				c.Class(true, "near tie: skipped")
				continue
			}
			if l1[i] != l2[i] || !near(d1[i], d2[i], 1e-9) {
				c.Failf("element %d has label %d distance %v, its image %d %v", i, l1[i], d1[i], l2[i], d2[i])
			}
			c.Nontrivial(l1[i] > 0)
		}
	})
}
