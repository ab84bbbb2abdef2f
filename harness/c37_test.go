package distclusverif

import (
	"fmt"
	"math"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/streaming"
)

// use is a generated concurrent use of a provided algorithm
type use struct {
	r       real
	es      []core.Elemt
	n0      int
	freq    float64
	cl      [][]cop
	restart bool // the history may re-initialise the algorithm
	unit    time.Duration
}

func drawUse(t *rapid.T, virtual bool) (u use) {
	u.es = drawPoints(t, 3, 24)
	u.n0 = rapid.IntRange(2, len(u.es)).Draw(t, "n0")
	u.r = drawReal(t, rapid.IntRange(0, 2).Draw(t, "algorithm"), u.n0)
	u.r.iter = max(0, rapid.IntRange(-20, 20).Draw(t, "iterations"))
	u.r.init = []string{"given", "rand"}[rapid.IntRange(0, 1).Draw(t, "init2")]
	u.r.buffer = u.n0 + rapid.IntRange(0, 58).Draw(t, "buffer2")
	u.restart = rapid.IntRange(0, 2).Draw(t, "restarting") == 2
	u.unit = 5 * time.Microsecond
	if virtual {
		u.freq = []float64{100, 1000, 2500}[rapid.IntRange(0, 2).Draw(t, "freq")]
		u.unit = 100 * time.Microsecond
	}
	n := rapid.IntRange(2, 6).Draw(t, "clients")
	for i := 0; i < n; i++ {
		kinds := []string{"push", "push", "predict", "read", "read", "status", "figures", "copy", "conf"}
		switch i {
		case 0:
			kinds = []string{"play", "play", "pause", "pause", "read"}
			if u.restart {
				kinds = append(kinds, "stop", "init")
			}
		case 1:
			kinds = []string{"push"}
		case 2:
			kinds = []string{"read", "figures", "predict"}
		case 5:
			kinds = []string{"play", "pause", "wait"}
		}
		cl := drawClient(t, kinds, 4, 30)
		if i == 0 {
			cl = append([]cop{{"play", 0}}, cl...)
		}
		u.cl = append(u.cl, cl)
	}
	return
}

func (u use) String() string {
	return fmt.Sprintf("%v freq %v buffer %d; elements %s initially %d; clients %v", u.r, u.freq, u.r.buffer, show(u.es), u.n0, u.cl)
}

// play uses the algorithm without any instrumentation: nothing but the algorithm synchronises its clients
func (u use) play(pause func(time.Duration), within func(time.Duration, func()) bool) (msg string, active, runs int) {
	conf := u.r.conf(u.r.seed)
	conf.Ctrl().IterFreq = u.freq
	data := deepCopies(u.es)
	algo := u.r.build(conf, data[:u.n0:u.n0])
	space := algo.Space()
	msgs := make([]string, len(u.cl))
	okPush := make([]int, len(u.cl))
	ran := make([]bool, len(u.cl))
	var generation atomic.Int64 // odd during calls that may re-initialise
	dim := len(u.es[0].([]float64))
	lo, hi := make([]float64, dim), make([]float64, dim)
	for i := range lo {
		lo[i], hi[i] = math.Inf(1), math.Inf(-1)
		for _, e := range u.es {
			lo[i], hi[i] = min(lo[i], e.([]float64)[i]), max(hi[i], e.([]float64)[i])
		}
	}
	eps := 1e-6
	clust := func(cl core.Clust) string {
		if len(cl) > 1024 {
			return fmt.Sprintf("%d centroids", len(cl))
		}
		for _, e := range cl {
			v, ok := e.([]float64)
			if !ok || len(v) != dim {
				return fmt.Sprintf("centroid %v", e)
			}
			for i, x := range v {
				if math.IsNaN(x) || math.IsInf(x, 0) || !u.r.cos && u.r.kind != 1 && (x < lo[i]-eps || x > hi[i]+eps) {
					return fmt.Sprintf("centroid %v of data between %v and %v", v, lo, hi)
				}
			}
		}
		return ""
	}
	client := func(i int) string {
		var last core.RuntimeFigures
		lastGen := int64(-1)
		at := i
		for j, o := range u.cl[i] {
			if o.sleep > 0 {
				pause(time.Duration(o.sleep) * u.unit)
			} else {
				runtime.Gosched()
			}
			at += 7
			e := deepCopy(u.es[at%len(u.es)])
			where := fmt.Sprintf("client %d: operation %d (%s)", i, j, o.kind)
			switch o.kind {
			case "push":
				if err := algo.Push(e); err == nil {
					okPush[i]++
				} else if u.r.kind != 2 {
					return fmt.Sprintf("%s: %v", where, err)
				}
			case "predict":
				pred, label, dist := algo.Predict(e)
				switch {
				case pred == nil: // not initialised
					if u.r.kind < 2 && !u.restart && ran[i] {
						return fmt.Sprintf("%s: no prediction", where)
					}
				case label < 0 || label > 1024 || clust(core.Clust{pred}) != "":
					return fmt.Sprintf("%s: label %d, centroid %v %s", where, label, pred, clust(core.Clust{pred}))
				case dist != space.Dist(e, pred):
					return fmt.Sprintf("%s: distance %v of %v to %v, which is at %v", where, dist, e, pred, space.Dist(e, pred))
				}
			case "read", "figures":
				g := generation.Load()
				f := algo.RuntimeFigures()
				if o.kind == "read" {
					cl := algo.Centroids()
					if m := clust(cl); m != "" {
						return where + ": " + m
					}
					if len(cl) > 0 {
						ran[i] = true
					}
				}
				if lastGen == g && g%2 == 0 && generation.Load() == g { // else the figures may be those of another session
					for _, name := range []string{core.Iterations, core.PushedData, core.LastDataTime} {
						if f[name] < last[name] {
							return fmt.Sprintf("%s: %s was %v, is %v", where, name, last[name], f[name])
						}
					}
				}
				sum := 0.
				for k, v := range f { // free to be read
					sum += v
					if math.IsNaN(v) && k != "rho" {
						return fmt.Sprintf("%s: figure %s is %v", where, k, v)
					}
				}
				f["mine"] = sum // and written
				last, lastGen = f, g
				if generation.Load() != g {
					lastGen = -1
				}
				if f[core.Iterations] > 0 {
					ran[i] = true
				}
			case "status":
				st := algo.Status()
				if st.Value < core.Created || st.Value > core.Finished || st.Error != nil && st.Value != core.Finished {
					return fmt.Sprintf("%s: %s", where, showStatus(st))
				}
				if st.Error != nil && u.r.kind < 2 {
					return fmt.Sprintf("%s: %s", where, showStatus(st))
				}
			case "copy":
				cf := u.r.conf(u.r.seed + j)
				if cs, ok := cf.(*streaming.Conf); ok {
					cs.BufferSize = 1000
				}
				oc, err := algo.Copy(cf, u.r.space())
				if err != nil {
					return fmt.Sprintf("%s: %v", where, err)
				}
				if st := oc.Status(); st.Value != core.Created || st.Error != nil {
					return fmt.Sprintf("%s: the copy is %s", where, showStatus(st))
				}
			case "conf":
				if algo.Conf() != core.Conf(algo.Conf()) || algo.Space() != space {
					return fmt.Sprintf("%s: another configuration or space", where)
				}
			case "play", "init", "stop":
				if u.restart {
					generation.Add(1)
				}
				var err error
				switch o.kind {
				case "play":
					err = algo.Play()
				case "init":
					err = algo.Init()
				default:
					err = algo.Stop()
				}
				if u.restart {
					generation.Add(1)
				}
				if err != nil && err != core.ErrRunning && err != core.ErrNotAlive && err != core.ErrAlreadyCreated && u.r.kind < 2 {
					return fmt.Sprintf("%s: %v", where, err)
				}
			case "pause":
				if err := algo.Pause(); err != nil && err != core.ErrNotRunning {
					return fmt.Sprintf("%s: %v", where, err)
				}
			case "wait":
				err := algo.Wait(nil, time.Millisecond)
				if err != nil && err != core.ErrTimeout && err != core.ErrIdle && err != core.ErrNotRunning && u.r.kind < 2 {
					return fmt.Sprintf("%s: %v", where, err)
				}
			}
		}
		return ""
	}
	if u.restart && len(u.cl) > 5 {
		u.cl = u.cl[:5] // generation is for one controller
	}
	if !within(wedged, func() {
		var wg sync.WaitGroup
		for i := range u.cl {
			wg.Add(1)
			go func() {
				defer wg.Done()
				msgs[i] = client(i)
			}()
		}
		wg.Wait()
	}) {
		return "a client is stuck", 0, 0
	}
	for _, m := range msgs {
		if m != "" {
			return m, 0, 0
		}
	}
	st := algo.Status()
	if !within(wedged, func() { algo.Stop() }) {
		return "Stop does not return", 0, 0
	}
	accepted := 0
	for i, n := range okPush {
		accepted += n
		if ran[i] {
			active++
		}
	}
	f := algo.RuntimeFigures()
	if !u.restart && u.r.kind < 2 && f[core.PushedData] != float64(accepted) {
		return fmt.Sprintf("%v pushed data, %d accepted", f[core.PushedData], accepted), 0, 0
	}
	if now := algo.Status(); st.Value != core.Created && now.Value != core.Finished {
		return fmt.Sprintf("%s after Stop, %s before", showStatus(now), showStatus(st)), 0, 0
	}
	return "", active, int(f[core.Iterations])
}

func TestC37(t *testing.T) {
	c := newCheck(t, "C37", "2..6 goroutines push, predict, read status, centroids, figures and configuration, copy, pause, play, wait, and in a third of the cases stop and re-initialise, k-means, MCMC and streaming algorithms of any configuration, built with the race detector and without any instrumentation that would synchronise them; in virtual time at a generated iteration frequency and in real time at full speed on 4 threads; torn or decreasing values, lost pushes, inconsistent predictions, stuck calls, crashes and data races are failures; non-trivial: a client saw iterations and at least two iterations were executed")
	c.Sub("virtual time", 600, func(c *Case) {
		u := drawUse(c.T, true)
		c.Data("%v", u)
		c.bubble(t, func() string {
			m, active, iters := u.play(time.Sleep, within)
			time.Sleep(time.Second)
			c.Class(true, kindNames[u.r.kind])
			c.Class(u.r.par, "parallel")
			c.Class(u.restart, "re-initialised")
			c.Nontrivial(active > 0 && iters > 1)
			return m
		})
	})
	c.Sub("real time", 250, func(c *Case) {
		u := drawUse(c.T, false)
		c.Data("%v", u)
		m, active, iters := u.play(time.Sleep, func(_ time.Duration, f func()) bool { return within(60*time.Second, f) })
		if m != "" {
			c.Failf("%s", m)
		}
		c.Class(true, kindNames[u.r.kind])
		c.Class(u.r.par, "parallel")
		c.Class(u.restart, "re-initialised")
		c.Nontrivial(active > 0 && iters > 1)
	})
}
