package distclusverif

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/metrics"
	"sort"
	"strconv"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
)

// Environment of a check process, set by tools/run.py.
var (
	envSeed   = envInt("VERIF_SEED", 1)
	envShard  = envInt("VERIF_SHARD", 0)
	envTier   = envStr("VERIF_TIER", "quick")
	envOut    = envStr("VERIF_OUT", "")    // stats JSON of this process
	envReplay = envStr("VERIF_REPLAY", "") // fail file to replay
	envSub    = envStr("VERIF_SUB", "")    // restrict to one sub-check
)

func envStr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func envInt(k string, d int64) int64 {
	if v, err := strconv.ParseInt(os.Getenv(k), 10, 64); err == nil {
		return v
	}
	return d
}

func thorough() bool { return envTier == "thorough" }

// Check collects what one property's sub-checks covered.
type Check struct {
	t        *testing.T
	ID       string            `json:"property"`
	Rule     string            `json:"rule"`
	Evals    int               `json:"evaluations"`
	Nontriv  map[uint64]bool   `json:"-"`
	Hashes   []uint64          `json:"hashes"`
	Classes  map[string]int    `json:"classes"`
	Samples  []string          `json:"samples"`
	Subs     map[string]int    `json:"subs"`
	Failures map[string]string `json:"failures"`
	mult     float64
}

func newCheck(t *testing.T, id, rule string) *Check {
	c := &Check{t: t, ID: id, Rule: rule, Nontriv: map[uint64]bool{}, Classes: map[string]int{},
		Subs: map[string]int{}, Failures: map[string]string{}, mult: 1}
	if thorough() {
		c.mult = 15
	}
	t.Cleanup(c.write)
	return c
}

func (c *Check) write() {
	if envOut == "" {
		return
	}
	for h := range c.Nontriv {
		c.Hashes = append(c.Hashes, h)
	}
	sort.Slice(c.Hashes, func(i, j int) bool { return c.Hashes[i] < c.Hashes[j] })
	b, err := json.Marshal(c)
	if err == nil {
		err = os.WriteFile(envOut, b, 0o644)
	}
	if err != nil {
		c.t.Logf("stats not written: %v", err)
	}
}

// Case is one generated case.
type Case struct {
	*rapid.T
	sub     string
	desc    string
	nontriv bool
	classes []string
}

// More adds to the description of the case
func (c *Case) More(format string, args ...any) {
	c.desc += " " + fmt.Sprintf(format, args...)
}

// Data records the generated case: it identifies it (for distinctness) and is printed on failure.
func (c *Case) Data(format string, args ...any) {
	c.desc = fmt.Sprintf(format, args...)
}

// Nontrivial marks the case as non-trivial by the rule of the check.
func (c *Case) Nontrivial(cond bool) {
	if cond {
		c.nontriv = true
	}
}

// Class counts the case in a class.
func (c *Case) Class(cond bool, name string) {
	if cond {
		c.classes = append(c.classes, name)
	}
}

// Failf reports a violation with the whole case.
func (c *Case) Failf(format string, args ...any) {
	c.Helper()
	c.Fatalf("%s\n  case: %s", fmt.Sprintf(format, args...), clip(c.desc, 6000))
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func seedFor(sub string) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", sub, envSeed, envShard)
	s := h.Sum64()
	if s == 0 {
		s = 1
	}
	return s
}

// a file that lists the slow cases
var envSlow = os.Getenv("VERIF_SLOW")

// current case, for the watchdog
var caseStart atomic.Int64

// a case is expected to take milliseconds: one that takes this long is stuck (busy loop or deadlock)
const stuckAfter = 240 * time.Second

// a case is expected to use megabytes: one that uses this much allocates without end
const tooMuchMemory = 3 << 30

func watchdog() {
	go func() {
		heap := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
		for {
			time.Sleep(100 * time.Millisecond)
			why := ""
			if s := caseStart.Load(); s != 0 && time.Now().UnixNano()-s > int64(stuckAfter) {
				why = fmt.Sprintf("a case has been going on for %v", stuckAfter)
			}
			if metrics.Read(heap); heap[0].Value.Kind() == metrics.KindUint64 && heap[0].Value.Uint64() > tooMuchMemory {
				why = fmt.Sprintf("a case uses %d MB of memory", heap[0].Value.Uint64()>>20)
			}
			if why != "" {
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				fmt.Printf("VERIF-STUCK: %s\n%s\n", why, buf)
				os.Exit(70)
			}
		}
	}()
}

// Sub runs a sub-check on n generated cases (scaled by the tier).
func (c *Check) Sub(name string, n int, prop func(c *Case)) {
	c.t.Helper()
	if envSub != "" && envSub != name {
		return
	}
	n = int(float64(n) * c.mult)
	if envReplay != "" {
		n = 0
		must(flag.Set("rapid.failfile", envReplay))
	}
	must(flag.Set("rapid.seed", strconv.FormatUint(seedFor(c.ID+"/"+name), 10)))
	must(flag.Set("rapid.checks", strconv.Itoa(n)))
	must(flag.Set("rapid.shrinktime", "20s"))
	failing := false
	ok := c.t.Run(name, func(t *testing.T) {
		rapid.Check(t, func(rt *rapid.T) {
			cs := &Case{T: rt, sub: name}
			caseStart.Store(time.Now().UnixNano())
			done := false
			defer func() {
				if d := time.Since(time.Unix(0, caseStart.Load())); envSlow != "" && d > 2*time.Second {
					if f, err := os.OpenFile(envSlow, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o666); err == nil {
						fmt.Fprintf(f, "%.1fs %s/%s %s\n", d.Seconds(), c.ID, name, clip(cs.desc, 300))
						f.Close()
					}
				}
				caseStart.Store(0)
				if !done {
					failing = true
				}
				if failing {
					if cs.desc != "" {
						rt.Logf("case: %s", clip(cs.desc, 6000))
					}
					return // shrinking
				}
				c.Evals++
				c.Subs[name]++
				for _, k := range cs.classes {
					c.Classes[k]++
				}
				if cs.nontriv {
					h := fnv.New64a()
					h.Write([]byte(name))
					h.Write([]byte(cs.desc))
					c.Nontriv[h.Sum64()] = true
					if c.Subs[name] <= 40 && countPrefix(c.Samples, name+":") < 2 {
						c.Samples = append(c.Samples, name+": "+clip(cs.desc, 500))
					}
				}
			}()
			prop(cs)
			done = true
		})
	})
	if !ok {
		c.Failures[name] = "failed"
	}
}

func countPrefix(l []string, p string) (n int) {
	for _, s := range l {
		if len(s) >= len(p) && s[:len(p)] == p {
			n++
		}
	}
	return
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// bubble runs f in a virtual-time bubble and reports what it returns ("" is fine).
// A deadlock, a leaked goroutine or a panic of the code under test is a failure.
func (c *Case) bubble(t *testing.T, f func() string) {
	c.Helper()
	var msg string
	func() {
		defer func() {
			if r := recover(); r != nil {
				msg = fmt.Sprintf("panic in the virtual-time bubble: %v (%s)", r, msg)
			}
		}()
		synctest.Test(t, func(*testing.T) {
			func() {
				defer func() {
					if r := recover(); r != nil {
						buf := make([]byte, 8192)
						buf = buf[:runtime.Stack(buf, false)]
						msg = fmt.Sprintf("panic: %v\n%s", r, buf)
					}
				}()
				msg = f()
			}()
		})
	}()
	if msg != "" {
		c.Failf("%s", msg)
	}
}

func TestMain(m *testing.M) {
	flag.Parse()
	watchdog()
	os.Exit(m.Run())
}
