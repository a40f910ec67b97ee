// vh runs the workloads and monitors of one property against the real client.
package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Violation is one refutation of a property.
type Violation struct {
	Prop   string `json:"prop"`
	Kind   string `json:"kind"`
	Case   string `json:"case"`
	Msg    string `json:"msg"`
	Detail string `json:"detail,omitempty"`
}

// Result is what a shard reports to the driver.
type Result struct {
	Prop         string           `json:"prop"`
	Tier         string           `json:"tier"`
	Seed         uint64           `json:"seed"`
	Shard        int              `json:"shard"`
	Complete     bool             `json:"complete"`
	Evaluations  int64            `json:"evaluations"`
	Counters     map[string]int64 `json:"counters"`
	Samples      []string         `json:"samples"`
	Rule         string           `json:"rule"`
	Exhaustive   []string         `json:"exhaustive"`
	Violations   []Violation      `json:"violations"`
	Others       []Violation      `json:"others"`
	Inconclusive []string         `json:"inconclusive"`
}

// Ctx is one shard's run of one property.
type Ctx struct {
	Prop, Tier    string
	Seed          uint64
	Shard, Shards int
	Only          string
	curPath       string
	outPath       string

	mu   sync.Mutex
	res  Result
	dist map[uint64]struct{}
	stop bool
}

// Thorough reports whether the deep tier was asked for.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// N scales a number of cases by tier.
func (c *Ctx) N(quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	return quick
}

// Rule describes how cases are made and what makes one non-trivial.
func (c *Ctx) Rule(s string) {
	c.mu.Lock()
	c.res.Rule = s
	c.mu.Unlock()
}

// T is one case.
type T struct {
	*Ctx
	Name string // scenario:index
	Idx  int
	R    *rand.Rand

	ticks   atomic.Int64
	failed  atomic.Bool
	descMu  sync.Mutex
	desc    string
	cleanup []func()
}

func hash64(parts ...any) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprint(h, p, "\x00")
	}
	return h.Sum64()
}

// Tick reports progress to the watchdog.
func (t *T) Tick() { t.ticks.Add(1) }

// Desc describes the case for evidence and replay.
func (t *T) Desc(format string, a ...any) {
	t.descMu.Lock()
	t.desc = fmt.Sprintf(format, a...)
	t.descMu.Unlock()
}

func (t *T) getDesc() string {
	t.descMu.Lock()
	defer t.descMu.Unlock()
	return t.desc
}

// Fail records a violation of the property under check.
func (t *T) Fail(kind, format string, a ...any) { t.FailP(t.Prop, kind, format, a...) }

// FailP records a violation of property p; it decides the run only if p is under check.
func (t *T) FailP(p, kind, format string, a ...any) {
	v := Violation{Prop: p, Kind: kind, Case: t.Name, Msg: fmt.Sprintf(format, a...), Detail: t.getDesc()}
	if len(v.Msg) > 4000 {
		v.Msg = v.Msg[:4000]
	}
	t.mu.Lock()
	if p == t.Prop {
		t.failed.Store(true)
		first := len(t.res.Violations) == 0
		if len(t.res.Violations) < 40 {
			t.res.Violations = append(t.res.Violations, v)
		}
		if len(t.res.Violations) >= 8 {
			t.stop = true
		}
		t.mu.Unlock()
		if first {
			t.flush() // the driver decides on it and cuts the rest of the run short
		}
		return
	}
	defer t.mu.Unlock()
	if len(t.res.Others) < 10 {
		t.res.Others = append(t.res.Others, v)
	}
}

// Inconclusive records that nothing could be decided.
func (t *T) Inconclusive(format string, a ...any) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.res.Inconclusive) < 10 {
		t.res.Inconclusive = append(t.res.Inconclusive, t.Name+": "+fmt.Sprintf(format, a...))
	}
}

// Count adds to a named measurement.
func (t *T) Count(name string, n int64) {
	t.mu.Lock()
	t.res.Counters[name] += n
	t.mu.Unlock()
}

// Distinct records a distinct non-trivial execution by signature.
func (t *T) Distinct(parts ...any) {
	h := hash64(parts...)
	t.mu.Lock()
	t.dist[h] = struct{}{}
	t.mu.Unlock()
}

// Evals counts further evaluations inside one case.
func (t *T) Evals(n int64) {
	t.mu.Lock()
	t.res.Evaluations += n
	t.mu.Unlock()
}

// Sample keeps a case for the evidence file.
func (t *T) Sample(format string, a ...any) {
	t.mu.Lock()
	if len(t.res.Samples) < 6 {
		s := t.Name + ": " + fmt.Sprintf(format, a...)
		if len(s) > 600 {
			s = s[:600]
		}
		t.res.Samples = append(t.res.Samples, s)
	}
	t.mu.Unlock()
}

// Cleanup runs after the case.
func (t *T) Cleanup(f func()) { t.cleanup = append(t.cleanup, f) }

const hangTicks = 400 // x 100 ms of ticks actually run without any progress

// Until polls cond until it holds; false after a generous number of polls.
func (t *T) Until(cond func() bool) bool {
	for i := 0; i < 200; i++ {
		if cond() {
			return true
		}
		runtime.Gosched()
	}
	for i := 0; i < 15000; i++ {
		if cond() {
			return true
		}
		t.Tick()
		time.Sleep(2 * time.Millisecond)
	}
	return cond()
}

// Settle waits until v stays the same for a while (affects reach only, never a verdict).
func (t *T) Settle(v func() int64) int64 {
	last, same := v(), 0
	for i := 0; i < 400 && same < 6; i++ {
		time.Sleep(500 * time.Microsecond)
		t.Tick()
		if n := v(); n == last {
			same++
		} else {
			last, same = n, 0
		}
	}
	return last
}

func allStacks() string {
	buf := make([]byte, 8<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

const clientPkg = "github.com/QuangTung97/go-memcache/"

// clientStacks keeps the goroutines that are inside the client.
func clientStacks(all string) (inClient []string, called int) {
	for _, g := range strings.Split(all, "\n\n") {
		if !strings.Contains(g, clientPkg) {
			continue
		}
		inClient = append(inClient, g)
		if i := strings.Index(g, clientPkg); strings.Contains(g[i:], "main.") {
			called++
		}
	}
	return
}

func (c *Ctx) flush() {
	c.mu.Lock()
	defer c.mu.Unlock()
	b, _ := json.Marshal(&c.res)
	_ = os.WriteFile(c.outPath+".tmp", b, 0o644)
	_ = os.Rename(c.outPath+".tmp", c.outPath)
	keys := make([]byte, 0, 8*len(c.dist))
	for h := range c.dist {
		keys = binary.LittleEndian.AppendUint64(keys, h)
	}
	_ = os.WriteFile(c.outPath+".dist", keys, 0o644)
}

// Run executes the cases of a scenario that belong to this shard.
func (c *Ctx) Run(scenario string, n int, f func(t *T)) {
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("%s:%d", scenario, i)
		if c.Only != "" {
			if c.Only != name {
				continue
			}
		} else if i%c.Shards != c.Shard {
			continue
		}
		if c.stop {
			return
		}
		c.runCase(name, i, f)
	}
}

func (c *Ctx) runCase(name string, i int, f func(t *T)) {
	t := &T{Ctx: c, Name: name, Idx: i, R: rand.New(rand.NewPCG(c.Seed, hash64(c.Prop, name)))}
	if c.curPath != "" {
		_ = os.WriteFile(c.curPath, []byte(name), 0o644)
	}
	began := time.Now()
	defer func() {
		t.Count("ms_"+strings.SplitN(name, ":", 2)[0], time.Since(began).Milliseconds())
	}()
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			for j := len(t.cleanup) - 1; j >= 0; j-- {
				t.cleanup[j]()
			}
		}()
		f(t)
	}()
	last, idle, cpu := int64(-1), 0, time.Duration(0)
	tick := time.NewTicker(100 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case <-done:
			c.mu.Lock()
			c.res.Evaluations++
			c.mu.Unlock()
			return
		case <-tick.C:
			if n := t.ticks.Load(); n != last {
				last, idle, cpu = n, 0, cpuTime()
			} else {
				idle++
			}
			// a process that computes is slow rather than stuck: it gets four times as long
			if idle >= hangTicks && (idle >= 4*hangTicks || cpuTime()-cpu < time.Duration(idle)*100*time.Millisecond/5) {
				all := allStacks()
				in, called := clientStacks(all)
				sort.Strings(in)
				dump := strings.Join(in, "\n\n")
				if len(dump) > 12000 {
					dump = dump[:12000]
				}
				if called > 0 && !t.failed.Load() {
					t.Desc("%s\n\ngoroutines inside the client:\n%s", t.getDesc(), dump)
					t.Fail("hang", "no progress: %d caller(s) blocked inside the client, every timeout of the workload long past", called)
				} else if !t.failed.Load() {
					t.Inconclusive("workload made no progress, but no caller is blocked in the client\n%.6000s", all)
				}
				c.flush()
				os.Exit(0)
			}
		}
	}
}

var registry = map[string]func(c *Ctx){}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Uint64("seed", 1, "seed")
	shard := flag.Int("shard", 0, "shard")
	shards := flag.Int("shards", 1, "shards")
	only := flag.String("only", "", "run one case, scenario:index")
	out := flag.String("out", "", "result file")
	list := flag.Bool("list", false, "list properties")
	flag.Parse()
	if *list {
		var ids []string
		for k := range registry {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
		return
	}
	f := registry[*prop]
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(3)
	}
	if *out == "" {
		d, _ := os.MkdirTemp("", "vh")
		*out = filepath.Join(d, "result.json")
	}
	debug.SetTraceback("all")
	c := &Ctx{Prop: *prop, Tier: *tier, Seed: *seed, Shard: *shard, Shards: *shards, Only: *only,
		outPath: *out, curPath: *out + ".case", dist: map[uint64]struct{}{}}
	c.res = Result{Prop: *prop, Tier: *tier, Seed: *seed, Shard: *shard, Counters: map[string]int64{}}
	f(c)
	c.res.Complete = true
	c.flush()
	if *only != "" || *shards == 1 {
		b, _ := json.MarshalIndent(&c.res, "", " ")
		fmt.Println(string(b))
	}
}

func cpuTime() time.Duration {
	cpu, _ := spent()
	return cpu
}
