package main

import (
	"errors"
	"fmt"
	"math/rand/v2"
	"net"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/QuangTung97/go-memcache/memcache"
	"github.com/QuangTung97/go-memcache/memcache/netconn"

	"verifharness/fake"
	"verifharness/memconn"
)

func init() {
	registry["C15"] = runC15
	registry["C16"] = runC16
	registry["C27"] = runC27
	registry["C28"] = runC28
}

// quotaGate holds replies back; it lets any number through at a time.
type quotaGate struct {
	mu    sync.Mutex
	cond  *sync.Cond
	open  bool
	quota int64
}

func newQuotaGate() *quotaGate {
	g := &quotaGate{}
	g.cond = sync.NewCond(&g.mu)
	return g
}

func (g *quotaGate) wait() {
	g.mu.Lock()
	for !g.open && g.quota <= 0 {
		g.cond.Wait()
	}
	if !g.open {
		g.quota--
	}
	g.mu.Unlock()
}

func (g *quotaGate) set(open bool) {
	g.mu.Lock()
	g.open = open
	g.quota = 0
	g.mu.Unlock()
	g.cond.Broadcast()
}

func (g *quotaGate) allow(n int64) {
	g.mu.Lock()
	g.quota += n
	g.mu.Unlock()
	g.cond.Broadcast()
}

// --------------------------------------------------------------------------- C15

var smallGen = GenSpec{MaxSize: 20, ErrPct: 5, MissPct: 20, KindWts: [7]int{4, 2, 3, 2, 1, 0, 0}}

// limitMonitor fails when a session has too many unanswered commands.
func limitMonitor(t *T, limit, batch int, maxSeen *atomic.Int64) func(s *fake.Session, c *fake.Cmd) {
	return func(s *fake.Session, c *fake.Cmd) {
		rep := s.Replied() // before Received: never too few replies for what was received
		n := s.Received() - rep
		for {
			m := maxSeen.Load()
			if n <= m || maxSeen.CompareAndSwap(m, n) {
				break
			}
		}
		if n > int64(limit+batch-1) {
			t.Fail("over-limit", "connection %d has %d unanswered commands, write limit %d, batch size %d (%v)", s.ID, n, limit, batch, c)
		}
	}
}

// pipesOf issues one pipeline of each length from its own goroutine.
func (e *Env) pipesOf(lens []int, g GenSpec) *sync.WaitGroup {
	var wg sync.WaitGroup
	for _, n := range lens {
		seed := e.T.R.Uint64()
		pl := e.Cl.Pipeline() // here, so that the connections are taken in the order of lens
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewPCG(seed, 9))
			pipe := int(e.pipes.Add(1))
			var ops []*Op
			for i := 0; i < n; i++ {
				o := e.genOp(r, g, pipe, i)
				e.issue(pl, o, g, r)
				ops = append(ops, o)
			}
			pl.Execute()
			for _, o := range ops {
				e.get(o)
			}
		}()
	}
	return &wg
}

func limitCase(t *T, faults bool) {
	r := t.R
	limit := pick(r, 1, 2, 5, 10, 17, 64, 100, 128, 200, 250)
	batch := pick(r, 1, 2, 3, 7, 10, 32, 100)
	batch = min(batch, limit)
	cfg := Cfg{Conns: pick(r, 1, 1, 2, 3), Limit: limit, MaxBatch: batch, Buf: pick(r, 3, 64, 4096), WBuf: pick(r, 0, 0, 64), Procs: pick(r, 1, 2, 4, 8),
		Perturb: pick(r, uint32(0), 10, 50, 500), C2S: 256 << 10, S2C: 256 << 10, SplitMax: pick(r, 0, 0, 5), Poison: true}
	var maxSeen atomic.Int64
	mon := limitMonitor(t, limit, batch, &maxSeen)
	g := newQuotaGate()
	g.set(true)
	var faulty atomic.Bool
	var nFaults atomic.Int64
	t.Desc("%v faults=%v", cfg, faults)
	var e *Env
	e = newEnv(t, cfg, EnvOpt{NoStart: true, Handler: func(s *fake.Session, c *fake.Cmd) fake.Reply {
		g.wait()
		rep := oracleHandler(s, c)
		if faulty.Load() && e.draw(12) == 0 {
			nFaults.Add(1)
			switch e.draw(5) {
			case 0:
				rep.Close = true
			case 1:
				rep.Reset = true
			case 2:
				rep = e.stalled(rep)
			case 3:
				rep.Data = []byte("CLIENT_ERROR no\r\n")
			case 4:
				rep.Data = []byte("WHAT\r\n")
				rep.Close = true
			}
		}
		return rep
	}, Tweak: func(o *fake.Options) {
		o.OnCmd = mon
		o.Dial = func(int) error {
			if faulty.Load() && e.draw(4) == 0 {
				return fake.ErrRefused
			}
			return nil
		}
		o.OnConn = func(s *fake.Session) {
			if faulty.Load() && e.draw(6) == 0 {
				nFaults.Add(1)
				s.Client.FailWritesAfter(int64(e.draw(500)), syscall.EPIPE)
			}
		}
	}})
	e.start()
	t.Cleanup(func() { g.set(true); e.Close() })
	e.Faulty = faults
	// the full limit must be available, and no more, on each connection
	full := func(why string, uniform bool) bool {
		m := cfg.Conns
		base := map[int]int64{}
		var live []*fake.Session
		for _, s := range e.Srv.Sessions() {
			if !s.Client.Closed() && !s.M.Closed() {
				live = append(live, s)
				base[s.ID] = s.Received()
			}
		}
		if len(live) != m {
			t.Inconclusive("%s: %d live connections of %d", why, len(live), m)
			return false
		}
		b := 1 + r.IntN(batch)
		if limit/b > 250 {
			b = (limit + 249) / 250
		}
		want := int64(limit / b * b)
		var lens []int
		for i := 0; i < m*(limit/b+2+r.IntN(6)); i++ {
			n := b
			if !uniform {
				n = pick(r, 1, b, batch, batch+1, 2*batch, 3*batch+1)
			}
			lens = append(lens, n)
		}
		if !uniform { // enough for every connection to run into its limit
			for i := 0; i < m; i++ {
				lens = append(lens, limit+2*batch)
			}
		}
		g.set(false)
		wg := e.pipesOf(lens, smallGen)
		for _, s := range live {
			ok := t.Until(func() bool {
				n := s.Received() - base[s.ID]
				if uniform {
					return n >= want
				}
				return n > int64(limit-batch)
			})
			if !ok && !t.failed.Load() {
				t.Fail("limit-leaked", "%s: connection %d takes only %d commands without replies, limit %d, batches of %d", why, s.ID, s.Received()-base[s.ID], limit, b)
			}
		}
		t.Settle(e.received)
		for _, s := range live {
			n := s.Received() - base[s.ID]
			if n > int64(limit) {
				t.Fail("over-limit", "%s: connection %d took %d commands without any reply, limit %d", why, s.ID, n, limit)
			}
		}
		t.Count("limit_reached_exactly", 1)
		for k := r.IntN(6); k > 0; k-- { // trickle
			g.allow(int64(1 + r.IntN(2*batch)))
			if r.IntN(2) == 0 {
				t.Settle(e.received)
			}
		}
		g.set(true)
		wg.Wait()
		return !t.failed.Load()
	}
	rounds := 1 + r.IntN(3)
	for k := 0; k < rounds; k++ {
		if !full(fmt.Sprintf("round %d", k), r.IntN(3) > 0) {
			return
		}
		if faults {
			faulty.Store(true)
			stop := e.nudge()
			for j := 0; j < 1+r.IntN(3); j++ {
				var lens []int
				for i := 0; i < 1+r.IntN(20); i++ {
					lens = append(lens, pick(r, 1, 2, batch, batch+1, 2*batch+1, limit))
				}
				e.pipesOf(lens, smallGen).Wait()
			}
			stop()
			faulty.Store(false)
			for _, s := range e.Srv.Sessions() { // doomed or silent ones
				_ = s.M.Close()
			}
			if !e.healthy(cfg.Conns, "after faults") {
				t.failed.Store(false)
				t.Inconclusive("the pool did not recover")
				return
			}
		}
	}
	if faults {
		full("after all faults", true)
	}
	t.Count("faults_injected", nFaults.Load())
	t.Count("peak_unanswered_summed", maxSeen.Load())
	t.Distinct(cfg.String(), e.signature())
	t.Sample("%s: up to %d unanswered", t.getDesc(), maxSeen.Load())
}

func runC15(c *Ctx) {
	c.Rule("withheld and trickling replies against many pipelines: at each arrival the unanswered commands of the connection are counted; with all replies withheld exactly the limit must be reached, again after rounds of faults; batches above the limit must be sent; distinct = distinct configuration and arrival order")
	c.Run("limit", c.N(200, 6000), func(t *T) { limitCase(t, false) })
	c.Run("faults", c.N(160, 5000), func(t *T) { limitCase(t, true) })
	c.Run("busy", c.N(120, 4000), func(t *T) {
		// random traffic, replies in random order of delay
		r := t.R
		cfg := randCfg(r).tame(60_000)
		cfg.MaxBatch = min(cfg.MaxBatch, cfg.Limit)
		var maxSeen atomic.Int64
		t.Desc("%v", cfg)
		ps := ProgSpec{Pipelines: 2 + r.IntN(6), MaxSessions: 3, Gen: smallGen, Len: lenAround(min(cfg.MaxBatch, 40)), Release: true}
		var e *Env
		e = newEnv(t, cfg, EnvOpt{Tweak: func(o *fake.Options) {
			o.OnCmd = limitMonitor(t, cfg.Limit, cfg.MaxBatch, &maxSeen)
			h := o.Handler
			o.Handler = func(s *fake.Session, c *fake.Cmd) fake.Reply {
				if e.draw(50) == 0 {
					time.Sleep(time.Duration(e.draw(300)) * time.Microsecond)
				}
				return h(s, c)
			}
		}})
		t.Cleanup(e.Close)
		e.parallel(2+r.IntN(14), func(_ int, r *rand.Rand) { e.runProgram(r, ps) })
		t.Count("peak_unanswered_summed", maxSeen.Load())
		t.Distinct(cfg.String(), e.signature())
		t.Sample("%s: up to %d unanswered", t.getDesc(), maxSeen.Load())
	})
	c.Run("above", c.N(120, 3000), func(t *T) {
		// batches larger than the limit
		r := t.R
		limit := pick(r, 1, 2, 5, 20)
		cfg := Cfg{Conns: pick(r, 1, 2), Limit: limit, MaxBatch: limit + 1 + r.IntN(100), Buf: pick(r, 5, 4096), Procs: pick(r, 1, 2, 4), Perturb: pick(r, uint32(0), 20, 200), Poison: true}
		t.Desc("%v", cfg)
		g := newQuotaGate()
		g.set(true)
		e := newEnv(t, cfg, EnvOpt{Handler: func(s *fake.Session, c *fake.Cmd) fake.Reply { g.wait(); return oracleHandler(s, c) }})
		t.Cleanup(func() { g.set(true); e.Close() })
		for k := 0; k < 3; k++ {
			var lens []int
			for i := 0; i < 1+r.IntN(12); i++ {
				lens = append(lens, pick(r, 1, limit, limit+1, cfg.MaxBatch, cfg.MaxBatch+1, 3*cfg.MaxBatch))
			}
			wg := e.pipesOf(lens, smallGen)
			wg.Wait()
			// afterwards the limit is whole: exactly limit single commands may be unanswered
			s := e.Srv.Sessions()
			g.set(false)
			base := make([]int64, len(s))
			for i := range s {
				base[i] = s[i].Received()
			}
			ones := make([]int, cfg.Conns*(limit+3))
			for i := range ones {
				ones[i] = 1
			}
			wg = e.pipesOf(ones, smallGen)
			for i := range s {
				if !t.Until(func() bool { return s[i].Received()-base[i] >= int64(limit) }) {
					t.Fail("limit-leaked", "after batches above the limit %d, connection %d takes only %d commands", limit, i, s[i].Received()-base[i])
				}
			}
			t.Settle(e.received)
			for i := range s {
				if n := s[i].Received() - base[i]; n > int64(limit) {
					t.Fail("over-limit", "after batches above the limit %d, connection %d takes %d commands without reply", limit, i, n)
				}
			}
			g.set(true)
			wg.Wait()
			if t.failed.Load() {
				return
			}
		}
		e.Close()
		e.audit()
		t.Distinct(cfg.String(), e.signature())
	})
}

// --------------------------------------------------------------------------- C16

func starveCase(t *T, gated bool) {
	r := t.R
	limit := pick(r, 1, 10, 20, 50, 100)
	batch := min(pick(r, 1, 5, 10, 25), limit) // above the limit only the queue capacity bounds it
	longs := 1 + r.IntN(4)
	shorts := 1 + r.IntN(4)
	bound := 4*max(limit, batch) + (shorts+4)*batch + 2*longs*batch
	perLong := (30*bound)/longs + 1
	cfg := Cfg{Conns: 1, Limit: limit, MaxBatch: batch, Buf: pick(r, 16, 4096), WBuf: pick(r, 0, 0, 100), Procs: pick(r, 1, 2, 4, 8), Perturb: pick(r, uint32(0), 0, 200, 2000),
		C2S: pick(r, 256<<10, 2000), S2C: 256 << 10}
	t.Desc("%v %d long pipelines of %d, %d short, gated=%v", cfg, longs, perLong, shorts, gated)
	g := newQuotaGate()
	g.set(!gated)
	var longSeen atomic.Int64
	var mu sync.Mutex
	at := map[uint64]int64{} // short op id -> long commands received before it
	shortIDs := map[uint64]bool{}
	e := newEnv(t, cfg, EnvOpt{
		Handler: func(s *fake.Session, c *fake.Cmd) fake.Reply { g.wait(); return oracleHandler(s, c) },
		Tweak: func(o *fake.Options) {
			o.OnCmd = func(s *fake.Session, c *fake.Cmd) {
				p, _ := parsePlan(c.Key)
				mu.Lock()
				if shortIDs[p.ID] {
					at[p.ID] = longSeen.Load()
				} else {
					longSeen.Add(1)
				}
				mu.Unlock()
			}
		}})
	t.Cleanup(func() { g.set(true); e.Close() })
	gen := GenSpec{MaxSize: 5, MissPct: 90, KindWts: [7]int{1, 0, 0, 0, 0, 0, 0}}
	lens := make([]int, longs)
	for i := range lens {
		lens[i] = perLong
	}
	wg := e.pipesOf(lens, gen)
	if gated {
		t.Until(func() bool { return longSeen.Load() > 0 })
		t.Settle(longSeen.Load)
	} else {
		x := int64(longs*batch + r.IntN(longs*perLong/3))
		t.Until(func() bool { return longSeen.Load() >= x })
	}
	type sh struct {
		ops  []*Op
		seen int64
	}
	out := make([]sh, shorts)
	var swg, exec sync.WaitGroup
	for i := range out {
		pl := e.Cl.Pipeline()
		for k := 0; k < 1+r.IntN(batch); k++ {
			o := e.genOp(r, gen, int(e.pipes.Add(1)), k)
			mu.Lock()
			shortIDs[o.ID] = true
			mu.Unlock()
			e.issue(pl, o, gen, r)
			out[i].ops = append(out[i].ops, o)
		}
		swg.Add(1)
		exec.Add(1)
		go func() {
			defer swg.Done()
			pl.Execute()
			out[i].seen = longSeen.Load()
			exec.Done()
			for _, o := range out[i].ops {
				e.get(o)
			}
		}()
	}
	exec.Wait()
	g.set(true)
	swg.Wait()
	wg.Wait() // every long pipeline completes
	total := int64(longs * perLong)
	for i := range out {
		mu.Lock()
		first := at[out[i].ops[0].ID]
		mu.Unlock()
		d := first - out[i].seen
		if total-out[i].seen > int64(3*bound) {
			t.Count("short_pipelines_judged", 1)
			if d > int64(bound) {
				t.Fail("starved", "%d commands of long pipelines were sent between the flush of a short pipeline and its first command (limit %d, batch %d, %d long and %d short pipelines: at most %d); %d of %d were left",
					d, limit, batch, longs, shorts, bound, total-out[i].seen, total)
			}
		}
	}
	if n := longSeen.Load(); n != total {
		t.Fail("incomplete", "%d of %d commands of long pipelines were received", n, total)
	}
	t.Distinct(cfg.String(), e.signature())
	t.Sample("%s", t.getDesc())
}

func runC16(c *Ctx) {
	c.Rule("1..4 long pipelines (together 30 times the allowed amount) are flushed, then 1..4 short ones while the long ones wait for withheld replies or are being sent; the long commands arriving between a short flush and its first command are counted; distinct = distinct configuration and arrival order")
	c.Run("gated", c.N(120, 3000), func(t *T) { starveCase(t, true) })
	c.Run("flowing", c.N(100, 3000), func(t *T) { starveCase(t, false) })
}

// --------------------------------------------------------------------------- C27

func runC27(c *Ctx) {
	c.Rule("single pipelines of 1..batch commands whose bytes fit the send buffer, on an idle client, must leave in exactly one Write; 60..200 pipelines flushed by goroutines while the connection is blocked in a Write must leave in a handful of Writes; distinct = distinct sizes and counts")
	c.Run("single", c.N(600, 15000), func(t *T) {
		r := t.R
		cfg := Cfg{Conns: 1, Limit: pick(r, 100, 500, 2000), MaxBatch: pick(r, 1, 5, 33, 100, 100), WBuf: pick(r, 0, 0, 200, 1000, 4096, 20000, 65536, 200000), Procs: pick(r, 1, 2, 4, 8), Perturb: pick(r, uint32(0), 10, 200), Poison: true}
		size := cfg.WBuf
		if size == 0 {
			size = 16 << 10
		}
		var writes atomic.Int64
		var lastLen atomic.Int64
		e := newEnv(t, cfg, EnvOpt{Tweak: func(o *fake.Options) {
			o.Hooks = func(int) memconn.Hooks {
				return memconn.Hooks{BeforeWrite: func(_ *memconn.Conn, p []byte) { writes.Add(1); lastLen.Store(int64(len(p))) }}
			}
		}})
		t.Cleanup(e.Close)
		for k := 0; k < 5; k++ {
			n := pick(r, 1, cfg.MaxBatch, 1+r.IntN(cfg.MaxBatch))
			n = min(n, cfg.MaxBatch, cfg.Limit)
			pl := e.Cl.Pipeline()
			var ops []*Op
			bytes := 0
			fill := r.IntN(3) == 0 // nearly as much as fits
			for i := 0; i < n; i++ {
				g := GenSpec{MaxSize: 1 + r.IntN(max(2, size/n)), ErrPct: 5, MissPct: 20, KindWts: [7]int{4, 2, 6, 2, 1, 0, 0}, LongKeys: r.IntN(2) == 0}
				o := e.genOp(r, g, 1, i)
				if fill && o.Kind == KSet {
					o.Val = fillValue(o.ID, max(0, size/n-200))
				}
				w := 60 + len(o.Key) + len(o.Val) + 40 // an upper bound of its request
				if bytes+w > size {
					break
				}
				bytes += w
				e.issue(pl, o, g, r)
				ops = append(ops, o)
			}
			if len(ops) == 0 {
				continue
			}
			w0, b0 := writes.Load(), e.Srv.Sessions()[0].Client.BytesOut()
			pl.Execute()
			for _, o := range ops {
				e.get(o)
			}
			got := e.Srv.Sessions()[0].Client.BytesOut() - b0
			if d := writes.Load() - w0; d != 1 {
				t.Fail("writes", "%d commands (%d bytes, batch size %d, buffer %d) left in %d writes", len(ops), got, cfg.MaxBatch, size, d)
				return
			}
			t.Count("pipelines", 1)
			t.Count("commands", int64(len(ops)))
			t.Distinct(cfg.MaxBatch, size, len(ops), got)
		}
		t.Desc("%v", cfg)
		t.Sample("%s", t.getDesc())
	})
	c.Run("busy", c.N(200, 5000), func(t *T) {
		r := t.R
		n := 60 + r.IntN(140)
		cfg := Cfg{Conns: 1, Limit: 3000, MaxBatch: pick(r, 10, 100), WBuf: pick(r, 0, 0, 64<<10), Procs: pick(r, 1, 2, 4, 8), Perturb: pick(r, uint32(0), 50, 500), C2S: 100}
		size := cfg.WBuf
		if size == 0 {
			size = 16 << 10
		}
		t.Desc("%v %d pipelines while writing", cfg, n)
		var writes atomic.Int64
		pause := make(chan struct{})
		var paused atomic.Bool
		paused.Store(true)
		e := newEnv(t, cfg, EnvOpt{Tweak: func(o *fake.Options) {
			o.Hooks = func(int) memconn.Hooks {
				return memconn.Hooks{BeforeWrite: func(*memconn.Conn, []byte) { writes.Add(1) }}
			}
			o.ReadPause = func(s *fake.Session) {
				if paused.Load() {
					<-pause
				}
			}
		}})
		var once sync.Once
		resume := func() { paused.Store(false); once.Do(func() { close(pause) }) }
		t.Cleanup(func() { resume(); e.Close() })
		s := e.Srv.Sessions()[0]
		first := e.Cl.Pipeline()
		setFn := first.MSet("busy", make([]byte, 5000), memcache.MSetOptions{})
		first.Execute()
		if !t.Until(s.Client.WriteBlocked) {
			t.Inconclusive("the write did not block")
			return
		}
		w0 := writes.Load()
		var flushed, done sync.WaitGroup
		seeds := r.Uint64()
		for i := 0; i < n; i++ {
			flushed.Add(1)
			done.Add(1)
			go func() {
				defer done.Done()
				r := rand.New(rand.NewPCG(seeds, uint64(i)))
				pl := e.Cl.Pipeline()
				var ops []*Op
				for k := 0; k < 1+r.IntN(3); k++ {
					o := e.genOp(r, GenSpec{MaxSize: 10, MissPct: 50, KindWts: [7]int{4, 2, 3, 2, 0, 0, 0}}, i, k)
					e.issue(pl, o, smallGen, r)
					ops = append(ops, o)
				}
				pl.Execute()
				flushed.Done()
				for _, o := range ops {
					e.get(o)
				}
			}()
		}
		flushed.Wait()
		before := s.Client.BytesOut()
		resume()
		s.M.ShrinkPeerWrites(1 << 20) // no more throttling
		done.Wait()
		_, _ = setFn()
		d := writes.Load() - w0
		bytes := s.Client.BytesOut() - before
		allowed := int64(2*(n/128+1)) + 2*bytes/int64(size) + 2
		if d > allowed {
			t.Fail("writes", "%d pipelines (%d bytes) flushed while the connection was writing left in %d writes, at most %d expected", n, bytes, d, allowed)
		}
		t.Count("pipelines_coalesced", int64(n))
		t.Count("writes_for_them", d)
		t.Distinct(n, bytes, d)
		t.Sample("%s: %d writes", t.getDesc(), d)
	})
}

// --------------------------------------------------------------------------- C28

type dlState struct {
	mu    sync.Mutex
	fresh bool
	t     time.Time
}

// deadlineHooks check that every read and write is preceded by its own deadline.
func deadlineHooks(t *T, rt, wt time.Duration, reads, writes *atomic.Int64) memconn.Hooks {
	rd, wr := &dlState{}, &dlState{}
	// what has expired costs the connection: it is not tried again
	again := func(c *memconn.Conn, what string, read bool) {
		r, w := c.Expired()
		if read && r > 0 || !read && w > 0 {
			t.Fail("kept", "another network %s on a connection whose %s has timed out", what, what)
		}
	}
	near := func(what string, d *dlState, want time.Duration) {
		d.mu.Lock()
		defer d.mu.Unlock()
		if !d.fresh {
			t.Fail("no-deadline", "a network %s without a deadline of its own (last deadline %v from now, configured %v)", what, time.Until(d.t).Round(time.Second), want)
			return
		}
		d.fresh = false
		if left := time.Until(d.t); d.t.IsZero() || left > want+time.Second || left < want-60*time.Second {
			t.Fail("deadline", "a network %s with a deadline %v from now, configured %v", what, left.Round(time.Second), want)
		}
	}
	mark := func(d *dlState, at time.Time) {
		d.mu.Lock()
		d.fresh, d.t = true, at
		d.mu.Unlock()
	}
	return memconn.Hooks{
		OnReadDl:    func(_ *memconn.Conn, at time.Time) { mark(rd, at) },
		OnWriteDl:   func(_ *memconn.Conn, at time.Time) { mark(wr, at) },
		BeforeRead:  func(c *memconn.Conn) { reads.Add(1); near("read", rd, rt); again(c, "read", true) },
		BeforeWrite: func(c *memconn.Conn, _ []byte) { writes.Add(1); near("write", wr, wt); again(c, "write", false) },
	}
}

func isTimeout(err error) bool {
	var ne net.Error
	return errors.As(err, &ne) && ne.Timeout()
}

func runC28(c *Ctx) {
	c.Rule("hooks on the connection see every deadline, read and write of varied traffic under distinct far read and write timeouts set by options in any order; declared stalls in either direction must fail the pending operations with a timeout and replace the connection; idle connections (virtually stalled, and really idle for several short timeouts) must survive; distinct = distinct configuration, timeouts and arrival order")
	farPair := func(r *rand.Rand) (time.Duration, time.Duration) {
		a := pick(r, 700, 900, 1700, 3600, 7200)
		b := pick(r, 1100, 1300, 2500, 5000, 86400)
		if r.IntN(2) == 0 {
			a, b = b, a
		}
		return time.Duration(a) * time.Second, time.Duration(b) * time.Second
	}
	opts := func(r *rand.Rand, rt, wt time.Duration) []memcache.Option {
		o := []netconn.Option{netconn.WithReadTimeout(rt), netconn.WithWriteTimeout(wt)}
		if r.IntN(2) == 0 {
			o[0], o[1] = o[1], o[0]
		}
		if r.IntN(3) == 0 {
			return []memcache.Option{memcache.WithNetConnOptions(o[0]), memcache.WithNetConnOptions(o[1])}
		}
		if r.IntN(2) == 0 {
			o = append(o, netconn.WithBufferSize(pick(r, 100, 4096)))
		}
		return []memcache.Option{memcache.WithNetConnOptions(o...)}
	}
	c.Run("hooks", c.N(400, 10000), func(t *T) {
		r := t.R
		cfg := randCfg(r).tame(60_000)
		rt, wt := farPair(r)
		t.Desc("%v read timeout %v write timeout %v", cfg, rt, wt)
		var reads, writes, faults atomic.Int64
		faulty := r.IntN(2) == 0
		var e *Env
		e = newEnv(t, cfg, EnvOpt{NoStart: true,
			Handler: func(s *fake.Session, c *fake.Cmd) fake.Reply {
				rep := oracleHandler(s, c)
				if faulty && e.draw(40) == 0 && faults.Load() < 8 {
					faults.Add(1)
					switch e.draw(4) {
					case 0:
						rep.Close = true
					case 1:
						rep = e.stalled(rep)
					case 2:
						rep.Reset = true
					case 3:
						rep.Blip = true
					}
				}
				return rep
			},
			Tweak: func(o *fake.Options) {
				o.ReadPause = func(s *fake.Session) {
					if faulty && faults.Load() < 8 && e.draw(40) == 0 {
						faults.Add(1)
						s.BlipWrites()
					}
				}
				o.Hooks = func(int) memconn.Hooks {
					h := deadlineHooks(t, rt, wt, &reads, &writes)
					if cfg.ReadMax > 0 {
						h.ReadLimit = func(int, int64) int { return 1 + e.draw(cfg.ReadMax) }
					}
					return h
				}
			}})
		e.Faulty, e.Probes = faulty, true
		ex := opts(r, rt, wt)
		if r.IntN(3) == 0 {
			ex = append(ex, memcache.WithHealthCheckDuration(time.Millisecond))
		}
		e.start(ex...)
		t.Cleanup(e.Close)
		ps := ProgSpec{Pipelines: 2 + r.IntN(5), MaxSessions: 3, Gen: defaultGen, Len: lenAround(min(cfg.MaxBatch, 40)), Release: true}
		e.parallel(1+r.IntN(8), func(_ int, r *rand.Rand) { e.runProgram(r, ps) })
		e.Close()
		t.Count("reads_observed", reads.Load())
		t.Count("writes_observed", writes.Load())
		t.Count("faults_injected", faults.Load())
		t.Distinct(rt, wt, cfg.String(), e.signature())
		t.Sample("%s: %d reads, %d writes", t.getDesc(), reads.Load(), writes.Load())
	})
	c.Run("stall", c.N(300, 8000), func(t *T) {
		// a peer that stalls in one direction fails the pending operations with a timeout
		r := t.R
		cfg := Cfg{Conns: pick(r, 1, 1, 2), Limit: pick(r, 5, 100, 500), MaxBatch: pick(r, 1, 5, 100), Buf: pick(r, 5, 4096), Procs: pick(r, 1, 2, 4, 8), Perturb: pick(r, uint32(0), 20, 200), C2S: pick(r, 64, 300, 64<<10), S2C: 64 << 10}
		dir := pick(r, "read", "write", "partial")
		n := 1 + r.IntN(30)
		t.Desc("%v stalled %s with %d pipelines", cfg, dir, n)
		var hold atomic.Bool
		hold.Store(true)
		release := make(chan struct{})
		e := newEnv(t, cfg, EnvOpt{
			Handler: func(s *fake.Session, c *fake.Cmd) fake.Reply {
				if s.ID < cfg.Conns && hold.Load() {
					if dir == "partial" && c.Pos == 0 {
						return fake.Reply{Data: []byte("HD\r")}
					}
					return fake.Reply{Drop: true}
				}
				return fake.Reply{Data: []byte("HD\r\n")}
			},
			Tweak: func(o *fake.Options) {
				if dir == "write" {
					o.ReadPause = func(s *fake.Session) {
						if s.ID < cfg.Conns {
							select {
							case <-release:
							case <-s.Client.Done():
							}
						}
					}
				}
			}})
		var once sync.Once
		t.Cleanup(func() { once.Do(func() { close(release) }); e.Close() })
		e.Faulty = true
		var wg sync.WaitGroup
		var bad, timeouts atomic.Int64
		var lastErr atomic.Value
		seed := r.Uint64()
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := rand.New(rand.NewPCG(seed, uint64(i)))
				pl := e.Cl.Pipeline()
				var fs []func() error
				for k := 0; k < 1+r.IntN(4); k++ {
					fs = append(fs, func() error {
						fn := pl.MSet(fmt.Sprintf("k%d.%d", i, k), make([]byte, 300+r.IntN(300)), memcache.MSetOptions{})
						return func() error { _, err := fn(); return err }()
					})
				}
				for _, f := range fs {
					err := f()
					t.Tick()
					switch {
					case isTimeout(err):
						timeouts.Add(1)
					case err != nil:
						lastErr.Store(err.Error())
						bad.Add(1)
					}
				}
			}()
		}
		time.Sleep(time.Duration(r.IntN(3000)) * time.Microsecond)
		var stop atomic.Bool
		fin := make(chan struct{})
		go func() { // the stall is declared again for operations that come late
			defer close(fin)
			for !stop.Load() {
				for _, s := range e.Srv.Sessions() {
					if s.ID < cfg.Conns {
						if dir == "write" {
							s.M.StallPeerWrites()
							if s.Client.WriteBlocked() || cfg.C2S >= 64<<10 {
								s.M.StallPeerReads() // nothing can come back either
							}
						} else {
							s.M.StallPeerReads()
							s.M.StallPeerWrites()
						}
					}
				}
				time.Sleep(200 * time.Microsecond)
			}
		}()
		wg.Wait()
		stop.Store(true)
		<-fin
		if bad.Load() > 0 {
			t.Fail("error", "%d operations on a stalled connection failed with something else than a timeout: %v", bad.Load(), lastErr.Load())
		}
		if timeouts.Load() == 0 {
			t.Fail("no-timeout", "no operation on a stalled connection timed out")
		}
		once.Do(func() { close(release) })
		closed := 0
		for _, s := range e.Srv.Sessions() {
			if s.ID < cfg.Conns && s.Client.Closed() {
				closed++
			}
		}
		if closed == 0 {
			t.Fail("kept", "no connection was given up after a stall")
		}
		hold.Store(false)
		t.Count("operations_timed_out", timeouts.Load())
		t.Distinct(cfg.String(), dir, n, timeouts.Load())
		t.Sample("%s: %d timeouts", t.getDesc(), timeouts.Load())
	})
	c.Run("transient", c.N(300, 8000), func(t *T) {
		// the answer comes just after the timeout: the operation has failed nevertheless
		r := t.R
		cfg := randCfg(r).tame(50_000)
		cfg.Conns = pick(r, 1, 1, 2)
		cfg.TCP = false
		n := 1 + r.IntN(20)
		var late sync.Map // key -> session
		var lates atomic.Int64
		var reads, writes atomic.Int64
		rt, wt := farPair(r)
		t.Desc("%v %d pipelines, some answers come after the timeout", cfg, n)
		var e *Env
		e = newEnv(t, cfg, EnvOpt{NoStart: true,
			Handler: func(s *fake.Session, c *fake.Cmd) fake.Reply {
				rep := fake.Reply{Data: []byte("HD\r\n")}
				if lates.Load() < 4 && e.draw(10) == 0 {
					lates.Add(1)
					rep.Blip = true
					late.Store(c.Key, s)
				}
				return rep
			},
			Tweak: func(o *fake.Options) {
				o.Hooks = func(int) memconn.Hooks {
					h := deadlineHooks(t, rt, wt, &reads, &writes)
					if cfg.ReadMax > 0 {
						h.ReadLimit = func(int, int64) int { return 1 + e.draw(cfg.ReadMax) }
					}
					return h
				}
			}})
		e.Faulty = true
		e.start(opts(r, rt, wt)...)
		t.Cleanup(e.Close)
		var wg sync.WaitGroup
		seed := r.Uint64()
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := rand.New(rand.NewPCG(seed, uint64(i)))
				pl := e.Cl.Pipeline()
				for k := 0; k < 1+r.IntN(3); k++ {
					var keys []string
					var fs []func() (memcache.MSetResponse, error)
					for j := 0; j < 1+r.IntN(5); j++ {
						key := fmt.Sprintf("k%d.%d.%d", i, k, j)
						keys = append(keys, key)
						fs = append(fs, pl.MSet(key, make([]byte, r.IntN(100)), memcache.MSetOptions{}))
					}
					for j, f := range fs {
						_, err := f()
						t.Tick()
						if _, ok := late.Load(keys[j]); ok {
							switch {
							case err == nil:
								t.Fail("no-timeout", "the answer of %s came after the read timeout, yet the operation succeeded", keys[j])
							case isTimeout(err):
								t.Count("late_operations_timed_out", 1)
							default:
								// its batch may have been cut off by the connection's closing
								t.Count("late_operations_failed_otherwise", 1)
							}
						}
					}
				}
			}()
		}
		wg.Wait()
		late.Range(func(_, v any) bool {
			s := v.(*fake.Session)
			if !t.Until(s.Client.Closed) {
				t.Fail("kept", "connection %d was kept although a read of it timed out", s.ID)
			}
			return true
		})
		t.Count("late_answers", lates.Load())
		t.Count("reads_observed", reads.Load())
		t.Distinct(cfg.String(), n, e.signature(), lates.Load())
		t.Sample("%s: %d late answers", t.getDesc(), lates.Load())
	})
	c.Run("idlevirtual", c.N(100, 2000), func(t *T) {
		// nothing is pending: a declared stall must find no read or write to expire
		r := t.R
		cfg := randCfg(r)
		rt, wt := farPair(r)
		t.Desc("%v %v %v idle under a declared stall", cfg, rt, wt)
		e := newEnv(t, cfg, EnvOpt{NoStart: true})
		e.start(opts(r, rt, wt)...)
		t.Cleanup(e.Close)
		for k := 0; k < 3; k++ {
			e.burst(2*cfg.Conns, 3, smallGen).Wait()
			for _, s := range e.Srv.Sessions() {
				s.M.StallPeerReads()
				s.M.StallPeerWrites()
			}
			if r.IntN(2) == 0 {
				time.Sleep(time.Duration(r.IntN(3000)) * time.Microsecond)
			} else {
				t.Settle(e.received)
			}
			for _, s := range e.Srv.Sessions() {
				s.M.ResumePeerReads()
				s.M.ResumePeerWrites()
			}
			if n := e.alive(); n != cfg.Conns || e.Srv.Dials() != int64(cfg.Conns) {
				t.Fail("idle-dropped", "an idle client lost connections: %d of %d alive after %d dials", n, cfg.Conns, e.Srv.Dials())
				return
			}
		}
		e.burst(2*cfg.Conns, 3, smallGen).Wait() // judged: no errors allowed
		if e.Srv.Dials() != int64(cfg.Conns) {
			t.Fail("idle-dropped", "%d dials for %d connections", e.Srv.Dials(), cfg.Conns)
		}
		t.Distinct(cfg.String(), e.signature())
	})
	c.Run("idlereal", c.N(16, 200), func(t *T) {
		// really idle for several timeouts
		r := t.R
		to := time.Duration(40+r.IntN(60)) * time.Millisecond
		t.Desc("timeouts %v, idle for a multiple", to)
		tries, good := 0, false
		var last string
		for tries < 20 && !good {
			tries++
			e := newEnv(t, Cfg{Conns: 2, Procs: 8}, EnvOpt{NoStart: true})
			e.Faulty = true
			e.start(memcache.WithNetConnOptions(netconn.WithReadTimeout(to), netconn.WithWriteTimeout(to)))
			ok := true
			for k := 0; k < 4; k++ {
				_, err := e.Cl.Pipeline().Version()()
				if err != nil {
					ok, last = false, err.Error()
				}
				t.Tick()
				time.Sleep(to*2 + to/2)
			}
			for k := 0; k < 2; k++ {
				if _, err := e.Cl.Pipeline().Version()(); err != nil {
					ok, last = false, err.Error()
				}
			}
			if n := e.Srv.Dials(); n != 2 {
				ok, last = false, fmt.Sprintf("%d dials", n)
			}
			good = ok
			e.Close()
		}
		if !good {
			t.Fail("idle-expired", "in %d of %d attempts operations failed after an idle period: %s", tries, tries, last)
		}
		t.Count("idle_attempts", int64(tries))
		t.Distinct(to)
	})
	c.Run("realstall", c.N(16, 200), func(t *T) {
		// a really silent server is given up after the configured time, not before and not never
		r := t.R
		to := time.Duration(50+r.IntN(150)) * time.Millisecond
		t.Desc("read timeout %v against a silent server", to)
		e := newEnv(t, Cfg{Conns: 1, Procs: 8}, EnvOpt{NoStart: true, Handler: func(s *fake.Session, c *fake.Cmd) fake.Reply { return fake.Reply{Drop: true} }})
		t.Cleanup(e.Close)
		e.Faulty = true
		e.start(memcache.WithNetConnOptions(netconn.WithReadTimeout(to), netconn.WithWriteTimeout(far)))
		t0 := time.Now()
		_, err := e.Cl.Pipeline().Version()()
		d := time.Since(t0)
		if !isTimeout(err) {
			t.Fail("error", "a silent server led to %v", err)
		}
		if d < to-time.Millisecond {
			t.Fail("early", "the operation was given up after %v, configured %v", d, to)
		}
		t.Distinct(to)
	})
	c.Run("stats", c.N(40, 400), func(t *T) {
		r := t.R
		rt, wt := farPair(r)
		var reads, writes atomic.Int64
		t.Desc("statistics client %v %v", rt, wt)
		statsDeadlines(t, rt, wt, &reads, &writes)
		t.Count("reads_observed", reads.Load())
		t.Count("writes_observed", writes.Load())
		t.Distinct(rt, wt, reads.Load())
	})
}
