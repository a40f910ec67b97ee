package main

import (
	"errors"
	"fmt"
	"math/rand/v2"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/QuangTung97/go-memcache/memcache"
	"github.com/QuangTung97/go-memcache/memcache/netconn"

	"verifharness/fake"
	"verifharness/memconn"
)

func init() {
	registry["C20"] = runC20
	registry["C21"] = runC21
	registry["C22"] = runC22
	aliases["C20"] = []string{"C01", "C03", "C04", "C05", "C19"}
	aliases["C21"] = []string{"C03"}
}

// --------------------------------------------------------------------------- C20

// liveSessions are those open at both ends.
func (e *Env) liveSessions() []*fake.Session {
	var l []*fake.Session
	for _, s := range e.Srv.Sessions() {
		if s.M != nil && !s.Client.Closed() && !s.M.Closed() {
			l = append(l, s)
		}
	}
	return l
}

// probed waits until every live connection received n more probes.
func (e *Env) probed(n int64, why string) bool {
	t := e.T
	l := e.liveSessions()
	base := make([]int64, len(l))
	for i, s := range l {
		base[i] = s.Received()
	}
	for i, s := range l {
		if !t.Until(func() bool { return s.Received() >= base[i]+n || s.Client.Closed() }) {
			t.Fail("not-probed", "%s: connection %d received %d probes while the client was idle, others %v", why, s.ID, s.Received()-base[i], e.receivedPer(l, base))
			return false
		}
	}
	t.Count("probes_awaited", n*int64(len(l)))
	return true
}

func (e *Env) receivedPer(l []*fake.Session, base []int64) []int64 {
	var out []int64
	for i, s := range l {
		out = append(out, s.Received()-base[i])
	}
	return out
}

// onlyProbes: everything received while no user operation ran is a probe.
func (e *Env) onlyProbes() {
	for _, s := range e.Srv.Sessions() {
		for _, c := range s.Cmds() {
			if c.Verb != "version" {
				e.T.Fail("not-a-probe", "an idle client sent %v", c)
				return
			}
		}
	}
}

func runC20(c *Ctx) {
	c.Rule("idle pools of 1..9 connections with health rounds of 0.3..3 ms: probes per connection are counted (evenness, rate, kind); idle connections are killed, stalled or answered wrongly, dials refused for a while: the pool must be whole again without traffic and the next operations free of errors; probes run against full random traffic judged by the result, order, exactly-once and wire oracles; distinct = distinct pool, fault history and arrival order")
	c.Run("even", c.N(120, 3000), func(t *T) {
		r := t.R
		cfg := randCfg(r)
		cfg.Conns = 1 + r.IntN(9)
		d := time.Duration(300+r.IntN(2700)) * time.Microsecond
		t.Desc("%v idle, rounds of %v", cfg, d)
		t0 := time.Now()
		e := newEnv(t, cfg, EnvOpt{NoStart: true})
		e.start(memcache.WithHealthCheckDuration(d))
		t.Cleanup(e.Close)
		ok := e.probed(int64(2+r.IntN(4)), "idle")
		_ = e.Cl.Close()
		el := time.Since(t0)
		e.Srv.Stop()
		if !ok {
			return
		}
		var lo, hi int64 = 1 << 60, 0
		for _, s := range e.Srv.Sessions() {
			lo, hi = min(lo, s.Received()), max(hi, s.Received())
		}
		if hi-lo > 1 {
			t.Fail("uneven", "probes per connection range from %d to %d", lo, hi)
		}
		if lim := int64(el/d) + 1; hi > lim {
			t.Fail("too-often", "%d probes of one connection in %v, one per round of %v allowed", hi, el, d)
		}
		e.onlyProbes()
		if n := e.Srv.Dials(); n != int64(cfg.Conns) {
			t.Fail("disturbed", "%d dials for %d idle connections", n, cfg.Conns)
		}
		t.Count("probes_received", e.received())
		t.Distinct(cfg.String(), d, lo, hi)
		t.Sample("%s: %d..%d probes per connection", t.getDesc(), lo, hi)
	})
	c.Run("repair", c.N(280, 8000), func(t *T) {
		r := t.R
		cfg := randCfg(r).tame(50_000)
		cfg.Conns = 1 + r.IntN(6)
		d := time.Duration(300+r.IntN(1500)) * time.Microsecond
		var mode atomic.Value
		mode.Store("")
		var refused, faults, victim atomic.Int64
		var e *Env
		e = newEnv(t, cfg, EnvOpt{NoStart: true,
			Handler: func(s *fake.Session, c *fake.Cmd) fake.Reply {
				rep := oracleHandler(s, c)
				m := mode.Load().(string)
				if m == "" {
					return rep
				}
				switch m {
				case "servererror":
					rep.Data = []byte("SERVER_ERROR busy\r\n")
				case "clienterror":
					rep.Data = []byte("CLIENT_ERROR no\r\n")
				case "error":
					rep.Data = []byte("ERROR\r\n")
				case "garbage":
					rep.Data = []byte("\x00\xff nonsense\r\n")
				case "short":
					rep.Data = []byte("VE")
					rep.Close = true
				case "closes":
					rep = fake.Reply{Close: true}
				case "resets":
					rep = fake.Reply{Reset: true}
				case "stalls":
					rep = fake.Reply{Stall: true}
				case "stallsone":
					if int64(s.ID) != victim.Load() {
						return rep
					}
					rep = fake.Reply{Stall: true}
				default:
					return rep
				}
				faults.Add(1)
				return rep
			},
			Tweak: func(o *fake.Options) {
				o.Dial = func(int) error {
					if mode.Load() == "refuse" {
						refused.Add(1)
						return fake.ErrRefused
					}
					return nil
				}
			}})
		e.Faulty, e.Probes = true, true
		e.start(memcache.WithHealthCheckDuration(d))
		t.Cleanup(e.Close)
		var hist []string
		for k := 0; k < 1+r.IntN(4) && !t.failed.Load(); k++ {
			m := pick(r, "kill", "kill", "resetconn", "stallconn", "refuse", "servererror", "clienterror", "error", "garbage", "short", "closes", "resets", "stalls", "stallsone")
			hist = append(hist, m)
			t.Desc("%v rounds of %v, %v", cfg, d, hist)
			if r.IntN(3) == 0 { // some traffic first
				e.burst(1+r.IntN(8), 3, smallGen).Wait()
			}
			l := e.liveSessions()
			victim.Store(-1)
			if len(l) > 0 {
				victim.Store(int64(l[r.IntN(len(l))].ID))
			}
			mode.Store(m)
			var hit []*fake.Session
			switch m {
			case "kill", "resetconn", "stallconn", "refuse":
				n := 1 + r.IntN(len(l)+1)
				for _, i := range r.Perm(len(l)) {
					if n--; n < 0 {
						break
					}
					hit = append(hit, l[i])
					switch m {
					case "kill", "refuse":
						_ = l[i].M.Close()
					case "resetconn":
						l[i].M.Reset()
					case "stallconn":
						l[i].Stall()
					}
				}
			}
			switch {
			case m == "refuse":
				n0, want := refused.Load(), int64(r.IntN(20))
				t.Until(func() bool { return refused.Load() >= n0+want })
			case len(hit) == 0:
				n0, want := faults.Load(), int64(1+r.IntN(3*cfg.Conns))
				if m == "stallsone" {
					want = 1
				}
				if !t.Until(func() bool { return faults.Load() >= n0+want }) {
					t.Fail("probes-stopped", "after %v only %d of %d probes arrived any more", hist, faults.Load()-n0, want)
					return
				}
			}
			mode.Store("")
			if !t.Until(func() bool {
				for _, s := range hit {
					if !s.Client.Closed() {
						return false
					}
				}
				return true
			}) {
				t.Fail("not-found", "after %v a connection that broke while idle is still in use", hist)
				return
			}
			// silent sessions are only found by their next probe
			for _, s := range e.liveSessions() {
				if (m == "stalls" || m == "stallsone") && r.IntN(2) == 0 {
					_ = s.M.Close()
				}
			}
			if !t.Until(func() bool { return e.alive() == cfg.Conns }) {
				t.Fail("not-repaired", "after %v only %d of %d connections are open and nothing replaces them while the client is idle", hist, e.alive(), cfg.Conns)
				return
			}
			// two complete rounds over whatever is open now: nothing broken is left
			for i := 0; i < 3; i++ {
				if !e.probed(2, fmt.Sprint("after ", hist)) {
					return
				}
			}
			if !t.Until(func() bool { return e.alive() == cfg.Conns }) {
				t.Fail("not-repaired", "after %v only %d of %d connections are open", hist, e.alive(), cfg.Conns)
				return
			}
			e.onlyProbesSince()
			if r.IntN(2) == 0 {
				e.cleanTraffic(fmt.Sprint("after ", hist))
			}
		}
		t.Count("faults_injected", faults.Load())
		t.Count("dials_refused", refused.Load())
		t.Count("connections", int64(len(e.Srv.Sessions())))
		t.Distinct(cfg.String(), fmt.Sprint(hist), e.Srv.Dials())
		t.Sample("%s: %d dials", t.getDesc(), e.Srv.Dials())
	})
	c.Run("oneslot", c.N(120, 3000), func(t *T) {
		// one slot cannot be connected for a long time: the others are probed all the same
		r := t.R
		cfg := randCfg(r).tame(50_000)
		cfg.Conns = 2 + r.IntN(5)
		d := time.Duration(300+r.IntN(1500)) * time.Microsecond
		bad := 1 + r.IntN(cfg.Conns-1)
		t.Desc("%v rounds of %v, %d slots cannot be connected", cfg, d, bad)
		var down atomic.Bool
		var refused atomic.Int64
		e := newEnv(t, cfg, EnvOpt{NoStart: true, Tweak: func(o *fake.Options) {
			o.Dial = func(int) error {
				if down.Load() {
					refused.Add(1)
					return fake.ErrRefused
				}
				return nil
			}
		}})
		e.Faulty, e.Probes = true, true
		e.start(memcache.WithHealthCheckDuration(d))
		t.Cleanup(e.Close)
		if r.IntN(2) == 0 {
			e.probed(1, "before")
		}
		down.Store(true)
		l := e.liveSessions()
		for i, j := range r.Perm(len(l)) {
			if i < bad {
				if r.IntN(2) == 0 {
					_ = l[j].M.Close()
				} else {
					l[j].M.Reset()
				}
			}
		}
		for k := 0; k < 2+r.IntN(3); k++ {
			if !e.probed(2, fmt.Sprintf("while %d slots cannot be connected", bad)) {
				return
			}
		}
		t.Count("dials_refused", refused.Load())
		down.Store(false)
		if !t.Until(func() bool { return e.alive() == cfg.Conns }) {
			t.Fail("not-repaired", "%d of %d connections are open and nothing replaces them while the client is idle", e.alive(), cfg.Conns)
			return
		}
		e.probed(2, "after the repair")
		t.Distinct(cfg.String(), d, bad, e.Srv.Dials())
		t.Sample("%s: %d dials refused", t.getDesc(), refused.Load())
	})
	c.Run("rate", c.N(16, 300), func(t *T) {
		// Slots that cannot be connected do not slow down the rounds of the others. The yardstick is
		// a goroutine that sleeps just like the health checker does, so a loaded machine slows both.
		r := t.R
		cfg := Cfg{Conns: pick(r, 2+r.IntN(13), 15+r.IntN(60)), Procs: pick(r, 2, 4), Perturb: 0}
		d := time.Duration(25+r.IntN(10)) * time.Millisecond
		good := 1 + r.IntN(min(2, cfg.Conns-1))
		how := pick(r, "refuse", "servererror", "garbage", "error", "none", "none")
		before := pick(r, 0, 0, 1, cfg.Conns, 1000*cfg.Conns) // operations before the client becomes idle
		t.Desc("%v rounds of %v, %d good slots, the others: %s, idle after %d operations", cfg, d, good, how, before)
		var down atomic.Bool
		var mu sync.Mutex
		spared := map[int]bool{}
		isSpared := func(id int) bool { mu.Lock(); defer mu.Unlock(); return spared[id] }
		e := newEnv(t, cfg, EnvOpt{NoStart: true,
			Handler: func(s *fake.Session, c *fake.Cmd) fake.Reply {
				if down.Load() && !isSpared(s.ID) {
					switch how {
					case "servererror":
						return fake.Reply{Data: []byte("SERVER_ERROR busy\r\n")}
					case "garbage":
						return fake.Reply{Data: []byte("\x00\xff nonsense\r\n")}
					case "error":
						return fake.Reply{Data: []byte("ERROR\r\n")}
					}
				}
				return oracleHandler(s, c)
			},
			Tweak: func(o *fake.Options) {
				o.Dial = func(int) error {
					if down.Load() && how == "refuse" {
						return fake.ErrRefused
					}
					return nil
				}
			}})
		e.Faulty, e.Probes = true, true
		e.start(memcache.WithHealthCheckDuration(d))
		t.Cleanup(e.Close)
		l := e.liveSessions()
		for i := 0; i < before; i++ {
			_, _ = e.Cl.Pipeline().Version()()
			t.Tick()
		}
		if before > 0 {
			// one round may see the operations, the next one may end early, then all are probed
			for i := 0; i < 3; i++ {
				time.Sleep(d)
			}
		}
		for i, j := range r.Perm(len(l)) {
			if i < good {
				mu.Lock()
				spared[l[j].ID] = true
				mu.Unlock()
			}
		}
		down.Store(true)
		for _, s := range l {
			if how == "refuse" && !isSpared(s.ID) {
				_ = s.M.Close()
			}
		}
		rounds := 20
		worst := ""
		for try := 0; try < 3; try++ { // a busy machine is forgiven, a slow client is slow every time
			worst = ""
			base := map[int]int64{}
			for _, s := range l {
				base[s.ID] = s.Received()
			}
			for i := 0; i < rounds; i++ {
				t.Tick()
				time.Sleep(d)
			}
			for _, s := range l {
				if !isSpared(s.ID) && how != "none" {
					continue
				}
				if n := s.Received() - base[s.ID]; n < int64(rounds)*11/20 {
					worst = fmt.Sprintf("connection %d got %d probes while the same pause passed %d times", s.ID, n, rounds)
				}
			}
			if worst == "" {
				break
			}
			t.Count("rates_measured_again", 1)
		}
		if worst != "" {
			t.Fail("too-seldom", "%s (%d of %d slots: %s)", worst, cfg.Conns-good, cfg.Conns, how)
			return
		}
		t.Count("rounds_measured", int64(rounds))
		t.Distinct(cfg.String(), d, good, how, before)
		t.Sample("%s", t.getDesc())
	})
	c.Run("traffic", c.N(240, 8000), func(t *T) {
		// probes against random traffic
		r := t.R
		cfg := randCfg(r).tame(100_000)
		g := randGen(r)
		g.MaxSize = min(g.MaxSize, 2000)
		d := time.Duration(pick(r, 50, 200, 1000)) * time.Microsecond
		t.Desc("%v traffic with probe rounds of %v", cfg, d)
		e := newEnv(t, cfg, EnvOpt{NoStart: true})
		e.Probes = true
		e.start(memcache.WithHealthCheckDuration(d))
		t.Cleanup(e.Close)
		ps := ProgSpec{Pipelines: 2 + r.IntN(6), MaxSessions: 3, Gen: g, Len: lenAround(min(cfg.MaxBatch, 40)), Release: true}
		for k := 0; k < 2; k++ {
			e.parallel(1+r.IntN(8), func(_ int, r *rand.Rand) { e.runProgram(r, ps) })
			if r.IntN(2) == 0 && !e.probed(2, "after traffic") {
				return
			}
		}
		e.Close()
		e.audit()
		n := int64(0)
		for _, s := range e.Srv.Sessions() {
			for _, c := range s.Cmds() {
				if c.Verb == "version" {
					n++
				}
			}
		}
		t.Count("probes_among_traffic", n)
		if d := e.Srv.Dials(); d != int64(cfg.Conns) {
			t.Fail("disturbed", "%d dials for %d connections although nothing failed", d, cfg.Conns)
		}
		t.Distinct(cfg.String(), e.signature())
		t.Sample("%s", t.getDesc())
	})
	c.Run("blockedprobe", c.N(80, 2000), func(t *T) {
		// the answer of one connection's probe is withheld: other connections keep working
		r := t.R
		cfg := Cfg{Conns: 2 + r.IntN(4), Limit: 500, MaxBatch: 100, Procs: pick(r, 1, 2, 4), Perturb: pick(r, uint32(0), 20)}
		t.Desc("%v probe of connection 0 withheld", cfg)
		g := newQuotaGate()
		var atGate atomic.Int64
		e := newEnv(t, cfg, EnvOpt{NoStart: true, Handler: func(s *fake.Session, c *fake.Cmd) fake.Reply {
			if s.ID == 0 {
				atGate.Add(1)
				g.wait()
			}
			return oracleHandler(s, c)
		}})
		e.Probes = true
		e.start(memcache.WithHealthCheckDuration(time.Millisecond))
		t.Cleanup(func() { g.set(true); e.Close() })
		if !t.Until(func() bool { return atGate.Load() > 0 }) {
			t.Fail("not-probed", "connection 0 of an idle client was never probed")
			return
		}
		var done atomic.Int64
		n := 4 * cfg.Conns
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			pl := e.Cl.Pipeline()
			wg.Add(1)
			go func() {
				defer wg.Done()
				o := e.genOp(rand.New(rand.NewPCG(uint64(i), 1)), smallGen, int(e.pipes.Add(1)), 0)
				e.issue(pl, o, smallGen, r)
				e.get(o)
				done.Add(1)
			}()
		}
		if want := int64(n - n/cfg.Conns - 1); !t.Until(func() bool { return done.Load() >= want-1 }) {
			t.Fail("disturbed", "only %d of %d operations on other connections completed while a probe waits", done.Load(), want)
		}
		g.set(true)
		wg.Wait()
		e.probed(2, "after the withheld answer")
		t.Distinct(cfg.String(), e.signature())
	})
}

// onlyProbesSince is relaxed: traffic precedes phases here, so only foreign commands count.
func (e *Env) onlyProbesSince() {
	for _, m := range e.Srv.ProtoErrs() {
		e.T.FailP("C05", "malformed-request", "%s", m)
	}
}

// --------------------------------------------------------------------------- C21

// usedConn runs one single-command flush and says which connection it arrived on.
func (e *Env) usedConn(pl *memcache.Pipeline) (conn int, err error) {
	fn := pl.Version()
	switch e.draw(4) { // flushed in every way
	case 0:
		pl.Finish()
	case 1:
		pl.Execute()
		pl.Finish()
	case 2:
		pl.Execute()
	}
	r, err := fn()
	if err != nil {
		return 0, err
	}
	var pos int
	if _, serr := fmt.Sscanf(r.Version, "v%d.%d", &conn, &pos); serr != nil {
		e.T.FailP("C01", "wrong-result", "version %q", r.Version)
	}
	return conn, nil
}

func runC21(c *Ctx) {
	c.Rule("pools of 1..9 connections (and non-positive sizes); pipelines created and used one after another, by many goroutines at once, with one or many flushes, and across replaced connections; the connection each flush arrived on is recorded; distinct = distinct pool size, program and distribution")
	c.Run("size", c.N(80, 1000), func(t *T) {
		r := t.R
		n := pick(r, 0, -1, -7, -1<<31, 1, 2, 3, 5, 9, 16, 64)
		t.Desc("pool of %d", n)
		var calls atomic.Int64
		srv := fake.New(fake.Options{Handler: oracleHandler})
		cl, err := memcache.New("fake:1", n, memcache.WithDialFunc(func(a, b string, d time.Duration) (net.Conn, error) {
			calls.Add(1)
			return srv.Dial(a, b, d)
		}), memcache.WithHealthCheckDuration(time.Hour))
		t.Cleanup(srv.Stop)
		if n <= 0 {
			if err == nil {
				_ = cl.Close()
				t.Fail("size", "a pool of %d connections was not refused", n)
			}
			if calls.Load() != 0 {
				t.Fail("size", "%d dials for a pool of %d", calls.Load(), n)
			}
			t.Distinct(n)
			return
		}
		if err != nil {
			t.Fail("size", "a pool of %d was refused: %v", n, err)
			return
		}
		for i := 0; i < 2*n+3; i++ {
			if _, err := cl.Pipeline().Version()(); err != nil {
				t.Fail("size", "operation on a pool of %d: %v", n, err)
				break
			}
			t.Tick()
		}
		if calls.Load() != int64(n) || srv.Open() != n {
			t.Fail("size", "%d dials, %d open connections for a pool of %d", calls.Load(), srv.Open(), n)
		}
		_ = cl.Close()
		if calls.Load() != int64(n) || srv.Open() != 0 {
			t.Fail("size", "after Close %d dials, %d open connections", calls.Load(), srv.Open())
		}
		t.Distinct(n)
	})
	c.Run("rotation", c.N(240, 5000), func(t *T) {
		r := t.R
		cfg := randCfg(r).tame(50_000)
		cfg.Conns = 1 + r.IntN(9)
		m := cfg.Conns
		t.Desc("%v one after another", cfg)
		e := newEnv(t, cfg, EnvOpt{})
		t.Cleanup(e.Close)
		var seq []int
		for i := 0; i < m*(2+r.IntN(8))+r.IntN(m+1); i++ {
			pl := e.Cl.Pipeline()
			switch r.IntN(8) {
			case 0: // an invalid key sends nothing and does not end the pipeline
				_, _ = pl.MGet("bad key", memcache.MGetOptions{})()
			case 1:
				pl.Execute()
				pl.Finish()
			}
			var first int
			for k := 0; k < 1+r.IntN(3); k++ {
				if r.IntN(2) == 0 {
					fn := pl.MSet(fmt.Sprintf("x%d", r.IntN(100)), make([]byte, r.IntN(50)), memcache.MSetOptions{})
					if r.IntN(2) == 0 {
						pl.Execute()
					}
					_, _ = fn()
				}
				c, err := e.usedConn(pl)
				t.Tick()
				if err != nil {
					t.Fail("error", "%v", err)
					return
				}
				if k == 0 {
					first = c
				} else if c != first {
					t.Fail("affinity", "flush %d of a pipeline travelled over connection %d, the first over %d", k, c, first)
					return
				}
			}
			seq = append(seq, first)
		}
		for i := range seq {
			if i >= m && seq[i] != seq[i-m] {
				t.Fail("rotation", "pipelines one after another used connections %v of a pool of %d", seq, m)
				return
			}
			for j := max(0, i-m+1); j < i; j++ {
				if seq[j] == seq[i] {
					t.Fail("rotation", "pipelines one after another used connections %v of a pool of %d", seq, m)
					return
				}
			}
		}
		t.Count("pipelines", int64(len(seq)))
		t.Distinct(m, len(seq), cfg.String())
		t.Sample("%s: %v", t.getDesc(), seq)
	})
	c.Run("spread", c.N(320, 8000), func(t *T) {
		// concurrent pipelines: floor or ceiling for every run
		r := t.R
		cfg := randCfg(r).tame(50_000)
		cfg.Conns = 1 + r.IntN(9)
		cfg.Procs = pick(r, 2, 4, 8)
		m := cfg.Conns
		e := newEnv(t, cfg, EnvOpt{})
		t.Cleanup(e.Close)
		runs := 1 + r.IntN(4)
		t.Desc("%v %d concurrent runs", cfg, runs)
		for k := 0; k < runs; k++ {
			gs := 1 + r.IntN(16)
			per := make([]int, gs)
			total := 0
			for i := range per {
				per[i] = 1 + r.IntN(30)
				total += per[i]
			}
			used := make([]atomic.Int64, m)
			var bad atomic.Int64
			e.parallel(gs, func(g int, r *rand.Rand) {
				// pipelines of one goroutine may be alive together
				var ps []*memcache.Pipeline
				var at []int
				for i := 0; i < per[g]; i++ {
					pl := e.Cl.Pipeline()
					c, err := e.usedConn(pl)
					t.Tick()
					if err != nil {
						t.Fail("error", "%v", err)
						return
					}
					used[c].Add(1)
					ps, at = append(ps, pl), append(at, c)
					if r.IntN(3) == 0 {
						j := r.IntN(len(ps))
						if c, err := e.usedConn(ps[j]); err == nil && c != at[j] {
							bad.Add(1)
						}
					}
				}
			})
			if t.failed.Load() {
				return
			}
			if bad.Load() > 0 {
				t.Fail("affinity", "%d later flushes travelled over another connection than their pipeline's first", bad.Load())
				return
			}
			for i := range used {
				if n := int(used[i].Load()); n < total/m || n > (total+m-1)/m {
					t.Fail("spread", "run %d of %d pipelines by %d goroutines: connection %d of %d was used %d times", k, total, gs, i, m, n)
					return
				}
			}
			t.Count("pipelines", int64(total))
			t.Distinct(m, total, gs, cfg.String(), k)
		}
		t.Sample("%s", t.getDesc())
	})
	c.Run("traffic", c.N(120, 3000), func(t *T) {
		// whole pipelines with several flushes: order monitor also compares connections
		mixedTraffic(t)
	})
	c.Run("replaced", c.N(160, 4000), func(t *T) {
		// a pipeline stays with its slot when the slot's connection is replaced
		r := t.R
		cfg := randCfg(r).tame(50_000)
		cfg.Conns = 2 + r.IntN(5)
		m := cfg.Conns
		t.Desc("%v replaced connections", cfg)
		e := newEnv(t, cfg, EnvOpt{})
		e.Faulty = true
		t.Cleanup(e.Close)
		pls := make([]*memcache.Pipeline, 2*m)
		at := make([]int, 2*m)
		for i := range pls {
			pls[i] = e.Cl.Pipeline()
			c, err := e.usedConn(pls[i])
			if err != nil {
				t.Fail("error", "%v", err)
				return
			}
			at[i] = c
		}
		for k := 0; k < 1+r.IntN(5); k++ {
			v := r.IntN(2 * m)
			old := at[v]
			s := e.Srv.Sessions()[old]
			if r.IntN(2) == 0 {
				s.M.Reset()
			} else {
				_ = s.M.Close()
			}
			next := -1
			if !t.Until(func() bool {
				c, err := e.usedConn(pls[v])
				next = c
				return err == nil
			}) {
				t.Fail("not-recovered", "a pipeline whose connection was replaced never works again")
				return
			}
			if next != len(e.Srv.Sessions())-1 || next == old {
				t.Fail("affinity", "a pipeline of broken connection %d went on over connection %d, its replacement is %d", old, next, len(e.Srv.Sessions())-1)
				return
			}
			for i := range at {
				if at[i] == old {
					at[i] = next
				}
			}
			for i := range pls {
				c, err := e.usedConn(pls[i])
				t.Tick()
				if err != nil {
					t.Fail("error", "%v", err)
					return
				}
				if c != at[i] {
					t.Fail("affinity", "a pipeline moved from connection %d to %d", at[i], c)
					return
				}
			}
			t.Count("replaced", 1)
		}
		t.Distinct(cfg.String(), e.signature())
	})
}

// --------------------------------------------------------------------------- C22

type authMode struct {
	name   string
	data   []byte
	close  bool
	reset  bool
	stall  bool
	mutate bool // the acceptance with one byte changed
}

func (m *authMode) reply(r uint64) []byte {
	if !m.mutate {
		return m.data
	}
	b := []byte("STORED\r\n")
	b[r%8] ^= byte(1 << (r / 8 % 8))
	return b
}

var authModes = []authMode{
	{name: "refuse", data: []byte("CLIENT_ERROR authentication failure\r\n")},
	{name: "refuseclose", data: []byte("CLIENT_ERROR authentication failure\r\n"), close: true},
	{name: "unauth", data: []byte("CLIENT_ERROR unauthenticated\r\n"), close: true},
	{name: "error", data: []byte("ERROR\r\n"), stall: true},
	{name: "errorclose", data: []byte("ERROR\r\n"), close: true},
	{name: "servererror", data: []byte("SERVER_ERROR out of memory\r\n")},
	{name: "notstored", data: []byte("NOT_STORED\r\n")},
	{name: "lower", data: []byte("stored\r\n")},
	{name: "storedx", data: []byte("STOREDX\r\n")},
	{name: "storedlf", data: []byte("STORED\n\n")},
	{name: "storedspace", data: []byte("STORED \r\n")},
	{name: "leading", data: []byte("\r\nSTORED\r\n")},
	{name: "hd", data: []byte("HD\r\nHD\r\n")},
	{name: "almost", data: []byte("STORED\rX")},
	{name: "ok", data: []byte("OK\r\nOK\r\n")},
	{name: "okstored", data: []byte("OK\r\nSTORED\r\n")},
	{name: "deleted", data: []byte("DELETED\r\n")},
	{name: "value", data: []byte("VALUE x 0 8\r\nSTORED\r\n\r\nEND\r\n")},
	{name: "version", data: []byte("VERSION 1.6.21\r\n")},
	{name: "oneoff", mutate: true},
	{name: "exists", data: []byte("EXISTS\r\n")},
	{name: "zeros", data: make([]byte, 8)},
	{name: "empty", close: true},
	{name: "reset", reset: true},
	{name: "silent", stall: true},
	{name: "partialstall", data: []byte("STOR"), stall: true},
	{name: "partialstall7", data: []byte("STORED\r"), stall: true},
	{name: "partialclose", data: []byte("STORED\r"), close: true},
	{name: "partialreset", data: []byte("ST"), reset: true},
}

func randCred(r *rand.Rand) string {
	switch r.IntN(7) {
	case 0:
		return ""
	case 1:
		return "user"
	case 2:
		return fmt.Sprintf("p%d", r.Uint64())
	case 3:
		b := make([]byte, r.IntN(40))
		for i := range b {
			b[i] = byte(r.IntN(256))
		}
		return string(b)
	case 4:
		return "пароль日本"
	case 5:
		return "with space\r\nand line"
	}
	b := make([]byte, 1+r.IntN(600))
	for i := range b {
		b[i] = padChars[r.IntN(len(padChars))]
	}
	return string(b)
}

// authMonitor judges every session of a client with authentication.
func (e *Env) authMonitor(user, pass string, accepted func(id int) bool) {
	t := e.T
	want := user + " " + pass
	wire := int64(len(fmt.Sprintf("set memcached_auth 0 0 %d\r\n%s\r\n", len(want), want)))
	for _, m := range e.Srv.ProtoErrs() {
		t.Fail("malformed", "%s", m)
	}
	for _, s := range e.Srv.Sessions() {
		cs := s.Cmds()
		for i, c := range cs {
			if i == 0 {
				if c.Verb != "auth" {
					t.Fail("unauthenticated", "connection %d began with %v", s.ID, c)
					return
				}
				if string(c.Data) != want {
					t.Fail("credentials", "connection %d authenticated with %q, configured %q", s.ID, c.Data, want)
					return
				}
				continue
			}
			if c.Verb == "auth" {
				t.Fail("twice", "connection %d authenticated twice", s.ID)
				return
			}
			if !accepted(s.ID) {
				t.Fail("unauthenticated", "connection %d was not accepted, yet %v was sent on it", s.ID, c)
				return
			}
			if rs := cs[0].ReplySeq.Load(); rs == 0 || c.Seq < rs {
				t.Fail("unauthenticated", "%v was sent on connection %d before the server accepted the credentials", c, s.ID)
				return
			}
		}
		if s.M != nil && !accepted(s.ID) {
			if n := s.Client.BytesOut(); n > wire {
				t.Fail("unauthenticated", "%d bytes were sent on connection %d, which was not accepted; authentication takes %d", n, s.ID, wire)
				return
			}
			if !t.Until(s.Client.Closed) {
				t.Fail("socket", "the socket of failed authentication %d was not closed", s.ID)
				return
			}
		}
		t.Count("authentications", 1)
	}
}

func authCase(t *T) {
	r := t.R
	cfg := randCfg(r).tame(30_000)
	cfg.Conns = pick(r, 1, 1, 2, 3)
	user, pass := randCred(r), randCred(r)
	// the fate of each connection in turn; accepted from some point on
	var fates []*authMode
	nbad := r.IntN(12)
	for i := 0; i < nbad; i++ {
		if r.IntN(4) == 0 {
			fates = append(fates, nil)
		} else {
			fates = append(fates, &authModes[r.IntN(len(authModes))])
		}
	}
	failWrite := map[int]int64{}
	for i := 0; i < nbad; i++ {
		if r.IntN(6) == 0 {
			failWrite[i] = int64(r.IntN(len(user) + len(pass) + 30))
		}
	}
	var names []string
	for i, f := range fates {
		switch {
		case failWrite[i] > 0:
			names = append(names, fmt.Sprintf("writefails@%d", failWrite[i]))
		case f == nil:
			names = append(names, "ok")
		default:
			names = append(names, f.name)
		}
	}
	fate := func(id int) *authMode {
		if id < len(fates) {
			return fates[id]
		}
		return nil
	}
	accepted := func(id int) bool {
		_, fw := failWrite[id]
		return fate(id) == nil && !fw
	}
	t.Desc("%v auth %q/%q fates %v", cfg, user, pass, names)
	e := newEnv(t, cfg, EnvOpt{NoStart: true,
		Handler: func(s *fake.Session, c *fake.Cmd) fake.Reply {
			if c.Verb != "auth" {
				return oracleHandler(s, c)
			}
			m := fate(s.ID)
			if m == nil {
				return fake.Reply{Data: []byte("STORED\r\n")}
			}
			return fake.Reply{Data: m.reply(uint64(s.ID*7) + t.Seed), Close: m.close, Reset: m.reset, Stall: m.stall || (!m.close && !m.reset)}
		},
		Tweak: func(o *fake.Options) {
			o.OnProtoErr = func(s *fake.Session, err error) {
				if accepted(s.ID) {
					t.Fail("malformed", "connection %d: %v", s.ID, err)
				}
			}
			o.OnConn = func(s *fake.Session) {
				if k, ok := failWrite[s.ID]; ok {
					s.Client.FailWritesAfter(k, syscall.EPIPE)
				}
			}
		}})
	e.Faulty = true
	auth, err := netconn.NewPasswordAuth(user, pass)
	if err != nil {
		t.Fail("refused", "NewPasswordAuth: %v", err)
		return
	}
	inner := e.Srv.Dial
	dial := auth.GetDialFunc(inner)
	var mu sync.Mutex
	var leaked []string
	outer := func(network, addr string, to time.Duration) (net.Conn, error) {
		c, err := dial(network, addr, to)
		mu.Lock()
		defer mu.Unlock()
		if err != nil && c != nil {
			leaked = append(leaked, fmt.Sprintf("a connection was returned together with error %v", err))
		}
		if err == nil {
			if mc, ok := c.(*memconn.Conn); ok && !accepted(mc.ID) {
				leaked = append(leaked, fmt.Sprintf("connection %d was handed out although the server did not accept it", mc.ID))
			}
		}
		return c, err
	}
	e.start(memcache.WithDialFunc(outer))
	t.Cleanup(e.Close)
	if r.IntN(2) == 0 {
		e.burst(1+r.IntN(10), 3, smallGen).Wait()
	}
	for k := 0; k < 1+r.IntN(3); k++ {
		if !e.healthy(cfg.Conns, "once authentication succeeds") {
			return
		}
		e.cleanTraffic("authenticated")
		e.Srv.KillAll(r.IntN(2) == 0)
	}
	e.authMonitor(user, pass, accepted)
	mu.Lock()
	if len(leaked) > 0 {
		t.Fail("handed-out", "%s", leaked[0])
	}
	mu.Unlock()
	t.Distinct(cfg.String(), user, pass, fmt.Sprint(names))
	t.Sample("%s: %d connections", t.getDesc(), len(e.Srv.Sessions()))
}

// authSplit: an accepting reply that arrives in pieces is still an acceptance.
func authSplit(t *T) {
	r := t.R
	auth, _ := netconn.NewPasswordAuth("u", "p")
	mask := t.Idx % 128 // every way of cutting the 8 bytes
	tcp := r.IntN(4) == 0
	t.Desc("reply cut by mask %07b tcp=%v", mask, tcp)
	e := newEnv(t, Cfg{Conns: 1, Procs: pick(r, 1, 4), TCP: tcp}, EnvOpt{NoStart: true, Tweak: func(o *fake.Options) {
		o.RawServe = func(s *fake.Session) {
			buf := make([]byte, 0, 100)
			tmp := make([]byte, 100)
			want := "set memcached_auth 0 0 3\r\nu p\r\n"
			for len(buf) < len(want) {
				n, err := s.C.Read(tmp)
				if err != nil {
					return
				}
				buf = append(buf, tmp[:n]...)
			}
			if string(buf) != want {
				t.Fail("malformed", "authentication request %q", buf)
				return
			}
			rep := "STORED\r\n"
			from := 0
			for i := 1; i <= len(rep); i++ {
				if i == len(rep) || mask&(1<<(i-1)) != 0 {
					if _, err := s.C.Write([]byte(rep[from:i])); err != nil {
						return
					}
					from = i
					time.Sleep(time.Duration(rand.IntN(300)) * time.Microsecond)
				}
			}
			for i := 0; ; i++ {
				n, err := s.C.Read(tmp)
				if err != nil || n == 0 {
					return
				}
				if _, err := s.C.Write([]byte("VERSION 1\r\n")); err != nil {
					return
				}
			}
		}
	}})
	if tcp {
		addr, err := e.Srv.ListenTCP()
		if err != nil {
			t.Inconclusive("%v", err)
			return
		}
		cl, err := memcache.New(addr, 1, memcache.WithDialFunc(auth.GetDialFunc(net.DialTimeout)), memcache.WithRetryDuration(time.Millisecond), memcache.WithDialErrorLogger(func(error) { e.DialErrs.Add(1) }))
		if err != nil {
			t.Fail("refused", "%v", err)
			return
		}
		e.Cl = cl
	} else {
		e.start(memcache.WithDialFunc(auth.GetDialFunc(e.Srv.Dial)))
	}
	t.Cleanup(e.Close)
	if v, err := e.Cl.Pipeline().Version()(); err != nil || v.Version != "1" {
		t.Fail("split", "after an acceptance in pieces version returned %q, %v (%d dial errors)", v.Version, err, e.DialErrs.Load())
	}
	t.Distinct(mask, tcp)
}

// authDirect: the dial function itself, under real and virtual stalls.
func authDirect(t *T) {
	r := t.R
	auth, _ := netconn.NewPasswordAuth("user", "pass")
	m := authModes[t.Idx%len(authModes)]
	dir := pick(r, "read", "read", "write")
	to := pick(r, 10*time.Second, time.Minute, 30*time.Millisecond)
	t.Desc("%s dial timeout %v stalled in %s", m.name, to, dir)
	c2s := 1 << 16
	if dir == "write" {
		c2s = 3
	}
	srv := fake.New(fake.Options{C2S: c2s, ReadPause: func(s *fake.Session) {
		if dir == "write" {
			<-s.Client.Done()
		}
	}, Handler: func(s *fake.Session, c *fake.Cmd) fake.Reply {
		return fake.Reply{Data: m.reply(uint64(t.Idx / len(authModes))), Close: m.close, Reset: m.reset, Stall: m.stall || (!m.close && !m.reset)}
	}})
	t.Cleanup(srv.Stop)
	var sess *fake.Session
	var args string
	virtual := to > time.Second
	d := auth.GetDialFunc(func(network, addr string, tmo time.Duration) (net.Conn, error) {
		args = fmt.Sprint(network, " ", addr, " ", tmo)
		c, err := srv.Dial(network, addr, tmo)
		sess = srv.Sessions()[0]
		if virtual && dir == "write" {
			sess.M.StallPeerWrites()
		}
		return c, err
	})
	t0 := time.Now()
	c, err := d("tcp", "host:11211", to) // a hang here is found by the watchdog
	el := time.Since(t0)
	t.Tick()
	if err == nil {
		t.Fail("accepted", "authentication succeeded although the server replied %q", m.data)
		return
	}
	if c != nil && fmt.Sprint(c) != "<nil>" {
		t.Fail("handed-out", "a connection was returned together with %v", err)
	}
	if args != fmt.Sprint("tcp", " ", "host:11211", " ", to) {
		t.Fail("arguments", "the dial function was called with %q", args)
	}
	if !t.Until(sess.Client.Closed) {
		t.Fail("socket", "the socket was not closed after %v", err)
	}
	if !virtual && el > to+30*time.Second {
		t.Fail("late", "the attempt took %v with a dial timeout of %v", el, to)
	}
	if !virtual && (m.name == "silent" || dir == "write") {
		var ne net.Error
		if !(errors.As(err, &ne) && ne.Timeout()) && !errors.Is(err, os.ErrDeadlineExceeded) {
			t.Fail("error", "a silent server led to %v", err)
		}
	}
	// a failing dial passes through
	boom := errors.New("boom")
	if _, err := auth.GetDialFunc(func(string, string, time.Duration) (net.Conn, error) { return nil, boom })("tcp", "x", to); !errors.Is(err, boom) {
		t.Fail("error", "a failed dial led to %v", err)
	}
	t.Distinct(m.name, dir, to)
}

// authIdle: the deadline of the authentication does not outlive it.
func authIdle(t *T) {
	r := t.R
	to := time.Duration(60+r.IntN(100)) * time.Millisecond
	t.Desc("dial timeout %v, idle for longer, then used", to)
	auth, _ := netconn.NewPasswordAuth("user", "pass")
	e := newEnv(t, Cfg{Conns: 1, Procs: 4}, EnvOpt{NoStart: true, Handler: func(s *fake.Session, c *fake.Cmd) fake.Reply {
		if c.Verb == "auth" {
			return fake.Reply{Data: []byte("STORED\r\n")}
		}
		return oracleHandler(s, c)
	}})
	t.Cleanup(e.Close)
	ad := auth.GetDialFunc(e.Srv.Dial)
	var shortest atomic.Int64
	e.start(memcache.WithDialFunc(func(n, a string, _ time.Duration) (net.Conn, error) {
		c, err := ad(n, a, to)
		shortest.Add(1)
		return c, err
	}))
	if e.DialErrs.Load() > 0 {
		t.Inconclusive("the handshake did not make it in %v", to)
		return
	}
	time.Sleep(2 * to)
	for k := 0; k < 3; k++ {
		if _, err := e.Cl.Pipeline().Version()(); err != nil {
			t.Fail("deadline-left", "%v after authentication with a dial timeout of %v an operation failed: %v", 2*to, to, err)
			return
		}
		time.Sleep(to / 2)
	}
	t.Distinct(to)
}

func runC22(c *Ctx) {
	c.Rule("clients with random credentials (empty, binary, long) against servers whose connections in turn accept, refuse in 30 ways, break off, stall or fail mid-write; every session's bytes are judged; all 128 ways of cutting the acceptance; the dial function directly under stalls in both directions; distinct = distinct configuration, credentials and fates")
	c.Run("fates", c.N(320, 10000), authCase)
	c.Run("split", 128*c.N(2, 10), authSplit)
	c.Run("direct", len(authModes)*c.N(8, 100), authDirect)
	c.Run("idle", c.N(16, 100), authIdle)
}
