package main

import (
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"os"
	"strings"
	"sync/atomic"
	"syscall"

	"github.com/QuangTung97/go-memcache/memcache"

	"verifharness/fake"
)

func init() {
	registry["C01"] = runC01
	registry["C03"] = runC03
	registry["C04"] = runC04
	registry["C05"] = runC05
	registry["C19"] = runC19
	aliases["C07"] = []string{"C01"}
	aliases["C12"] = []string{"C01"}
}

// traffic runs a random concurrent program against the key oracle and audits it.
func traffic(t *T, cfg Cfg, goroutines int, ps ProgSpec, o EnvOpt) *Env {
	t.Desc("%v goroutines=%d pipelines=%d sessions<=%d gen=%+v", cfg, goroutines, ps.Pipelines, ps.MaxSessions, ps.Gen)
	e := newEnv(t, cfg, o)
	e.parallel(goroutines, func(_ int, r *rand.Rand) { e.runProgram(r, ps) })
	e.Close()
	e.audit()
	t.Distinct(e.signature())
	t.Count("pipelines", e.pipes.Load())
	t.Sample("%s; server saw %d commands on %d connections", t.getDesc(), e.nextID.Load(), len(e.Srv.Sessions()))
	return e
}

const trafficRule = "each case draws a client configuration (connections, buffer sizes, write limit, batch size, fragmentation, GOMAXPROCS, perturbation rate) and a program of concurrent pipelines with unique keys that encode the expected reply; distinct = distinct order of arrival of commands at the server (hash over all connections)"

func randGen(r *rand.Rand) GenSpec {
	g := defaultGen
	g.MaxSize = pick(r, 100, 500, 2000, 2000, 20000)
	if r.IntN(4) == 0 {
		g.KindWts = [7]int{1, 0, 1, 0, 0, 0, 0}
	}
	if r.IntN(5) == 0 {
		g.KindWts = [7]int{3, 3, 3, 3, 3, 1, 1}
	}
	if r.IntN(4) == 0 {
		g.ErrPct = 40
	}
	g.LongKeys = r.IntN(2) == 0
	return g
}

// mixedTraffic is the general workload used by several checks.
func mixedTraffic(t *T) *Env {
	r := t.R
	cfg := randCfg(r)
	g := randGen(r)
	ps := ProgSpec{Pipelines: 1 + r.IntN(5), MaxSessions: 1 + r.IntN(3), Gen: g, Len: lenAround(min(cfg.MaxBatch, 40)), Release: r.IntN(3) > 0}
	n := 1 + r.IntN(10)
	cfg = cfg.tame(n * ps.Pipelines * 20 * g.MaxSize / 4)
	return traffic(t, cfg, n, ps, EnvOpt{})
}

// denseTraffic: many short pipelines share few connections.
func denseTraffic(t *T) *Env {
	r := t.R
	cfg := randCfg(r)
	cfg.Conns = pick(r, 1, 1, 2)
	g := randGen(r)
	g.MaxSize = pick(r, 10, 100, 1000)
	cfg = cfg.tame(100_000)
	ps := ProgSpec{Pipelines: 20 + r.IntN(40), MaxSessions: 1, Gen: g, Len: func(r *rand.Rand) int { return 1 + r.IntN(3) }, Release: true, NoMid: r.IntN(2) == 0}
	return traffic(t, cfg, 4+r.IntN(28), ps, EnvOpt{})
}

// longTraffic: pipelines of many batches.
func longTraffic(t *T) *Env {
	r := t.R
	cfg := randCfg(r)
	g := randGen(r)
	g.MaxSize = pick(r, 10, 100, 300)
	cfg = cfg.tame(100_000)
	m := cfg.MaxBatch
	ps := ProgSpec{Pipelines: 1 + r.IntN(2), MaxSessions: 1 + r.IntN(2), Gen: g, Release: true,
		Len: func(r *rand.Rand) int {
			switch r.IntN(4) {
			case 0:
				return m*(1+r.IntN(6)) + r.IntN(3) - 1 + 1
			case 1:
				return 300 + r.IntN(900)
			case 2:
				return 1 + r.IntN(5)
			}
			return 1 + r.IntN(3*m)
		}}
	return traffic(t, cfg, 1+r.IntN(5), ps, EnvOpt{})
}

// wideTraffic: batches of thousands of commands, their request text far beyond 64 KiB.
func wideTraffic(t *T) *Env {
	r := t.R
	cfg := randCfg(r).tame(1 << 20)
	cfg.MaxBatch = pick(r, 300, 1000, 3000, 10000)
	cfg.Limit = pick(r, 100, 500, 5000, 20000)
	cfg.Conns = pick(r, 1, 2)
	g := GenSpec{MaxSize: pick(r, 5, 30, 200), ErrPct: 3, MissPct: 20, KindWts: [7]int{3, 2, 4, 2, pick(r, 0, 1), 0, 0}, Mutate: true, FullKeys: r.IntN(4) > 0}
	ps := ProgSpec{Pipelines: 1, MaxSessions: 1, Gen: g, Release: true,
		Len: func(r *rand.Rand) int { return 200 + r.IntN(pick(r, 300, 1000, 3000)) }}
	return traffic(t, cfg, 1+r.IntN(4), ps, EnvOpt{})
}

func tcpTraffic(t *T) *Env {
	r := t.R
	cfg := randCfg(r)
	cfg.TCP = true
	cfg.ReadMax = 0
	cfg.C2S, cfg.S2C = 256<<10, 256<<10
	g := randGen(r)
	cfg = cfg.tame(100_000)
	ps := ProgSpec{Pipelines: 4 + r.IntN(8), MaxSessions: 3, Gen: g, Len: lenAround(min(cfg.MaxBatch, 60)), Release: true}
	return traffic(t, cfg, 2+r.IntN(10), ps, EnvOpt{})
}

func runC01(c *Ctx) {
	c.Rule(trafficRule)
	c.Run("mixed", c.N(400, 20000), func(t *T) { mixedTraffic(t) })
	c.Run("dense", c.N(160, 6000), func(t *T) { denseTraffic(t) })
	c.Run("long", c.N(120, 6000), func(t *T) { longTraffic(t) })
	c.Run("wide", c.N(32, 1000), func(t *T) { wideTraffic(t) })
	c.Run("tcp", c.N(64, 1500), func(t *T) { tcpTraffic(t) })
}

func runC03(c *Ctx) {
	c.Rule(trafficRule + "; the arrival order of every pipeline's commands is compared with its issue order")
	c.Run("mixed", c.N(300, 15000), func(t *T) {
		r := t.R
		cfg := randCfg(r)
		g := randGen(r)
		g.MaxSize = pick(r, 0, 10, 300)
		ps := ProgSpec{Pipelines: 1 + r.IntN(4), MaxSessions: 1 + r.IntN(6), Gen: g, Len: lenAround(min(cfg.MaxBatch, 40)), Release: true}
		traffic(t, cfg.tame(100_000), 1+r.IntN(12), ps, EnvOpt{})
	})
	c.Run("long", c.N(160, 8000), func(t *T) { longTraffic(t) })
	c.Run("dense", c.N(120, 3000), func(t *T) { denseTraffic(t) })
	c.Run("slowserver", c.N(160, 4000), func(t *T) {
		// replies lag far behind: the write limit and the queues are exercised
		r := t.R
		cfg := randCfg(r)
		cfg.Conns = 1
		cfg.Coalesce = pick(r, 90, 98)
		cfg.Limit = pick(r, 1, 2, 5, 10, 30, 100)
		cfg.MaxBatch = pick(r, 1, 2, 3, 7, 20, 50)
		g := randGen(r)
		g.MaxSize = 30
		ps := ProgSpec{Pipelines: 3, MaxSessions: 3, Gen: g, Release: true, Len: func(r *rand.Rand) int { return 1 + r.IntN(4*cfg.MaxBatch+2) }}
		traffic(t, cfg.tame(100_000), 2+r.IntN(12), ps, EnvOpt{})
	})
}

// ---------------------------------------------------------------------------

// script is a fixed sequential program for byte-exact faults; about 16 commands.
func script(e *Env, r *rand.Rand, batches int) {
	g := GenSpec{MaxSize: 20, ErrPct: 10, MissPct: 20, KindWts: [7]int{3, 2, 3, 2, 1, 1, 0}, Mutate: true}
	ps := ProgSpec{MaxSessions: 1, Gen: g, NoMid: true, Len: func(r *rand.Rand) int { return batches }}
	for i := 0; i < 4; i++ {
		e.runPipeline(r, ps)
	}
}

// passing are errors after which the connection is as good as before.
var passing = []error{os.ErrDeadlineExceeded, &net.OpError{Op: "write", Net: "tcp", Err: os.ErrDeadlineExceeded}, &net.OpError{Op: "write", Net: "tcp", Err: os.NewSyscallError("write", syscall.EAGAIN)}, syscall.EINTR, io.ErrShortWrite}

var cutDirs = []string{"client-to-server", "server-to-client", "server closes after reading", "one write fails", "one read fails"}

var cutErrs = []error{nil, syscall.ECONNRESET, io.ErrUnexpectedEOF, &net.OpError{Op: "read", Err: errors.New("injected")}}

// cutCase breaks the first connection after n bytes in one direction.
func cutCase(t *T, dir int, n int, conc int) *Env {
	r := t.R
	cfg := Cfg{Conns: 1, Limit: pick(r, 3, 50, 500), MaxBatch: pick(r, 1, 3, 100), Buf: pick(r, 16, 4096), WBuf: pick(r, 16, 4096), Procs: pick(r, 1, 2, 4), Perturb: pick(r, uint32(0), 5, 30, 200), Poison: true}
	err := pick(r, cutErrs...)
	if dir >= 3 {
		err = pick(r, passing...)
	}
	t.Desc("%v direction=%s cut after %d bytes err=%v goroutines=%d", cfg, cutDirs[dir], n, err, conc)
	werr := err
	if werr == nil {
		werr = syscall.EPIPE
	}
	e := newEnv(t, cfg, EnvOpt{Tweak: func(o *fake.Options) {
		o.OnConn = func(s *fake.Session) {
			if s.ID > 2 {
				return
			}
			// the cut point moves with the connection, so that reconnections are hit as well
			k := int64(n)
			if s.ID > 0 {
				k = int64(n*(s.ID+3)%97) + 1
			}
			switch dir {
			case 0:
				s.Client.FailWritesAfter(k, werr)
			case 1:
				s.Client.CutReadsAfter(k, err)
			case 2:
				s.M.CutReadsAfter(k, nil)
			case 3:
				s.Client.FailWriteOnceAfter(k, err)
			case 4:
				s.Client.FailReadOnceAfter(k, err)
			}
		}
	}})
	e.Faulty = true
	if conc <= 1 {
		script(e, r, 5)
	} else {
		e.parallel(conc, func(_ int, r *rand.Rand) { script(e, r, 3) })
	}
	e.Close()
	e.audit()
	t.Distinct(dir, n, conc, e.signature())
	t.Count("connections", int64(len(e.Srv.Sessions())))
	return e
}

func runC04(c *Ctx) {
	c.Rule("fault cases cut a connection after every number of bytes in each direction (0..399), then let the client reconnect and continue; traffic cases have no faults; distinct = distinct cut and arrival order at the server")
	max := c.N(400, 700)
	reps := c.N(1, 12)
	for dir := 0; dir < 5; dir++ {
		name := []string{"cutwrite", "cutread", "srvclose", "passwrite", "passread"}[dir]
		c.Run(name, max*reps, func(t *T) { cutCase(t, dir, t.Idx%max, 1) })
		c.Run(name+"-par", c.N(200, 4000), func(t *T) { cutCase(t, dir, t.Idx*7%1201, 2+t.R.IntN(8)) })
	}
	c.mu.Lock()
	c.res.Exhaustive = append(c.res.Exhaustive, fmt.Sprintf("cut offsets 0..%d in both directions for the sequential script", max-1))
	c.mu.Unlock()
	c.Run("faulty", c.N(300, 8000), func(t *T) { faultyTraffic(t) })
	c.Run("blips", c.N(240, 6000), func(t *T) { blipTraffic(t) })
	c.Run("mixed", c.N(200, 5000), func(t *T) { mixedTraffic(t) })
	c.Run("long", c.N(80, 2000), func(t *T) { longTraffic(t) })
}

// blipTraffic: the server is slow for just longer than the client waits, in either direction,
// in the middle of requests, and then goes on reading and answering.
func blipTraffic(t *T) {
	r := t.R
	cfg := randCfg(r).tame(50_000)
	cfg.TCP = false
	cfg.Conns = pick(r, 1, 1, 2, 3)
	cfg.C2S = pick(r, 40, 64, 150, 300)
	cfg.WBuf = pick(r, 0, 0, 100, 1000)
	cfg.Perturb = min(cfg.Perturb, 50)
	g := GenSpec{MaxSize: pick(r, 50, 400, 3000), ErrPct: 5, MissPct: 20, KindWts: [7]int{3, 2, 6, 2, 1, 0, 0}}
	t.Desc("%v slow server", cfg)
	var blips, expired atomic.Int64
	var e *Env
	e = newEnv(t, cfg, EnvOpt{
		Handler: func(s *fake.Session, c *fake.Cmd) fake.Reply {
			rep := oracleHandler(s, c)
			if blips.Load() < 12 && e.draw(25) == 0 {
				blips.Add(1)
				rep.Blip = true
			}
			return rep
		},
		Tweak: func(o *fake.Options) {
			o.ReadPause = func(s *fake.Session) {
				if e != nil && blips.Load() < 12 && e.draw(15) == 0 {
					blips.Add(1)
					if s.BlipWrites() {
						expired.Add(1)
					}
				}
			}
		}, NoStart: true,
	})
	e.Faulty = true
	e.start()
	ps := ProgSpec{Pipelines: 2 + r.IntN(5), MaxSessions: 3, Gen: g, Len: lenAround(min(cfg.MaxBatch, 30)), Release: true}
	e.parallel(1+r.IntN(6), func(_ int, r *rand.Rand) { e.runProgram(r, ps) })
	e.Close()
	e.audit()
	t.Count("slow_phases", blips.Load())
	t.Count("writes_cut_by_timeout", expired.Load())
	t.Count("connections", int64(len(e.Srv.Sessions())))
	t.Distinct(e.signature())
	t.Sample("%s slow phases=%d sessions=%d", t.getDesc(), blips.Load(), len(e.Srv.Sessions()))
}

// faultyTraffic: random traffic while connections keep breaking in random ways.
func faultyTraffic(t *T) *Env {
	r := t.R
	cfg := randCfg(r).tame(100_000)
	cfg.Conns = pick(r, 1, 1, 2, 3)
	g := randGen(r)
	g.MaxSize = pick(r, 10, 200, 1000)
	t.Desc("%v faulty traffic", cfg)
	var faults atomic.Int64
	budget := int64(3 + r.IntN(20))
	var e *Env
	e = newEnv(t, cfg, EnvOpt{
		Handler: func(s *fake.Session, c *fake.Cmd) fake.Reply {
			rep := oracleHandler(s, c)
			if faults.Load() < budget && e.draw(60) == 0 {
				faults.Add(1)
				switch e.draw(7) {
				case 6:
					rep.Blip = true
				case 0:
					rep.Close = true
				case 1:
					rep.Reset = true
				case 2:
					return fake.Reply{Close: true}
				case 3:
					rep.Data = rep.Data[:e.draw(len(rep.Data))]
					rep.Close = true
				case 4:
					rep = e.stalled(rep)
				case 5:
					rep.Data = []byte("CLIENT_ERROR bad command line\r\n")
				}
			}
			return rep
		},
		Tweak: func(o *fake.Options) {
			o.Dial = func(n int) error {
				if n >= cfg.Conns && e != nil && faults.Load() < budget && e.draw(4) == 0 {
					faults.Add(1)
					return fake.ErrRefused
				}
				return nil
			}
			o.OnConn = func(s *fake.Session) {
				if e == nil || faults.Load() >= budget {
					return
				}
				switch e.draw(6) {
				case 0:
					faults.Add(1)
					s.Client.FailWritesAfter(int64(e.draw(3000)), syscall.EPIPE)
				case 1:
					faults.Add(1)
					s.Client.CutReadsAfter(int64(e.draw(3000)), pick(r, cutErrs[0], cutErrs[1]))
				}
			}
			o.ReadPause = func(s *fake.Session) { // slow for just longer than the client waits
				if e != nil && faults.Load() < budget && e.draw(100) == 0 {
					faults.Add(1)
					s.BlipWrites()
				}
			}
		}, NoStart: true,
	})
	e.Faulty = true
	e.start()
	ps := ProgSpec{Pipelines: 3 + r.IntN(8), MaxSessions: 3, Gen: g, Len: lenAround(min(cfg.MaxBatch, 40)), Release: true}
	e.parallel(1+r.IntN(10), func(_ int, r *rand.Rand) { e.runProgram(r, ps) })
	e.Close()
	e.audit()
	t.Count("faults_injected", faults.Load())
	t.Count("connections", int64(len(e.Srv.Sessions())))
	t.Distinct(e.signature())
	t.Sample("%s faults=%d sessions=%d", t.getDesc(), faults.Load(), len(e.Srv.Sessions()))
	return e
}

// ---------------------------------------------------------------------------

func runC05(c *Ctx) {
	c.Rule("cases issue sets, gets and deletes over value lengths around every size class boundary and 0..4 MiB, all option extremes, all key lengths 1..250; an independent strict parser decodes what arrives; the caller's slices are overwritten right after issuing; distinct = distinct (kind, key length, option pattern, value length) tuples")
	wts := [7]int{2, 1, 6, 2, 0, 0, 0}
	note := func(t *T, e *Env) {
		e.mu.Lock()
		defer e.mu.Unlock()
		for _, o := range e.ops {
			t.Distinct(o.Kind, len(o.Key), len(o.Val), o.MG, o.MS, o.MD)
		}
	}
	c.Run("sizes", c.N(260, 6000), func(t *T) {
		r := t.R
		cfg := randCfg(r)
		g := GenSpec{MaxSize: pick(r, 70, 300, 5000, 70000), ErrPct: 3, MissPct: 60, KindWts: wts, Mutate: true, LongKeys: true}
		ps := ProgSpec{Pipelines: 1 + r.IntN(3), MaxSessions: 2, Gen: g, Len: lenAround(min(cfg.MaxBatch, 30)), Release: true}
		n := 1 + r.IntN(6)
		note(t, traffic(t, cfg.tame(n*ps.Pipelines*20*g.MaxSize/4), n, ps, EnvOpt{}))
	})
	c.Run("everysize", c.N(64, 64), func(t *T) {
		// every length of a window, several in one pipeline so that buffers are reused
		cfg := Cfg{Conns: 1, MaxBatch: pick(t.R, 1, 7, 100), Limit: 500, Buf: pick(t.R, 64, 512, 4096, 16384), Perturb: 50, Poison: true}
		e := newEnv(t, cfg, EnvOpt{})
		g := GenSpec{Mutate: true}
		lo := t.Idx * 33
		t.Desc("%v every value length %d..%d", cfg, lo, lo+32)
		for n := lo; n < lo+33; n += 3 {
			pl := e.Cl.Pipeline()
			pipe := int(e.pipes.Add(1))
			var ops []*Op
			for k := 0; k < 3; k++ {
				o := &Op{ID: e.nextID.Add(1), Kind: KSet, Pipe: pipe, Idx: k}
				o.Plan = Plan{ID: o.ID, Code: 'h'}
				o.Key = o.Plan.key("")
				o.Val = fillValue(o.ID, n+k)
				o.MS = memcache.MSetOptions{CAS: randU64(t.R), TTL: randU32(t.R)}
				e.issue(pl, o, g, t.R)
				ops = append(ops, o)
			}
			pl.Execute()
			for _, o := range ops {
				e.get(o)
			}
		}
		e.Close()
		e.audit()
		note(t, e)
	})
	c.mu.Lock()
	c.res.Exhaustive = append(c.res.Exhaustive, "value lengths 0..2111 (one set each)", "key lengths 1..250 (one get, set and delete each)")
	c.mu.Unlock()
	c.Run("everykey", c.N(50, 50), func(t *T) {
		cfg := Cfg{Conns: 1, MaxBatch: pick(t.R, 1, 2, 100), Limit: 500, Perturb: 50, Poison: true}
		t.Desc("%v key lengths %d..%d", cfg, t.Idx*5+1, t.Idx*5+5)
		// keys of every length; short ones have no room for a plan, so replies are fixed
		e := newEnv(t, cfg, EnvOpt{Handler: func(s *fake.Session, c *fake.Cmd) fake.Reply {
			if c.Verb == "mg" {
				return fake.Reply{Data: []byte("EN\r\n")}
			}
			return fake.Reply{Data: []byte("HD\r\n")}
		}})
		for n := t.Idx*5 + 1; n <= t.Idx*5+5; n++ {
			for rep := 0; rep < 4; rep++ {
				b := make([]byte, n)
				for i := range b {
					b[i] = byte(0x21 + t.R.IntN(0x7f-0x21))
				}
				pl := e.Cl.Pipeline()
				for k := KGet; k <= KDel; k++ {
					o := &Op{ID: e.nextID.Add(1), Kind: k, Pipe: int(e.pipes.Load()), Key: string(b), Val: fillValue(uint64(n), rep*7)}
					o.MG = memcache.MGetOptions{N: randU32(t.R), CAS: t.R.IntN(2) == 0}
					o.MS = memcache.MSetOptions{CAS: randU64(t.R), TTL: randU32(t.R)}
					o.MD = memcache.MDelOptions{CAS: randU64(t.R), I: t.R.IntN(2) == 0, TTL: randU32(t.R)}
					e.issue(pl, o, GenSpec{Mutate: true}, t.R)
					if _, err := o.call(); err != nil {
						e.fail("C05", "refused", "key %q of length %d: %v", b, n, err)
					}
					t.Tick()
				}
			}
		}
		e.Close()
		for _, m := range e.Srv.ProtoErrs() {
			e.fail("C05", "malformed-request", "%s", m)
		}
		var cmds []*fake.Cmd
		for _, s := range e.Srv.Sessions() {
			cmds = append(cmds, s.Cmds()...)
		}
		if len(cmds) != len(e.ops) {
			e.fail("C05", "wire", "%d commands received, %d issued", len(cmds), len(e.ops))
			return
		}
		for i, o := range e.ops {
			if cmds[i].Key != o.Key {
				e.fail("C05", "wire", "key %q arrived as %q", o.Key, cmds[i].Key)
			}
			e.auditWire(o, cmds[i])
		}
		note(t, e)
	})
	c.Run("wide", c.N(40, 1000), func(t *T) { note(t, wideTraffic(t)) })
	c.Run("huge", c.N(24, 300), func(t *T) {
		r := t.R
		cfg := randCfg(r).tame(1 << 20)
		g := GenSpec{MaxSize: 0, KindWts: wts, Mutate: true}
		e := newEnv(t, cfg, EnvOpt{})
		t.Desc("%v values up to 4 MiB", cfg)
		e.parallel(1+r.IntN(3), func(_ int, r *rand.Rand) {
			pl := e.Cl.Pipeline()
			pipe := int(e.pipes.Add(1))
			var ops []*Op
			for k := 0; k < 3+r.IntN(3); k++ {
				o := &Op{ID: e.nextID.Add(1), Kind: KSet, Pipe: pipe, Idx: k}
				o.Plan = Plan{ID: o.ID, Code: 'h'}
				o.Key = o.Plan.key("")
				sz := 1<<(10+r.IntN(13)) + r.IntN(9) - 4
				o.Val = fillValue(o.ID, sz)
				e.issue(pl, o, g, r)
				ops = append(ops, o)
				if r.IntN(2) == 0 {
					pl.Execute()
				}
			}
			for _, o := range ops {
				e.get(o)
			}
		})
		e.Close()
		e.audit()
		note(t, e)
	})
}

// ---------------------------------------------------------------------------

func runC19(c *Ctx) {
	c.Rule("contract cases run a scripted pipeline against a server that withholds replies and check what was sent and what returned at each step; traffic cases are random programs whose flush, arrival, reply and return events are ordered by one logical clock; distinct = distinct step sequences / arrival orders")
	c.Run("contract", c.N(500, 15000), contractCase)
	c.Run("mixed", c.N(300, 8000), func(t *T) {
		r := t.R
		cfg := randCfg(r)
		g := randGen(r)
		g.MaxSize = pick(r, 0, 10, 300)
		ps := ProgSpec{Pipelines: 1 + r.IntN(4), MaxSessions: 1 + r.IntN(6), Gen: g, Len: func(r *rand.Rand) int { return r.IntN(9) }, Release: true}
		traffic(t, cfg.tame(100_000), 1+r.IntN(6), ps, EnvOpt{})
	})
	c.Run("long", c.N(60, 2000), func(t *T) { longTraffic(t) })
}

// gate lets the server hold replies until told.
type gate struct {
	ch chan struct{}
}

// contractCase walks one pipeline through a random sequence of steps, with the server's
// replies gated, and checks the observable contract after every step.
func contractCase(t *T) {
	r := t.R
	cfg := randCfg(r).tame(50_000)
	cfg.Conns = pick(r, 1, 2)
	cfg.Coalesce = 0
	cfg.MaxBatch = pick(r, 1, 2, 3, 5, 100)
	cfg.Limit = pick(r, 100, 500)
	var hold atomic.Bool
	gateCh := make(chan struct{}, 100000)
	release := func(n int) {
		for i := 0; i < n; i++ {
			gateCh <- struct{}{}
		}
	}
	e := newEnv(t, cfg, EnvOpt{Handler: func(s *fake.Session, c *fake.Cmd) fake.Reply {
		if hold.Load() {
			<-gateCh
		}
		return oracleHandler(s, c)
	}})
	t.Cleanup(func() { hold.Store(false); release(50000); e.Close() })
	received := func() int64 {
		n := int64(0)
		for _, s := range e.Srv.Sessions() {
			n += s.Received()
		}
		return n
	}
	pl := e.Cl.Pipeline()
	g := GenSpec{MaxSize: 20, ErrPct: 10, MissPct: 20, KindWts: [7]int{3, 2, 3, 2, 1, 1, 1}, Mutate: true}
	var pending, fetched []*Op
	valid, sent := 0, 0
	steps := 3 + r.IntN(8)
	var log strings.Builder
	idx := 0
	mustSend := func(why string) bool {
		sent = valid
		if !t.Until(func() bool { return received() >= int64(valid) }) {
			t.Fail("not-sent", "%s: %d commands were issued but only %d arrived; steps: %s", why, valid, received(), log.String())
			return false
		}
		return true
	}
	noneSent := func(why string) {
		t.Settle(received)
		if n := received(); n != int64(sent) {
			t.Fail("sent-early", "%s: %d commands arrived but only %d were flushed; steps: %s", why, n, sent, log.String())
		}
	}
	for s := 0; s < steps && !t.failed.Load(); s++ {
		switch r.IntN(8) {
		case 0, 1, 2: // issue some
			n := 1 + r.IntN(6)
			fmt.Fprintf(&log, "issue%d ", n)
			for i := 0; i < n; i++ {
				o := e.genOp(r, g, 1, idx)
				idx++
				e.issue(pl, o, g, r)
				pending = append(pending, o)
				if o.Kind != KBadKey {
					valid++
				}
			}
			noneSent("after issuing only")
		case 3: // Execute does not wait
			log.WriteString("execute ")
			hold.Store(true)
			k := valid - sent
			pl.Execute()
			t.Tick()
			ok := mustSend("Execute")
			hold.Store(false)
			release(1)
			if !ok {
				return
			}
			if k > 0 && r.IntN(2) == 0 {
				pl.Execute()
				noneSent("after a repeated Execute")
			}
		case 4: // Finish waits for all
			log.WriteString("finish ")
			k := valid - sent
			_ = k
			for len(gateCh) > 0 {
				<-gateCh
			}
			hold.Store(true)
			before := received()
			var done atomic.Bool
			fin := make(chan struct{})
			go func() { pl.Finish(); done.Store(true); close(fin) }()
			if !mustSend("Finish") {
				hold.Store(false)
				release(50000)
				<-fin
				return
			}
			if n := int(received() - before); n > 0 {
				// answer all but one
				release(n - 1)
				t.Settle(func() int64 { return int64(len(gateCh)) })
				if done.Load() {
					t.Fail("finish-early", "Finish returned although one of %d commands was not answered; steps: %s", n, log.String())
				}
			}
			hold.Store(false)
			release(50)
			<-fin
			if r.IntN(2) == 0 {
				pl.Finish()
				pl.Execute()
				log.WriteString("finish execute ")
				noneSent("after Finish and Execute on an empty pipeline")
			}
		case 5, 6: // a result
			if len(pending) == 0 {
				pl.Execute()
				continue
			}
			k := r.IntN(len(pending))
			o := pending[k]
			fmt.Fprintf(&log, "get[%d] ", o.Idx)
			pending = append(pending[:k], pending[k+1:]...)
			wasSent := o.Kind == KBadKey || o.Idx < 0
			e.get(o)
			fetched = append(fetched, o)
			if !wasSent && sent < valid && e.firstUnsent(sent, o) {
				if !mustSend("a result function") {
					return
				}
			}
		case 7:
			if len(fetched) > 0 {
				log.WriteString("again ")
				e.again(fetched[r.IntN(len(fetched))])
			}
		}
	}
	for _, o := range pending {
		e.get(o)
	}
	pl.Finish()
	for _, o := range e.ops {
		e.again(o)
	}
	e.Close()
	if n := received(); n != int64(valid) {
		t.Fail("not-sent", "%d commands issued, %d arrived after Finish; steps: %s", valid, n, log.String())
	}
	e.audit()
	t.Distinct(log.String(), cfg.MaxBatch)
	t.Sample("%v steps: %s", cfg, log.String())
}

// firstUnsent says whether o is among the valid operations not yet flushed.
func (e *Env) firstUnsent(sent int, o *Op) bool {
	n := 0
	for _, x := range e.ops {
		if x.Kind == KBadKey {
			continue
		}
		if x == o {
			return n >= sent
		}
		n++
	}
	return false
}
