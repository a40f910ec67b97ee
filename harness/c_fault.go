package main

import (
	"errors"
	"fmt"
	"math/rand/v2"
	"net"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/QuangTung97/go-memcache/memcache"
	"github.com/QuangTung97/go-memcache/memcache/netconn"

	"verifharness/fake"
	"verifharness/memconn"
)

func init() {
	registry["C10"] = runC10
	registry["C11"] = runC11
	registry["C12"] = runC12
	registry["C13"] = runC13
	registry["C14"] = runC14
	registry["C23"] = runC23
	aliases["C14"] = []string{"C01"}
	aliases["C13"] = []string{"C01", "C04"}
}

// burst runs n goroutines with one short pipeline each and waits for all of them.
func (e *Env) burst(n, maxLen int, g GenSpec) *sync.WaitGroup {
	var wg sync.WaitGroup
	seeds := make([]uint64, n)
	for i := range seeds {
		seeds[i] = e.T.R.Uint64()
	}
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewPCG(seeds[i], 3))
			pl := e.Cl.Pipeline()
			pipe := int(e.pipes.Add(1))
			var ops []*Op
			for k := 1 + r.IntN(maxLen); k > 0; k-- {
				o := e.genOp(r, g, pipe, len(ops))
				e.issue(pl, o, g, r)
				ops = append(ops, o)
			}
			if r.IntN(3) == 0 {
				pl.Finish()
			}
			for _, o := range ops {
				e.get(o)
			}
		}()
	}
	return &wg
}

// --------------------------------------------------------------------------- C10

var partials = []string{"H", "HD", "HD\r", "VA", "VA ", "VA 5", "VA 5 c1", "VA 5\r", "VA 5\r\n", "VA 5\r\nab", "VA 5\r\nabcde", "VA 5\r\nabcde\r", "E", "CLIENT_ERR", "SERVER_ERROR x\r", "VERSION 1", "VA 5000\r\nx\n", "HD c1 W\nX"}

// stallMany: very many operations in flight on a connection that stalls or breaks.
func stallMany(t *T) {
	r := t.R
	n := pick(r, 1, 20, 130, 260, 300, 400, 520, 700, 1200)
	cfg := Cfg{Conns: pick(r, 1, 1, 2), Limit: pick(r, 1, 10, 128, 255, 256, 257, 500, 5000), MaxBatch: pick(r, 1, 3, 100), Buf: pick(r, 64, 4096),
		Procs: pick(r, 1, 2, 4, 8), Perturb: pick(r, uint32(0), 20, 100, 1000), C2S: pick(r, 64, 1000, 64<<10, 1<<20)}
	how := pick(r, "stall", "partial", "wstall", "close", "reset", "cutwrite", "refuse")
	rounds := 1 + r.IntN(3)
	t.Desc("%v %d pipelines in flight, then %s, %d round(s)", cfg, n, how, rounds)
	gate := make(chan struct{})
	var hold atomic.Bool
	hold.Store(true)
	var refuse atomic.Bool
	e := newEnv(t, cfg, EnvOpt{
		Handler: func(s *fake.Session, c *fake.Cmd) fake.Reply {
			if hold.Load() {
				<-gate
			}
			return oracleHandler(s, c)
		},
		Tweak: func(o *fake.Options) {
			o.Dial = func(int) error {
				if refuse.Load() {
					return fake.ErrRefused
				}
				return nil
			}
			if how == "wstall" {
				o.ReadPause = func(s *fake.Session) {
					if hold.Load() && s.Received() > 0 {
						select {
						case <-gate:
						case <-s.Client.Done():
						}
					}
				}
			}
		}})
	var once sync.Once
	open := func() { hold.Store(false); once.Do(func() { close(gate) }) }
	t.Cleanup(func() { open(); e.Close() })
	e.Faulty = true
	g := GenSpec{MaxSize: 20, ErrPct: 5, MissPct: 20, KindWts: [7]int{4, 2, 3, 2, 1, 0, 0}}
	for round := 0; round < rounds; round++ {
		wg := e.burst(n, pick(r, 1, 1, 3), g)
		if r.IntN(3) > 0 {
			t.Settle(e.received)
		} else {
			time.Sleep(time.Duration(r.IntN(1500)) * time.Microsecond)
		}
		refuse.Store(how == "refuse")
		// a fault hits every connection, old and new, until everything has returned
		stop := make(chan struct{})
		done := make(chan struct{})
		go func() {
			defer close(done)
			hit := map[int]bool{}
			for {
				for _, s := range e.Srv.Sessions() {
					if hit[s.ID] {
						continue
					}
					if s.ID >= cfg.Conns && s.Received() == 0 && how != "wstall" {
						continue
					}
					hit[s.ID] = true
					switch how {
					case "stall":
						s.Stall()
					case "partial": // a reply begins, but does not go on
						s.Inject([]byte(partials[s.ID%len(partials)]))
						s.Stall()
					case "wstall":
						s.M.StallPeerWrites()
						s.Stall()
					case "close", "refuse":
						_ = s.M.Close()
					case "reset":
						s.M.Reset()
					case "cutwrite":
						s.Client.FailWritesAfter(0, syscall.EPIPE)
						s.Stall()
					}
				}
				select {
				case <-stop:
					return
				case <-time.After(500 * time.Microsecond):
				}
			}
		}()
		wg.Wait() // the watchdog reports callers that never return
		close(stop)
		<-done
		refuse.Store(false)
	}
	open()
	e.Close()
	e.audit()
	t.Count("operations_in_flight_faulted", int64(n*rounds))
	t.Count("connections", int64(len(e.Srv.Sessions())))
	t.Distinct(how, n, cfg.String(), e.signature())
	t.Sample("%s", t.getDesc())
}

// dialBlocked: reconnection hangs in the dial; operations must still return.
func dialBlocked(t *T) {
	r := t.R
	cfg := randCfg(r).tame(50_000)
	cfg.Conns = pick(r, 1, 2)
	var block atomic.Bool
	gate := make(chan struct{})
	t.Desc("%v reconnecting dial blocks", cfg)
	var e *Env
	e = newEnv(t, cfg, EnvOpt{Tweak: func(o *fake.Options) {
		o.Dial = func(n int) error {
			if block.Load() {
				<-gate
				if n%3 == 0 {
					return fake.ErrRefused
				}
			}
			return nil
		}
	}})
	var once sync.Once
	t.Cleanup(func() { once.Do(func() { close(gate) }); e.Close() })
	e.Faulty = true
	g := randGen(r)
	g.MaxSize = 50
	e.burst(5, 3, g).Wait()
	block.Store(true)
	e.Srv.KillAll(r.IntN(2) == 0)
	for k := 0; k < 3; k++ {
		e.burst(pick(r, 1, 30, 300), pick(r, 1, 5, 120), g).Wait()
	}
	block.Store(false)
	once.Do(func() { close(gate) })
	e.burst(5, 3, g).Wait()
	e.Close()
	e.audit()
	t.Distinct(e.signature())
}

func withProbes(t *T) {
	// faulty traffic with health probes running all the time
	r := t.R
	cfg := randCfg(r).tame(100_000)
	cfg.Conns = pick(r, 1, 2, 3)
	t.Desc("%v faulty traffic with probes", cfg)
	var faults atomic.Int64
	budget := int64(5 + r.IntN(20))
	var e *Env
	e = newEnv(t, cfg, EnvOpt{NoStart: true, Handler: func(s *fake.Session, c *fake.Cmd) fake.Reply {
		rep := oracleHandler(s, c)
		if faults.Load() < budget && e.draw(30) == 0 {
			faults.Add(1)
			switch e.draw(4) {
			case 0:
				rep.Close = true
			case 1:
				rep.Reset = true
			case 2:
				rep = e.stalled(rep)
			case 3:
				return fake.Reply{Data: []byte("CLIENT_ERROR x\r\n")}
			}
		}
		return rep
	}})
	e.Faulty, e.Probes = true, true
	e.start(memcache.WithHealthCheckDuration(time.Duration(200+r.IntN(2000)) * time.Microsecond))
	t.Cleanup(e.Close)
	ps := ProgSpec{Pipelines: 3 + r.IntN(5), MaxSessions: 3, Gen: defaultGen, Len: lenAround(min(cfg.MaxBatch, 40)), Release: true}
	e.parallel(1+r.IntN(8), func(_ int, r *rand.Rand) { e.runProgram(r, ps) })
	time.Sleep(time.Duration(r.IntN(5)) * time.Millisecond)
	e.Close()
	e.audit()
	t.Count("faults_injected", faults.Load())
	t.Distinct(e.signature())
}

func runC10(c *Ctx) {
	c.Rule("cases put 1..1200 operations in flight and then stall, close, reset, cut or refuse connections, cut a scripted session at every byte, block the reconnecting dial, or mix random faults with health probes; a case passes when every caller returns (timeouts are virtual: a declared stall expires them at once); distinct = distinct fault placement and arrival order")
	c.Run("stallmany", c.N(260, 8000), stallMany)
	max := c.N(300, 700)
	for dir := 0; dir < 5; dir++ {
		name := []string{"cutwrite", "cutread", "srvclose", "passwrite", "passread"}[dir]
		c.Run(name, max, func(t *T) { cutCase(t, dir, t.Idx, 1) })
		c.Run(name+"-par", c.N(80, 3000), func(t *T) { cutCase(t, dir, t.Idx*13%1201, 2+t.R.IntN(8)) })
	}
	c.mu.Lock()
	c.res.Exhaustive = append(c.res.Exhaustive, fmt.Sprintf("cut offsets 0..%d in both directions for the sequential script", max-1))
	c.mu.Unlock()
	c.Run("faulty", c.N(200, 8000), func(t *T) { faultyTraffic(t) })
	c.Run("probes", c.N(100, 4000), withProbes)
	c.Run("dialblocked", c.N(60, 2000), dialBlocked)
	c.Run("closefaulty", c.N(100, 3000), func(t *T) { closeCase(t, true) })
}

// --------------------------------------------------------------------------- C11

// healthy waits until every slot of the pool works again.
func (e *Env) healthy(m int, why string) bool {
	t := e.T
	// one operation per slot finds connections that broke unnoticed; a few rounds, because a
	// reconnection of the last phase may have caught one more fault
	back := false
	for round := 0; round < 6 && !back; round++ {
		for i := 0; i < m; i++ {
			_, _ = e.Cl.Pipeline().Version()()
			t.Tick()
		}
		for i := 0; i < 3000 && !back; i++ {
			if back = e.alive() >= m; !back {
				t.Tick()
				time.Sleep(2 * time.Millisecond)
			}
		}
	}
	if !back {
		t.Fail("not-reconnected", "%s: %d of %d connections came back although the server accepts and answers", why, e.alive(), m)
		return false
	}
	var last error
	tries := 0
	if !t.Until(func() bool {
		tries++
		for i := 0; i < m; i++ {
			if _, err := e.Cl.Pipeline().Version()(); err != nil {
				last = err
				return false
			}
		}
		return true
	}) {
		t.Fail("not-recovered", "%s: operations still fail after %d rounds over the pool: %v", why, tries, last)
		return false
	}
	if n := e.alive(); n != m {
		t.Fail("not-recovered", "%s: %d connections are open, want %d", why, n, m)
		return false
	}
	return true
}

// cleanTraffic must be free of errors.
func (e *Env) cleanTraffic(why string) {
	e.mu.Lock()
	e.ops = nil
	e.mu.Unlock()
	e.burst(4*max(e.Cfg.Conns, 1), 4, GenSpec{MaxSize: 30, ErrPct: 5, MissPct: 20, KindWts: [7]int{4, 2, 3, 2, 1, 0, 0}}).Wait()
	for _, o := range e.ops {
		if o.Err != nil && !memcache.IsServerError(o.Err) {
			e.T.Fail("not-recovered", "%s: %v failed on a recovered pool: %v", why, o, o.Err)
			return
		}
		if o.mism != "" {
			e.T.Fail("wrong-result", "%s: %v: %s", why, o, o.mism)
			return
		}
	}
}

// e0draw is a draw that depends on the connection only.
func e0draw(id, n int) int {
	return rand.New(rand.NewPCG(uint64(id), 7)).IntN(n)
}

func runC11(c *Ctx) {
	c.Rule("cases let a pool of 1..7 connections suffer refused dials at creation or later (up to 60 per slot), kills, stalls, garbage and cuts, with or without traffic, several times over; when faults stop every slot must be connected again without further traffic beyond one operation per slot, and clean traffic must be free of errors; distinct = distinct sequence of faults")
	c.Run("unreachable", c.N(120, 3000), func(t *T) {
		r := t.R
		cfg := randCfg(r).tame(50_000)
		k := cfg.Conns + pick(r, r.IntN(60), r.IntN(60), 400*cfg.Conns)
		some := r.Perm(cfg.Conns)[:r.IntN(cfg.Conns)] // with some: only these of the first dials
		if r.IntN(3) > 0 {
			some = nil
		}
		var down atomic.Bool
		down.Store(true)
		var refused atomic.Int64
		t.Desc("%v the first %d dials are refused, or only %v", cfg, k, some)
		e := newEnv(t, cfg, EnvOpt{Tweak: func(o *fake.Options) {
			o.Dial = func(n int) error {
				if down.Load() && n < k && (some == nil || slices.Contains(some, n)) {
					refused.Add(1)
					return fake.ErrRefused
				}
				return nil
			}
		}})
		t.Cleanup(e.Close)
		e.Faulty = true
		if r.IntN(2) == 0 {
			e.burst(1+r.IntN(10), 3, defaultGen).Wait()
		}
		if e.healthy(cfg.Conns, "after refused dials") {
			e.cleanTraffic("after refused dials")
		}
		t.Count("dials_refused", refused.Load())
		t.Distinct("unreachable", cfg.Conns, k, e.Srv.Dials(), e.signature())
		t.Sample("%s", t.getDesc())
	})
	c.Run("heal", c.N(240, 6000), func(t *T) {
		r := t.R
		cfg := randCfg(r).tame(50_000)
		cfg.Perturb = max(cfg.Perturb, 20)
		var mode atomic.Value
		mode.Store("")
		var refused, faults atomic.Int64
		var e *Env
		e = newEnv(t, cfg, EnvOpt{NoStart: true,
			Handler: func(s *fake.Session, c *fake.Cmd) fake.Reply {
				rep := oracleHandler(s, c)
				m := mode.Load().(string)
				if m == "" || e.draw(3) > 0 {
					return rep
				}
				faults.Add(1)
				switch m {
				case "close":
					rep.Close = true
				case "reset":
					rep.Reset = true
				case "stall":
					rep = e.stalled(rep)
				case "garbage":
					rep.Data = mutateReply(rand.New(rand.NewPCG(uint64(c.Seq), 1)), c.Verb)
					rep.Close = true
				case "clienterror":
					rep.Data = []byte("CLIENT_ERROR no\r\n")
				}
				return rep
			},
			Tweak: func(o *fake.Options) {
				o.Dial = func(int) error {
					if mode.Load() == "refuse" {
						refused.Add(1)
						return fake.ErrRefused
					}
					return nil
				}
				o.OnConn = func(s *fake.Session) {
					switch mode.Load() {
					case "cutconn": // dies as soon as it is used
						faults.Add(1)
						s.Client.FailWritesAfter(int64(e.draw(30)), syscall.EPIPE)
					case "closeconn":
						faults.Add(1)
						_ = s.M.Close()
					}
				}
			}})
		e.Faulty = true
		e.start()
		t.Cleanup(e.Close)
		var hist []string
		for phase := 0; phase < 1+r.IntN(4) && !t.failed.Load(); phase++ {
			m := pick(r, "close", "reset", "stall", "garbage", "clienterror", "refuse", "cutconn", "closeconn", "killidle")
			hist = append(hist, m)
			t.Desc("%v phases %v", cfg, hist)
			mode.Store(m)
			if m == "refuse" || m == "closeconn" || m == "killidle" || m == "cutconn" {
				e.Srv.KillAll(r.IntN(2) == 0)
			}
			if m != "killidle" && r.IntN(4) > 0 {
				for k := 0; k < 1+r.IntN(4); k++ {
					e.burst(1+r.IntN(20), pick(r, 1, 3, 10), GenSpec{MaxSize: 30, ErrPct: 5, MissPct: 20, KindWts: [7]int{4, 2, 3, 2, 1, 0, 0}}).Wait()
					time.Sleep(time.Duration(r.IntN(1500)) * time.Microsecond)
				}
			}
			if m == "refuse" {
				n := refused.Load()
				want := int64(r.IntN(40))
				for i := 0; i < 100 && refused.Load() < n+want; i++ {
					t.Tick()
					time.Sleep(time.Millisecond)
				}
			}
			mode.Store("")
			// sessions stalled or doomed by the phase must not count as healthy
			for _, s := range e.Srv.Sessions() {
				if m == "stall" || m == "cutconn" {
					_ = s.M.Close()
				}
			}
			if !e.healthy(cfg.Conns, fmt.Sprint("after ", hist)) {
				return
			}
			e.cleanTraffic(fmt.Sprint("after ", hist))
		}
		t.Count("dials_refused", refused.Load())
		t.Count("faults_injected", faults.Load())
		t.Count("connections", int64(len(e.Srv.Sessions())))
		t.Distinct(fmt.Sprint(hist), e.signature())
		t.Sample("%s", t.getDesc())
	})
	c.Run("retry", c.N(16, 300), func(t *T) {
		// after an outage of many retry intervals the service is back within a few of them
		r := t.R
		cfg := Cfg{Conns: 1 + r.IntN(3), Procs: pick(r, 2, 4)}
		d := time.Duration(15+r.IntN(10)) * time.Millisecond
		var down atomic.Bool
		var refused atomic.Int64
		e := newEnv(t, cfg, EnvOpt{NoStart: true, Tweak: func(o *fake.Options) {
			o.Dial = func(int) error {
				if down.Load() {
					refused.Add(1)
					return fake.ErrRefused
				}
				return nil
			}
		}})
		e.Faulty = true
		initial := r.IntN(2) == 0
		outages := 1 + r.IntN(2)
		want := int64(18 + r.IntN(12))
		t.Desc("%v retries every %v, %d outages of %d refused dials per slot, the first from the beginning: %v", cfg, d, outages, want, initial)
		down.Store(initial)
		e.start(memcache.WithRetryDuration(d))
		t.Cleanup(e.Close)
		for k := 0; k < outages; k++ {
			if k > 0 || !initial {
				down.Store(true)
				e.Srv.KillAll(r.IntN(2) == 0)
			}
			for i := 0; i < cfg.Conns; i++ {
				_, _ = e.Cl.Pipeline().Version()()
			}
			n0, t0 := refused.Load(), time.Now()
			steps := 0
			for ; refused.Load() < n0+want*int64(cfg.Conns) && steps < 15*int(want); steps++ {
				t.Tick()
				time.Sleep(d)
			}
			if steps >= 15*int(want) {
				t.Fail("retry-slow", "in %v, %d retry intervals of %v, only %d dials were attempted for %d slots", time.Since(t0), steps, d, refused.Load()-n0, cfg.Conns)
				return
			}
			down.Store(false)
			// counted in pauses of the same length, which a busy machine stretches alike
			steps = 0
			for ; e.alive() < cfg.Conns && steps < 12; steps++ {
				t.Tick()
				time.Sleep(d)
			}
			if e.alive() < cfg.Conns {
				t.Fail("retry-slow", "%d retry intervals after the outage only %d of %d connections are back", steps, e.alive(), cfg.Conns)
				return
			}
			t.Count("retry_intervals_to_recover", int64(steps))
			if !e.healthy(cfg.Conns, "after the outage") {
				return
			}
		}
		t.Count("dials_refused", refused.Load())
		t.Distinct(cfg.String(), d, want, initial, outages)
		t.Sample("%s", t.getDesc())
	})
	c.Run("flap", c.N(64, 1500), func(t *T) {
		// A server that accepts and drops at once, under steady traffic, for thousands of connections:
		// every failure falls into another phase of the replacement of the one before.
		r := t.R
		cfg := Cfg{Conns: 1 + r.IntN(3), Limit: pick(r, 2, 50, 500), MaxBatch: pick(r, 1, 3, 100), Procs: pick(r, 2, 4, 8), Perturb: pick(r, uint32(0), 0, 20, 200)}
		var down atomic.Bool
		down.Store(true)
		var flaps, ops atomic.Int64
		how := pick(r, "readeof", "write", "both", "close", "reset")
		t.Desc("%v flapping: %s", cfg, how)
		e := newEnv(t, cfg, EnvOpt{NoStart: true, Tweak: func(o *fake.Options) {
			o.OnConn = func(s *fake.Session) {
				if !down.Load() {
					return
				}
				flaps.Add(1)
				switch how {
				case "readeof":
					s.Client.CutReadsAfter(int64(e0draw(s.ID, 12)), nil)
				case "write":
					s.Client.FailWritesAfter(int64(e0draw(s.ID, 40)), syscall.EPIPE)
				case "both":
					s.Client.CutReadsAfter(int64(e0draw(s.ID, 12)), syscall.ECONNRESET)
					s.Client.FailWritesAfter(int64(e0draw(s.ID, 40)), syscall.EPIPE)
				case "close":
					_ = s.M.Close()
				case "reset":
					s.M.Reset()
				}
			}
		}})
		e.Faulty = true
		e.start()
		t.Cleanup(e.Close)
		stop := make(chan struct{})
		var wg sync.WaitGroup
		for i := 0; i < 4*cfg.Conns; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					select {
					case <-stop:
						return
					default:
					}
					_, _ = e.Cl.Pipeline().Version()()
					ops.Add(1)
				}
			}()
		}
		want := int64(300 + r.IntN(1500))
		ok := t.Until(func() bool { return flaps.Load() >= want })
		if !ok {
			t.Fail("not-replaced", "after %d connections that were dropped at once (%d failed operations) no further one was opened", flaps.Load(), ops.Load())
		}
		down.Store(false)
		close(stop)
		if ok {
			wg.Wait()
			for _, s := range e.Srv.Sessions() {
				_ = s.M.Close() // doomed ones must not count as healthy
			}
			if e.healthy(cfg.Conns, "after flapping") {
				e.cleanTraffic("after flapping")
			}
		}
		t.Count("connections_dropped_at_once", flaps.Load())
		t.Count("operations_meanwhile", ops.Load())
		t.Distinct(cfg.String(), how, want)
		t.Sample("%s: %d connections, %d operations", t.getDesc(), flaps.Load(), ops.Load())
	})
}

// --------------------------------------------------------------------------- C12

func runC12(c *Ctx) {
	c.Rule("traffic with 10..100% SERVER_ERROR replies of varied texts must keep every connection and give every other command its own result; batches with CLIENT_ERROR replies at one or several positions must report exactly those messages there, replace the connection, and then work again; distinct = distinct arrival order or distinct batch and positions")
	c.Run("servererror", c.N(300, 8000), func(t *T) {
		r := t.R
		cfg := randCfg(r)
		g := randGen(r)
		g.ErrPct = pick(r, 10, 40, 70, 100)
		g.MaxSize = pick(r, 10, 200)
		ps := ProgSpec{Pipelines: 2 + r.IntN(6), MaxSessions: 3, Gen: g, Len: lenAround(min(cfg.MaxBatch, 40)), Release: true}
		cfg = cfg.tame(60_000)
		t.Desc("%v %d%% server errors", cfg, g.ErrPct)
		e := newEnv(t, cfg, EnvOpt{})
		e.parallel(1+r.IntN(10), func(_ int, r *rand.Rand) { e.runProgram(r, ps) })
		if n := e.Srv.Dials(); n != int64(cfg.Conns) || e.alive() != cfg.Conns {
			t.Fail("connection-lost", "after server errors only, %d connections were opened and %d are in use, want %d", n, e.alive(), cfg.Conns)
		}
		e.Close()
		e.audit()
		t.Distinct(e.signature())
		t.Sample("%s", t.getDesc())
	})
	c.Run("clienterror", c.N(500, 12000), func(t *T) {
		r := t.R
		n := 1 + r.IntN(25)
		cfg := Cfg{Conns: 1, Limit: 500, MaxBatch: pick(r, 1, 2, 5, 100, 100), Buf: pick(r, 1, 7, 64, 4096), Procs: pick(r, 1, 2, 4), Perturb: pick(r, uint32(0), 10, 100),
			Coalesce: pick(r, 0, 95), SplitMax: pick(r, 0, 0, 3), Poison: true}
		positions := map[int]string{}
		for k := 1 + r.IntN(3); k > 0; k-- {
			positions[r.IntN(n)] = errMsg(r.Uint64())
		}
		if r.IntN(2) == 0 { // only one, so that the batch is the only thing that matters
			for p := range positions {
				if len(positions) > 1 {
					delete(positions, p)
				}
			}
		}
		kinds := make([]string, n)
		for i := range kinds {
			kinds[i] = pick(r, verbs...)
		}
		t.Desc("%v batch %v, client errors %v", cfg, kinds, positions)
		e := newEnv(t, cfg, EnvOpt{Handler: func(s *fake.Session, c *fake.Cmd) fake.Reply {
			if m, ok := positions[c.Pos]; ok && s.ID == 0 {
				return fake.Reply{Data: []byte("CLIENT_ERROR " + m + "\r\n")}
			}
			return fake.Reply{Data: oracleFallback(c)}
		}})
		t.Cleanup(e.Close)
		pl := e.Cl.Pipeline()
		var fs []func() error
		for i := range kinds {
			fs = append(fs, issueVerb(pl, r, kinds[i]))
		}
		if r.IntN(2) == 0 {
			pl.Execute()
			s0 := e.Srv.Sessions()[0]
			t.Settle(s0.Replied)
		}
		for i, f := range fs {
			err := f()
			t.Tick()
			m, is := positions[i]
			switch {
			case is && err == nil:
				t.Fail("success", "command %d (%s) was reported successful on CLIENT_ERROR %q", i, kinds[i], m)
			case is:
				var ce memcache.ErrClientError
				if !errors.As(err, &ce) || ce.Message != m {
					t.Fail("message", "command %d (%s) was answered CLIENT_ERROR %q but returned %v", i, kinds[i], m, err)
				}
			case err != nil:
				// all replies were sent in order on one connection and all batches were read before
				// the first was parsed, so nothing but the erroneous ones may fail
				t.Fail("spread", "command %d (%s) failed with %v although only %v were answered with an error", i, kinds[i], err, positions)
			}
			if t.failed.Load() {
				return
			}
		}
		if !t.Until(e.Srv.Sessions()[0].Client.Closed) {
			t.Fail("not-replaced", "the connection was kept after a CLIENT_ERROR")
		}
		if !t.Until(func() bool { _, err := e.Cl.Pipeline().Version()(); return err == nil }) {
			t.Fail("not-replaced", "no operation succeeds after a CLIENT_ERROR")
		}
		t.Distinct(fmt.Sprint(kinds), fmt.Sprint(positions), cfg.MaxBatch)
		t.Sample("%s", t.getDesc())
	})
	c.Run("mixed", c.N(150, 4000), func(t *T) {
		// both kinds of errors under concurrency: nobody ever gets another command's reply
		r := t.R
		cfg := randCfg(r).tame(60_000)
		g := randGen(r)
		g.ErrPct, g.ClientErr, g.MaxSize = 20, pick(r, 1, 5), 50
		t.Desc("%v server and client errors", cfg)
		e := newEnv(t, cfg, EnvOpt{})
		e.Faulty = true
		ps := ProgSpec{Pipelines: 3 + r.IntN(8), MaxSessions: 2, Gen: g, Len: lenAround(min(cfg.MaxBatch, 20)), Release: true}
		e.parallel(1+r.IntN(8), func(_ int, r *rand.Rand) { e.runProgram(r, ps) })
		e.Close()
		e.audit()
		t.Distinct(e.signature())
		t.Count("connections", int64(len(e.Srv.Sessions())))
	})
}

// --------------------------------------------------------------------------- C13

// clientGone waits until no goroutine is inside the client.
func (t *T) clientGone() (string, bool) {
	var in []string
	ok := t.Until(func() bool {
		in, _ = clientStacks(allStacks())
		return len(in) == 0
	})
	return strings.Join(in, "\n\n"), ok
}

// closeCase closes the client at a random moment of its life, from one or more callers.
func closeCase(t *T, faulty bool) {
	r := t.R
	cfg := randCfg(r).tame(60_000)
	probes := r.IntN(3) == 0
	hold := !faulty && r.IntN(3) == 0 // replies are withheld until Close has been called
	t.Desc("%v faulty=%v probes=%v hold=%v", cfg, faulty, probes, hold)
	gate := make(chan struct{})
	var holding atomic.Bool
	holding.Store(hold)
	var e *Env
	var faults atomic.Int64
	retry := time.Millisecond
	if r.IntN(2) == 0 {
		retry = time.Hour // Close must interrupt it
	}
	e = newEnv(t, cfg, EnvOpt{NoStart: true,
		Handler: func(s *fake.Session, c *fake.Cmd) fake.Reply {
			if holding.Load() {
				<-gate
			}
			rep := oracleHandler(s, c)
			if faulty && e.draw(20) == 0 {
				faults.Add(1)
				switch e.draw(3) {
				case 0:
					rep.Close = true
				case 1:
					rep = e.stalled(rep)
				case 2:
					rep.Reset = true
				}
			}
			return rep
		},
		Tweak: func(o *fake.Options) {
			o.Dial = func(n int) error {
				if faulty && e.draw(3) == 0 {
					faults.Add(1)
					return fake.ErrRefused
				}
				return nil
			}
		}})
	e.Faulty, e.Probes = true, probes
	opts := []memcache.Option{memcache.WithRetryDuration(retry)}
	if probes {
		opts = append(opts, memcache.WithHealthCheckDuration(time.Duration(100+r.IntN(1000))*time.Microsecond))
	}
	e.start(opts...)
	var once sync.Once
	open := func() { holding.Store(false); once.Do(func() { close(gate) }) }
	t.Cleanup(func() { open(); e.Close() })
	var closeSeq atomic.Int64 // drawn before the first Close is called
	type flushed struct {
		ops []*Op
		seq int64 // drawn after Execute returned
	}
	var fl []flushed
	var mu sync.Mutex
	g := GenSpec{MaxSize: 100, ErrPct: 5, MissPct: 20, KindWts: [7]int{4, 2, 3, 2, 1, 0, 0}}
	var wg sync.WaitGroup
	workers := 1 + r.IntN(8)
	var stopWork atomic.Bool
	for i := 0; i < workers; i++ {
		wg.Add(1)
		seed := r.Uint64()
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewPCG(seed, 5))
			for k := 0; k < 200 && !stopWork.Load(); k++ {
				pl := e.Cl.Pipeline()
				pipe := int(e.pipes.Add(1))
				var ops []*Op
				n := lenAround(min(cfg.MaxBatch, 30))(r)
				for j := 0; j < n; j++ {
					o := e.genOp(r, g, pipe, j)
					e.issue(pl, o, g, r)
					ops = append(ops, o)
				}
				pl.Execute()
				seq := e.Srv.NextSeq()
				for _, o := range ops {
					e.get(o)
				}
				pl.Finish()
				mu.Lock()
				fl = append(fl, flushed{ops, seq})
				mu.Unlock()
				if closeSeq.Load() != 0 && r.IntN(4) == 0 {
					return
				}
			}
		}()
	}
	delay := pick(r, 0, 0, 50, 300, 2000)
	if delay > 0 {
		time.Sleep(time.Duration(r.IntN(delay)) * time.Microsecond)
	}
	if hold {
		t.Settle(e.received)
	}
	closers := 1 + r.IntN(3)
	var cwg sync.WaitGroup
	var dialsAtReturn atomic.Int64
	closeSeq.Store(e.Srv.NextSeq())
	for i := 0; i < closers; i++ {
		cwg.Add(1)
		go func() {
			defer cwg.Done()
			if err := e.Cl.Close(); err != nil {
				t.Fail("close-error", "Close returned %v", err)
			}
			if n := e.Srv.Open(); n != 0 {
				t.Fail("left-open", "%d connections were open when Close returned", n)
			}
			dialsAtReturn.Store(e.Srv.Dials())
			t.Tick()
		}()
	}
	if hold {
		time.Sleep(time.Duration(r.IntN(1000)) * time.Microsecond)
		open()
	}
	cwg.Wait()
	stopWork.Store(true)
	wg.Wait()
	if s, ok := t.clientGone(); !ok {
		t.Desc("%s\n%s", t.getDesc(), s)
		t.Fail("goroutines", "goroutines of the client are left after Close")
	}
	if n := e.Srv.Dials(); n != dialsAtReturn.Load() {
		t.Fail("dial-after-close", "%d dials after Close had returned", n-dialsAtReturn.Load())
	}
	if n := e.Srv.Dials(); !faulty && n != int64(cfg.Conns) {
		t.Fail("dial-by-close", "%d connections were opened by a client of %d whose server never failed", n, cfg.Conns)
	}
	e.Srv.Stop()
	e.audit()
	where := map[string]bool{}
	for _, s := range e.Srv.Sessions() {
		for _, c := range s.Cmds() {
			where[c.Key] = true
		}
	}
	refused, real, early := 0, 0, 0
	for _, f := range fl {
		for _, o := range f.ops {
			switch {
			case o.Err == memcache.ErrConnClosed:
				refused++
				if where[o.Key] && !faulty && o.Kind != KVersion {
					t.Fail("sent-yet-refused", "%v returned %v but was received by the server", o, o.Err)
				}
				if f.seq < closeSeq.Load() {
					t.Fail("dropped", "%v was flushed (Execute returned) before Close was called and was refused: %v", o, o.Err)
				}
			case o.Err == nil || memcache.IsServerError(o.Err):
				real++
				if f.seq < closeSeq.Load() {
					early++
				}
			case !faulty:
				t.Fail("lost-outcome", "%v ended with %v although the server never failed", o, o.Err)
			}
		}
	}
	t.Count("refused", int64(refused))
	t.Count("real_outcomes", int64(real))
	t.Count("flushed_before_close", int64(early))
	t.Count("faults_injected", faults.Load())
	t.Distinct(e.signature(), refused)
	t.Sample("%s; %d refused, %d answered, %d flushed before Close", t.getDesc(), refused, real, early)
}

func runC13(c *Ctx) {
	c.Rule("Close is called by 1..3 goroutines at a random moment of traffic (including with replies withheld, during failures, during a one-hour retry sleep, with probes); outcomes of all operations are compared with the server log, and connections, dials and goroutines are counted when Close returns; distinct = distinct arrival order and number of refused operations")
	c.Run("healthy", c.N(420, 10000), func(t *T) { closeCase(t, false) })
	c.Run("faulty", c.N(240, 6000), func(t *T) { closeCase(t, true) })
	c.Run("idle", c.N(160, 3000), func(t *T) {
		// clients that are idle, broken, reconnecting or were never connected
		r := t.R
		cfg := randCfg(r)
		state := pick(r, "fresh", "idle", "broken", "unreachable", "redialing", "unnoticed")
		t.Desc("%v %s", cfg, state)
		var refuse atomic.Bool
		refuse.Store(state == "unreachable")
		gate := make(chan struct{})
		var block atomic.Bool
		var e *Env
		e = newEnv(t, cfg, EnvOpt{NoStart: true, Tweak: func(o *fake.Options) {
			o.Dial = func(int) error {
				if block.Load() {
					<-gate
				}
				if refuse.Load() {
					return fake.ErrRefused
				}
				return nil
			}
		}})
		e.Faulty, e.Probes = true, true
		opts := []memcache.Option{memcache.WithRetryDuration(time.Hour)}
		if r.IntN(2) == 0 {
			opts = append(opts, memcache.WithHealthCheckDuration(500*time.Microsecond))
		}
		e.start(opts...)
		var once sync.Once
		t.Cleanup(func() { once.Do(func() { close(gate) }); e.Close() })
		switch state {
		case "idle":
			e.burst(3, 3, defaultGen).Wait()
		case "broken":
			refuse.Store(true)
			e.Srv.KillAll(true)
			e.burst(3*cfg.Conns, 2, defaultGen).Wait()
		case "unnoticed":
			e.Srv.KillAll(false)
		case "redialing":
			block.Store(true)
			e.Srv.KillAll(true)
			e.burst(3*cfg.Conns, 2, defaultGen).Wait()
		}
		if r.IntN(2) == 0 {
			time.Sleep(time.Duration(r.IntN(2000)) * time.Microsecond)
		}
		if state == "broken" && !t.Until(func() bool { return e.Srv.Dials() == 2*int64(cfg.Conns) }) {
			t.Inconclusive("%d dials for %d broken connections", e.Srv.Dials(), cfg.Conns)
		}
		d0 := e.Srv.Dials()
		done := make(chan struct{})
		go func() {
			defer close(done)
			_ = e.Cl.Close()
		}()
		if state == "redialing" { // Close may wait for the dial itself, which ends
			time.Sleep(time.Duration(r.IntN(500)) * time.Microsecond)
			once.Do(func() { close(gate) })
		}
		<-done
		if n := e.Srv.Open(); n != 0 {
			t.Fail("left-open", "%d connections were open when Close returned", n)
		}
		if state == "broken" && e.Srv.Dials() != d0 {
			t.Fail("dial-by-close", "%d connection attempts were made by closing a client that was waiting an hour before the next", e.Srv.Dials()-d0)
		}
		if (state == "fresh" || state == "idle") && e.Srv.Dials() != int64(cfg.Conns) {
			t.Fail("dial-by-close", "closing opened %d connections (%d before)", e.Srv.Dials()-d0, d0)
		}
		d1 := e.Srv.Dials()
		if s, ok := t.clientGone(); !ok {
			t.Desc("%s\n%s", t.getDesc(), s)
			t.Fail("goroutines", "goroutines of the client are left after Close")
		}
		_ = e.Cl.Close()
		if n := e.Srv.Dials(); n != d1 {
			t.Fail("dial-after-close", "%d dials after Close had returned", n-d1)
		}
		t.Distinct(state, cfg.String())
		t.Sample("%s", t.getDesc())
	})
}

// --------------------------------------------------------------------------- C14

func runC14(c *Ctx) {
	c.Rule("pipelines of 1 command to several batches, of all command types, filled before or after Close and flushed after it by a result function, Execute or Finish, must return the connection-closed error everywhere and send nothing; Close is repeated by several goroutines; distinct = distinct pipeline shapes and configurations")
	c.Run("afterclose", c.N(600, 15000), func(t *T) {
		r := t.R
		cfg := randCfg(r).tame(30_000)
		t.Desc("%v", cfg)
		var e *Env
		e = newEnv(t, cfg, EnvOpt{})
		t.Cleanup(e.Close)
		e.Faulty = true
		g := GenSpec{MaxSize: 100, KindWts: [7]int{4, 3, 4, 3, 2, 2, 1}}
		if r.IntN(2) == 0 {
			e.burst(1+r.IntN(5), 4, g).Wait()
		}
		if r.IntN(4) == 0 {
			e.Srv.KillAll(true)
		}
		type filled struct {
			pl  *memcache.Pipeline
			ops []*Op
		}
		fill := func(pl *memcache.Pipeline) filled {
			f := filled{pl: pl}
			n := pick(r, 1, 1, 2, cfg.MaxBatch, cfg.MaxBatch+1, 2*cfg.MaxBatch, 3*cfg.MaxBatch+1, 1+r.IntN(20))
			n = min(n, 900)
			for i := 0; i < n; i++ {
				o := e.genOp(r, g, int(e.pipes.Load()), i)
				e.issue(pl, o, g, r)
				f.ops = append(f.ops, o)
			}
			return f
		}
		var work []filled
		for k := 0; k < 3; k++ {
			pl := e.Cl.Pipeline()
			if r.IntN(2) == 0 { // used before
				o := e.genOp(r, g, 0, 0)
				e.issue(pl, o, g, r)
				e.get(o)
			}
			if r.IntN(2) == 0 {
				work = append(work, fill(pl))
			} else {
				work = append(work, filled{pl: pl})
			}
		}
		var wg sync.WaitGroup
		for k := 0; k < 1+r.IntN(3); k++ {
			wg.Add(1)
			go func() { defer wg.Done(); _ = e.Cl.Close() }()
		}
		wg.Wait()
		n0, sent0, dials0 := e.received(), int64(0), e.Srv.Dials()
		for _, s := range e.Srv.Sessions() {
			sent0 += s.Client.BytesOut()
		}
		for k := 0; k < 3; k++ {
			work = append(work, filled{pl: e.Cl.Pipeline()})
		}
		var shape []int
		for i := range work {
			f := work[i]
			if f.ops == nil {
				f = fill(f.pl)
			}
			shape = append(shape, len(f.ops))
			switch r.IntN(4) {
			case 0:
				f.pl.Execute()
				t.Tick()
			case 1:
				f.pl.Finish()
				t.Tick()
			case 2:
				r.Shuffle(len(f.ops), func(a, b int) { f.ops[a], f.ops[b] = f.ops[b], f.ops[a] })
			}
			for _, o := range f.ops {
				o.calls++
				o.Res, o.Err = o.call()
				o.Done = true
				t.Tick()
				if o.Kind == KBadKey {
					if o.Err == nil {
						t.Fail("accepted", "%v was accepted after Close", o)
					}
				} else if o.Err != memcache.ErrConnClosed {
					t.Fail("wrong-error", "%v (pipeline of %d, batch size %d) after Close: %v, want %v", o, len(f.ops), cfg.MaxBatch, o.Err, memcache.ErrConnClosed)
				}
			}
			f.pl.Finish()
			f.pl.Execute()
			if r.IntN(4) == 0 {
				_ = e.Cl.Close()
			}
			if t.failed.Load() {
				return
			}
		}
		sent1 := int64(0)
		for _, s := range e.Srv.Sessions() {
			sent1 += s.Client.BytesOut()
		}
		if e.received() != n0 && sent1 != sent0 || sent1 != sent0 {
			t.Fail("sent", "%d bytes were sent after Close", sent1-sent0)
		}
		if n := e.Srv.Dials(); n != dials0 {
			t.Fail("dialed", "%d dials after Close", n-dials0)
		}
		t.Distinct(fmt.Sprint(shape), cfg.String())
		t.Sample("%v pipelines of %v commands after Close", cfg, shape)
	})
}

// --------------------------------------------------------------------------- C23

func runC23(c *Ctx) {
	c.Rule("connections are broken in every way (kills, resets, stalls, garbage, client errors, write cuts, refused dials, sockets that fail right after opening) under traffic; at quiet moments the open sockets are counted, and again after Close; distinct = distinct sequence of faults and connections")
	quiet := func(t *T, e *Env, m int, why string) bool {
		if !t.Until(func() bool { return e.Srv.Open() <= m }) {
			t.Fail("leak", "%s: %d sockets are open for %d pool slots", why, e.Srv.Open(), m)
			return false
		}
		return true
	}
	c.Run("faults", c.N(800, 20000), func(t *T) {
		r := t.R
		cfg := randCfg(r).tame(50_000)
		t.Desc("%v", cfg)
		var on atomic.Bool
		on.Store(true)
		var faults atomic.Int64
		var e *Env
		e = newEnv(t, cfg, EnvOpt{NoStart: true,
			Handler: func(s *fake.Session, c *fake.Cmd) fake.Reply {
				rep := oracleHandler(s, c)
				if on.Load() && e.draw(8) == 0 {
					faults.Add(1)
					switch e.draw(6) {
					case 0:
						rep.Close = true
					case 1:
						rep.Reset = true
					case 2:
						rep = e.stalled(rep)
					case 3:
						rep.Data = []byte("CLIENT_ERROR no\r\n")
					case 4:
						rep.Data = []byte("WHAT\r\n")
						rep.Close = true
					case 5:
						rep.Data = append(rep.Data, "HD\r\nEN\r\nXX\r\n"...)
					}
				}
				return rep
			},
			Tweak: func(o *fake.Options) {
				o.Dial = func(n int) error {
					if on.Load() && e.draw(5) == 0 {
						return fake.ErrRefused
					}
					return nil
				}
				o.OnConn = func(s *fake.Session) {
					if !on.Load() {
						return
					}
					switch e.draw(8) {
					case 0:
						faults.Add(1)
						s.Client.FailWritesAfter(int64(e.draw(200)), syscall.EPIPE)
					case 1:
						faults.Add(1)
						_ = s.M.Close()
					}
				}
			}})
		e.Faulty, e.Probes = true, true
		e.start(memcache.WithHealthCheckDuration(pick(r, time.Hour, time.Millisecond)))
		t.Cleanup(e.Close)
		g := GenSpec{MaxSize: 30, ErrPct: 5, MissPct: 20, KindWts: [7]int{4, 2, 3, 2, 1, 0, 0}}
		for k := 0; k < 3; k++ {
			on.Store(true)
			stop := e.nudge()
			for j := 0; j < 3; j++ {
				e.burst(1+r.IntN(15), pick(r, 1, 4), g).Wait()
			}
			stop()
			on.Store(false)
			if !quiet(t, e, cfg.Conns, "after faults") {
				return
			}
		}
		e.Close()
		if n := e.Srv.Open(); n != 0 {
			t.Fail("leak", "%d sockets are open after Close", n)
		}
		t.Count("faults_injected", faults.Load())
		t.Count("connections", int64(len(e.Srv.Sessions())))
		t.Count("peak_open_summed", int64(e.Srv.MaxOpen()))
		t.Distinct(len(e.Srv.Sessions()), e.signature())
		t.Sample("%s faults=%d connections=%d", t.getDesc(), faults.Load(), len(e.Srv.Sessions()))
	})
	c.Run("auth", c.N(160, 3000), func(t *T) {
		// connections whose authentication fails in every way, between others that succeed
		r := t.R
		cfg := randCfg(r).tame(30_000)
		cfg.Conns = 1 + r.IntN(4)
		var fates []int
		for i := 0; i < 1+r.IntN(12); i++ {
			fates = append(fates, r.IntN(len(authModes)+2))
		}
		bad := func(id int) *authMode {
			if id < len(fates) && fates[id] < len(authModes) {
				return &authModes[fates[id]]
			}
			return nil
		}
		t.Desc("%v authentications end like %v", cfg, fates)
		e := newEnv(t, cfg, EnvOpt{NoStart: true, Handler: func(s *fake.Session, c *fake.Cmd) fake.Reply {
			if c.Verb != "auth" {
				return oracleHandler(s, c)
			}
			m := bad(s.ID)
			if m == nil {
				return fake.Reply{Data: []byte("STORED\r\n")}
			}
			return fake.Reply{Data: m.reply(uint64(s.ID)), Close: m.close, Reset: m.reset, Stall: m.stall || (!m.close && !m.reset)}
		}})
		e.Faulty = true
		auth, err := netconn.NewPasswordAuth("user", "pass")
		if err != nil {
			t.Inconclusive("NewPasswordAuth: %v", err)
			return
		}
		e.start(memcache.WithDialFunc(auth.GetDialFunc(e.Srv.Dial)))
		t.Cleanup(e.Close)
		for k := 0; k < 1+r.IntN(2); k++ {
			for i := 0; i < 2000 && (int(e.Srv.Dials()) < len(fates) || e.alive() < cfg.Conns); i++ {
				_, _ = e.Cl.Pipeline().Version()()
				t.Tick()
				if i > 20 {
					time.Sleep(time.Millisecond)
				}
			}
			if !quiet(t, e, cfg.Conns, "after failed authentications") {
				return
			}
			e.Srv.KillAll(r.IntN(2) == 0)
		}
		e.Close()
		if n := e.Srv.Open(); n != 0 {
			t.Fail("leak", "%d sockets are open after Close", n)
		}
		t.Count("authentications", int64(len(e.Srv.Sessions())))
		t.Distinct(cfg.String(), fmt.Sprint(fates))
		t.Sample("%s: %d connections", t.getDesc(), len(e.Srv.Sessions()))
	})
	c.Run("closing", c.N(400, 8000), func(t *T) {
		// a reconnection completes while the client is being closed
		r := t.R
		cfg := randCfg(r)
		t.Desc("%v Close while reconnecting", cfg)
		var block atomic.Bool
		gate := make(chan struct{})
		e := newEnv(t, cfg, EnvOpt{Tweak: func(o *fake.Options) {
			o.Dial = func(int) error {
				if block.Load() {
					<-gate
				}
				return nil
			}
		}})
		var once sync.Once
		t.Cleanup(func() { once.Do(func() { close(gate) }); e.Close() })
		e.Faulty = true
		block.Store(true)
		e.Srv.KillAll(true)
		e.burst(2*cfg.Conns, 1, defaultGen).Wait()
		t.Until(func() bool { return e.Srv.Dials() > int64(cfg.Conns) })
		done := make(chan struct{})
		go func() { defer close(done); _ = e.Cl.Close() }()
		if r.IntN(3) > 0 {
			time.Sleep(time.Duration(r.IntN(1500)) * time.Microsecond)
		}
		once.Do(func() { close(gate) })
		<-done
		if !t.Until(func() bool { return e.Srv.Open() == 0 }) {
			t.Fail("leak", "%d sockets are open after Close", e.Srv.Open())
		}
		t.Distinct(cfg.String(), e.Srv.Dials())
	})
	c.Run("dialsetup", c.N(24, 200), func(t *T) {
		// the connection attempt fails after the socket was opened: keep-alive of a real TCP
		// socket cannot be set to more than 32767 seconds
		r := t.R
		srv := fake.New(fake.Options{Handler: oracleHandler})
		addr, err := srv.ListenTCP()
		if err != nil {
			t.Inconclusive("cannot listen: %v", err)
			return
		}
		defer srv.Stop()
		probe, err := net.Dial("tcp", addr)
		if err != nil {
			t.Inconclusive("cannot dial: %v", err)
			return
		}
		long := time.Duration(33000+r.IntN(100000)) * time.Second
		if probe.(*net.TCPConn).SetKeepAlivePeriod(long) == nil {
			probe.Close()
			t.Inconclusive("this kernel accepts a keep-alive of %v", long)
			return
		}
		probe.Close()
		var mu sync.Mutex
		var conns []net.Conn
		dial := func(network, address string, timeout time.Duration) (net.Conn, error) {
			c, err := net.DialTimeout(network, address, timeout)
			if err == nil {
				mu.Lock()
				conns = append(conns, c)
				mu.Unlock()
			}
			return c, err
		}
		open := func() (n, total int) {
			mu.Lock()
			defer mu.Unlock()
			for _, c := range conns {
				if c.SetDeadline(time.Now().Add(time.Hour)) == nil {
					n++
				}
			}
			return n, len(conns)
		}
		m := 1 + r.IntN(3)
		t.Desc("keep-alive %v cannot be set, %d slots", long, m)
		cl, err := memcache.New(addr, m, memcache.WithDialFunc(dial), memcache.WithTCPKeepAliveDuration(long), memcache.WithRetryDuration(time.Millisecond), memcache.WithDialErrorLogger(func(error) {}))
		if err != nil {
			t.Fail("new", "New failed: %v", err)
			return
		}
		t.Until(func() bool {
			_, _ = cl.Pipeline().Version()() // a slot that never was connected dials when used
			_, n := open()
			return n >= 4*m
		})
		if !t.Until(func() bool { n, _ := open(); return n <= m }) {
			n, total := open()
			t.Fail("leak", "%d of %d sockets of failed connection attempts are still open", n, total)
		}
		_ = cl.Close()
		if !t.Until(func() bool { n, _ := open(); return n == 0 }) {
			n, _ := open()
			t.Fail("leak", "%d sockets are open after Close", n)
		}
		mu.Lock()
		for _, c := range conns {
			_ = c.Close()
		}
		n := len(conns)
		mu.Unlock()
		t.Count("failed_attempts", int64(n))
		t.Distinct(m, long, n)
		t.Sample("%s: %d attempts", t.getDesc(), n)
	})
}

var _ = netconn.WithReadTimeout
var _ memconn.Hooks
