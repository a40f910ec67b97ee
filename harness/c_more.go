package main

import (
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/QuangTung97/go-memcache/memcache"
	"github.com/QuangTung97/go-memcache/memcache/netconn"

	"verifharness/fake"
	"verifharness/memconn"
)

func init() {
	registry["C29"] = runC29
	registry["C30"] = runC30
	registry["C31"] = runC31
	aliases["C30"] = []string{"C01"}
}

// --------------------------------------------------------------------------- C29

// dialLog records every dial of a client and judges it at once.
type dialLog struct {
	t        *T
	slots    int
	retry    time.Duration
	mu       sync.Mutex
	setup    bool // New is running: initial dials
	inflight int
	opened   int           // connections handed out and not closed by the client
	ready    []time.Time   // per slot whose last dial failed: when it may dial again
	slow     time.Duration // some dials take up to this long
	rnd      *rand.Rand
	shared   *dialErr // if set, the value of every failure
	returned map[*dialErr]int
	logged   map[*dialErr]int
	starts   int
	fails    int
	minGap   time.Duration
	closed   bool
}

// dialErr marks the errors of the monitored dial function. Their text does not tell them apart, and
// in some cases one value stands for many failures.
type dialErr struct {
	n     int
	cause error
}

func (e *dialErr) Error() string { return fmt.Sprint("dial: ", e.cause) }
func (e *dialErr) Unwrap() error { return e.cause }

func newDialLog(t *T, slots int, retry time.Duration) *dialLog {
	l := &dialLog{t: t, slots: slots, retry: retry, returned: map[*dialErr]int{}, logged: map[*dialErr]int{}, setup: true}
	if t.R.IntN(2) == 0 {
		l.slow = time.Duration(1+t.R.IntN(4)) * retry
	}
	l.rnd = rand.New(rand.NewPCG(t.R.Uint64(), 29))
	if t.R.IntN(3) == 0 {
		l.shared = &dialErr{1, fake.ErrRefused}
	}
	return l
}

// wrap makes the dial function that the client is given.
func (l *dialLog) wrap(addr string, dial netconn.DialFunc) netconn.DialFunc {
	return func(network, address string, timeout time.Duration) (net.Conn, error) {
		begin := time.Now()
		slow := time.Duration(0)
		l.mu.Lock()
		if l.slow > 0 && l.rnd.IntN(3) == 0 {
			slow = time.Duration(l.rnd.Int64N(int64(l.slow)))
		}
		l.starts++
		n := l.starts
		if network != "tcp" || address != addr {
			l.t.Fail("dial-target", "dial %d goes to %q %q, the client was made for %q", n, network, address, addr)
		}
		if timeout <= 0 || timeout > time.Minute {
			l.t.Fail("dial-timeout", "dial %d has a connect timeout of %v", n, timeout)
		}
		if l.closed {
			l.t.Fail("dial-after-close", "dial %d begins after Close returned", n)
		}
		if l.opened+l.inflight >= l.slots {
			l.t.Fail("dial-surplus", "dial %d begins while %d connections are open and %d are being dialed, in a pool of %d", n, l.opened, l.inflight, l.slots)
		}
		// Which slot dials is unknown. Slots that hold a connection, are dialing or have to wait
		// cannot be the one; some other slot must be left.
		var wait []time.Time
		for _, at := range l.ready {
			if at.After(begin.Add(l.retry / 10)) {
				wait = append(wait, at)
			} else if g := l.retry + begin.Sub(at); l.minGap == 0 || g < l.minGap {
				l.minGap = g
			}
		}
		l.ready = wait
		if len(wait) > 0 && l.opened+l.inflight+len(wait) >= l.slots {
			l.t.Fail("retry-early", "dial %d begins although %d of %d slots are connected or dialing and the others had a dial that failed less than %v ago", n, l.opened+l.inflight, l.slots, l.retry)
		}
		l.inflight++
		l.mu.Unlock()

		time.Sleep(slow)
		nc, err := dial(network, address, timeout)

		l.mu.Lock()
		l.inflight--
		if err != nil {
			l.fails++
			de := l.shared
			if de == nil {
				de = &dialErr{n, err}
			}
			err = de
			l.returned[de]++
			if !l.setup {
				l.ready = append(l.ready, time.Now().Add(l.retry))
			}
		} else {
			l.opened++
		}
		l.mu.Unlock()
		if m, ok := nc.(*memconn.Conn); ok && err == nil {
			m.OnClose(func() { l.mu.Lock(); l.opened--; l.mu.Unlock() })
		}
		return nc, err
	}
}

// log is the client's dial error logger.
func (l *dialLog) log(err error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	var de *dialErr
	if !errors.As(err, &de) {
		l.t.Fail("logged", "the dial error logger was given %v, which no dial returned", err)
		return
	}
	l.logged[de]++
	if l.logged[de] > l.returned[de] {
		l.t.Fail("logged", "an error returned by %d dials (first %d) was logged %d times", l.returned[de], de.n, l.logged[de])
	}
}

// end compares, after Close, what was logged with what was returned.
func (l *dialLog) end() {
	l.mu.Lock()
	defer l.mu.Unlock()
	for err := range l.returned {
		if l.logged[err] != l.returned[err] {
			l.t.Fail("logged", "%d failed dials, %d of them logged: %v", l.returned[err], l.logged[err], err)
			return
		}
	}
	l.t.Count("dials", int64(l.starts))
	l.t.Count("dials_failed", int64(l.fails))
	for _, n := range l.logged {
		l.t.Count("errors_logged", int64(n))
	}
}

func runC29(c *Ctx) {
	c.Rule("pools of 1..8 slots with retry intervals of 1..25 ms under random histories of killed connections, refused dials (many kinds of error), refused authentication, servers down from the start, with probes and traffic; every dial is judged when it begins (target, timeout, number of connections, distance from the failure before), the error log when the client is closed; distinct = distinct configuration, history and dial count")
	c.Run("history", c.N(1200, 20000), func(t *T) {
		r := t.R
		cfg := Cfg{Conns: pick(r, 1, 1, 1, 2, 3, 5, 8), Procs: pick(r, 1, 2, 4, 8), Perturb: pick(r, uint32(0), 5, 50, 500), Limit: 100, MaxBatch: 16}
		retry := time.Duration(1+r.IntN(pick(r, 4, 12, 25))) * time.Millisecond
		auth := r.IntN(3) == 0
		var mode atomic.Value
		mode.Store("up")
		downAtStart := r.IntN(4) == 0
		if downAtStart {
			mode.Store("down")
		}
		var e *Env
		var l *dialLog
		oh := oracleHandler
		e = newEnv(t, cfg, EnvOpt{NoStart: true, Handler: func(s *fake.Session, c *fake.Cmd) fake.Reply {
			if mode.Load() == "breaks" && mix(uint64(s.ID*1000+c.Pos))%4 == 0 {
				return fake.Reply{Close: true}
			}
			return oh(s, c)
		}, Tweak: func(o *fake.Options) {
			o.Dial = func(n int) error {
				switch mode.Load() {
				case "down":
					return fake.ErrRefused
				case "partly":
					if mix(uint64(n))%3 > 0 {
						return fake.ErrRefused
					}
				}
				return nil
			}
		}})
		e.Faulty, e.Probes = true, true
		l = newDialLog(t, cfg.Conns, retry)
		addr := fmt.Sprintf("cache-%d.example:%d", r.IntN(100), 1+r.IntN(65535))
		dial := netconn.DialFunc(e.Srv.Dial)
		if auth {
			// an authentication that is refused is a failed dial like any other
			dial = func(network, address string, timeout time.Duration) (net.Conn, error) {
				nc, err := e.Srv.Dial(network, address, timeout)
				if err == nil && mode.Load() == "noauth" {
					_ = nc.Close()
					return nil, netconn.ErrInvalidUsernamePassword
				}
				return nc, err
			}
		}
		health := time.Duration(pick(r, 500, 2000, 1000_000_000)) * time.Microsecond
		opts := []memcache.Option{
			memcache.WithRetryDuration(retry),
			memcache.WithHealthCheckDuration(health),
			memcache.WithDialErrorLogger(l.log),
			memcache.WithNetConnOptions(netconn.WithReadTimeout(far), netconn.WithWriteTimeout(far)),
			memcache.WithDialFunc(l.wrap(addr, dial)),
			memcache.WithMaxCommandsPerBatch(cfg.MaxBatch), memcache.WithWriteLimit(cfg.Limit),
		}
		r.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
		cl, err := memcache.New(addr, cfg.Conns, opts...)
		if err != nil {
			t.Fail("new", "New: %v", err)
			return
		}
		e.Cl = cl
		l.mu.Lock()
		l.setup = false
		if l.starts < cfg.Conns || l.starts > cfg.Conns && !downAtStart {
			t.Fail("initial-dials", "%d dials for a pool of %d", l.starts, cfg.Conns)
		}
		l.mu.Unlock()
		t.Cleanup(e.Close)
		killed := map[int]bool{}
		var hist []string
		traffic := func(stopAt func() bool) bool { // operations until the condition holds
			return t.Until(func() bool {
				for i := 0; i < cfg.Conns; i++ {
					_, _ = e.Cl.Pipeline().Version()()
				}
				return stopAt()
			})
		}
		dialsNow := func() int { l.mu.Lock(); defer l.mu.Unlock(); return l.starts }
		breaks := false
		for k := 0; k < 2+r.IntN(4) && !t.failed.Load(); k++ {
			m := pick(r, "kill", "kill", "down", "down", "partly", "breaks", "quiet")
			if auth && r.IntN(3) == 0 {
				m = "noauth"
			}
			hist = append(hist, m)
			t.Desc("%v retry=%v health=%v downAtStart=%v %v", cfg, retry, health, downAtStart, hist)
			d0 := dialsNow()
			switch m {
			case "kill", "down", "partly", "noauth":
				if m != "kill" {
					mode.Store(m)
				}
				for _, s := range e.Srv.Sessions() {
					if !s.Client.Closed() && r.IntN(3) > 0 {
						killed[s.ID] = true
						if r.IntN(2) == 0 {
							s.M.Reset()
						} else {
							_ = s.M.Close()
						}
					}
				}
				n := 1 + r.IntN(4)*cfg.Conns
				if len(killed) == 0 && !downAtStart {
					break
				}
				if m == "kill" {
					n = 1
				}
				stop := time.Now().Add(time.Duration(n+1) * retry)
				traffic(func() bool { return dialsNow() >= d0+n || time.Now().After(stop) })
			case "breaks":
				breaks = true
				mode.Store(m)
				e.burst(1+r.IntN(12), 4, smallGen).Wait()
			case "quiet":
				e.burst(1+r.IntN(12), 4, smallGen).Wait()
			}
			mode.Store("up")
			if r.IntN(2) == 0 {
				traffic(func() bool { return e.alive() == cfg.Conns })
			}
		}
		mode.Store("up")
		if r.IntN(3) > 0 && !breaks && traffic(func() bool { return e.alive() == cfg.Conns }) {
			// nothing that still works may be replaced
			d0 := dialsNow()
			e.burst(1+r.IntN(20), 4, smallGen).Wait()
			if d := dialsNow(); d != d0 {
				t.Fail("healthy-replaced", "%d dials while every connection worked, after %v", d-d0, hist)
			}
		}
		if !breaks {
			for _, s := range e.Srv.Sessions() {
				if s.Client.Closed() && !killed[s.ID] && !auth {
					t.Fail("healthy-closed", "connection %d was closed by the client although nothing was wrong with it, after %v", s.ID, hist)
					break
				}
			}
		}
		_ = e.Cl.Close()
		l.mu.Lock()
		l.closed = true
		l.mu.Unlock()
		l.end()
		e.Srv.Stop()
		t.Distinct(cfg.String(), retry, auth, fmt.Sprint(hist), dialsNow())
		t.Sample("%s: %d dials, %d failed, smallest distance from a failure %v", t.getDesc(), l.starts, l.fails, l.minGap)
	})
	c.Run("down", c.N(160, 2400), func(t *T) {
		// a server that stays down is dialed at the configured pace whatever the demand
		r := t.R
		cfg := Cfg{Conns: pick(r, 1, 2, 4), Procs: pick(r, 1, 2, 4), Perturb: pick(r, uint32(0), 50), Limit: 100, MaxBatch: 16}
		retry := time.Duration(5+r.IntN(20)) * time.Millisecond
		var down atomic.Bool
		down.Store(r.IntN(2) == 0)
		startDown := down.Load()
		e := newEnv(t, cfg, EnvOpt{NoStart: true, Tweak: func(o *fake.Options) {
			o.Dial = func(int) error {
				if down.Load() {
					return fake.ErrRefused
				}
				return nil
			}
		}})
		e.Faulty, e.Probes = true, true
		l := newDialLog(t, cfg.Conns, retry)
		health := time.Duration(pick(r, 200, 1000, 1000_000_000)) * time.Microsecond
		workers := 1 + r.IntN(8)
		t.Desc("%v retry=%v health=%v start down=%v workers=%d", cfg, retry, health, startDown, workers)
		e.start(memcache.WithRetryDuration(retry), memcache.WithHealthCheckDuration(health), memcache.WithDialErrorLogger(l.log),
			memcache.WithDialFunc(l.wrap("fake:11211", e.Srv.Dial)))
		t.Cleanup(e.Close)
		l.mu.Lock()
		l.setup = false
		l.mu.Unlock()
		if !startDown {
			down.Store(true)
			e.Srv.KillAll(r.IntN(2) == 0)
		}
		begin := time.Now()
		want := 3 + r.IntN(6)
		var ops atomic.Int64
		e.parallel(workers, func(_ int, r *rand.Rand) {
			for time.Since(begin) < time.Duration(want)*retry && !t.failed.Load() {
				pl := e.Cl.Pipeline()
				for i := 0; i < 1+r.IntN(20); i++ {
					pl.MGet("k", memcache.MGetOptions{})
				}
				pl.Finish()
				ops.Add(1)
				t.Tick()
				if r.IntN(50) == 0 {
					time.Sleep(time.Duration(r.IntN(300)) * time.Microsecond)
				}
			}
		})
		el := time.Since(begin)
		l.mu.Lock()
		n := l.starts
		l.mu.Unlock()
		// per slot: the first dial, one at once after the failure noticed, then one per interval
		if lim := cfg.Conns * (3 + int(el/retry)); n > lim {
			t.Fail("retry-early", "%d dials in %v for %d slots with a retry duration of %v", n, el, cfg.Conns, retry)
		}
		down.Store(false)
		if !t.Until(func() bool {
			for i := 0; i < cfg.Conns; i++ {
				_, _ = e.Cl.Pipeline().Version()()
			}
			return e.alive() == cfg.Conns
		}) {
			t.FailP("C11", "not-repaired", "%d of %d connections after the server came back", e.alive(), cfg.Conns)
		}
		_ = e.Cl.Close()
		l.mu.Lock()
		l.closed = true
		l.mu.Unlock()
		l.end()
		e.Srv.Stop()
		t.Count("operations_while_down", ops.Load())
		t.Distinct(cfg.String(), retry, health, startDown, n)
		t.Sample("%s: %d dials in %v under %d pipelines", t.getDesc(), n, el, ops.Load())
	})
}

// --------------------------------------------------------------------------- C30

func runC30(c *Ctx) {
	c.Rule("pools of 2..7 connections of which some are sick (replies withheld, requests unread, dial hanging, dial refused, every reply garbage, every reply an error, silent until the timeout) while many callers use them: everything on the healthy connections completes without error and right; several clients in one process, one of them sick, being closed or created again and again; distinct = distinct configuration, sickness and arrival order")
	largeGen := smallGen
	largeGen.MaxSize = 100_000
	c.Run("connections", c.N(800, 16000), func(t *T) {
		r := t.R
		cfg := randCfg(r).tame(50_000)
		cfg.Conns = 2 + r.IntN(6)
		nsick := 1 + r.IntN(cfg.Conns-1)
		kind := pick(r, "withhold", "withhold", "noread", "dialhang", "refuse", "garbage", "clienterror", "closes", "stalls", "halfvalue", "logger")
		if kind == "noread" {
			cfg.C2S = pick(r, 64, 300, 4096)
		}
		health := time.Hour
		if r.IntN(3) == 0 {
			health = time.Duration(200+r.IntN(2000)) * time.Microsecond
		}
		gen := smallGen
		if kind != "noread" && r.IntN(4) == 0 {
			gen = largeGen
			cfg = cfg.tame(500_000)
		}
		per := 1 + r.IntN(12) // sick callers per connection
		if (kind == "withhold" || kind == "noread" || kind == "halfvalue") && r.IntN(4) == 0 {
			per = 60 + r.IntN(240)/nsick
		}
		half := pick(r, 200, 5000, 70_000, 1_100_000)
		t.Desc("%v %d connections sick: %s, %d callers on each, probes every %v", cfg, nsick, kind, per, health)
		var mu sync.Mutex
		sick, begun := map[int]bool{}, map[int]bool{}
		sickOn := false
		isSick := func(id int) bool {
			mu.Lock()
			defer mu.Unlock()
			return sickOn && (sick[id] || id >= cfg.Conns)
		}
		release := make(chan struct{})
		var dialsHeld, held atomic.Int64
		e := newEnv(t, cfg, EnvOpt{NoStart: true,
			Handler: func(s *fake.Session, c *fake.Cmd) fake.Reply {
				rep := oracleHandler(s, c)
				if !isSick(s.ID) {
					return rep
				}
				held.Add(1)
				switch kind {
				case "withhold":
					<-release
				case "halfvalue":
					// a value that begins and does not end
					if c.Verb != "mg" {
						return rep
					}
					mu.Lock()
					first := !begun[s.ID]
					begun[s.ID] = true
					mu.Unlock()
					if !first {
						<-release
					}
					rep = fake.Reply{Data: append([]byte(fmt.Sprintf("VA %d\r\n", half)), make([]byte, half/2)...)}
				case "garbage":
					rep.Data = []byte("\x00 nonsense\r\n")
				case "clienterror":
					rep.Data = []byte("CLIENT_ERROR no\r\n")
				case "closes":
					rep = fake.Reply{Close: true}
				case "stalls":
					rep = fake.Reply{Stall: true}
				}
				return rep
			},
			Tweak: func(o *fake.Options) {
				o.Dial = func(int) error {
					mu.Lock()
					on := sickOn
					mu.Unlock()
					if on && (kind == "refuse" || kind == "logger") {
						return fake.ErrRefused
					}
					if on && kind == "dialhang" {
						dialsHeld.Add(1)
						<-release
					}
					return nil
				}
				o.ReadPause = func(s *fake.Session) {
					if kind == "noread" && isSick(s.ID) {
						<-release
					}
				}
			}})
		e.Faulty, e.Probes = true, true
		opts := []memcache.Option{memcache.WithHealthCheckDuration(health)}
		if kind == "logger" {
			// an error logger that takes long holds up its own slot only
			opts = append(opts, memcache.WithDialErrorLogger(func(error) { dialsHeld.Add(1); <-release }))
		}
		e.start(opts...)
		var once sync.Once
		heal := func() {
			once.Do(func() {
				mu.Lock()
				sickOn = false
				mu.Unlock()
				close(release)
				if kind == "noread" || kind == "withhold" {
					return
				}
				for _, s := range e.Srv.Sessions() {
					if sick[s.ID] || s.ID >= cfg.Conns {
						_ = s.M.Close()
					}
				}
			})
		}
		t.Cleanup(func() { heal(); e.Close() })
		// pipelines whose connection is known
		byConn := map[int][]*memcache.Pipeline{}
		for i := 0; i < cfg.Conns*(per+4); i++ {
			pl := e.Cl.Pipeline()
			id, err := e.usedConn(pl)
			if err != nil {
				t.Fail("dragged-along", "operation before any fault: %v", err)
				return
			}
			byConn[id] = append(byConn[id], pl)
			t.Tick()
		}
		ids := r.Perm(cfg.Conns)
		mu.Lock()
		for _, id := range ids[:nsick] {
			sick[id] = true
		}
		sickOn = true
		mu.Unlock()
		for _, s := range e.Srv.Sessions() {
			if (kind == "dialhang" || kind == "refuse" || kind == "logger") && sick[s.ID] {
				_ = s.M.Close()
			}
		}
		var wg sync.WaitGroup
		stop := make(chan struct{})
		var sickDone atomic.Int64
		seed := r.Uint64()
		for _, id := range ids[:nsick] {
			for _, pl := range byConn[id] {
				wg.Add(1)
				go func() {
					defer wg.Done()
					r := rand.New(rand.NewPCG(seed, uint64(sickDone.Add(1))))
					for {
						n := 1 + r.IntN(60)
						for i := 0; i < n; i++ {
							switch r.IntN(3) {
							case 0:
								pl.MGet("sick", memcache.MGetOptions{})
							case 1:
								pl.MSet("sick", make([]byte, r.IntN(300)), memcache.MSetOptions{})
							default:
								pl.Version()
							}
						}
						pl.Finish()
						sickDone.Add(1)
						select {
						case <-stop:
							return
						default:
							// most kinds of sickness fail at once: leave the processor to the others
							time.Sleep(time.Duration(per*nsick*r.IntN(40)) * time.Microsecond)
						}
					}
				}()
			}
		}
		if kind == "withhold" || kind == "noread" || kind == "dialhang" || kind == "halfvalue" {
			// let the sick callers get stuck first, most of the time
			if r.IntN(4) > 0 {
				t.Settle(sickDone.Load)
			}
		}
		var ok, bad atomic.Int64
		var hw sync.WaitGroup
		for _, id := range ids[nsick:] {
			for k, pl := range byConn[id] {
				if gen.MaxSize > 1000 && k > 8 {
					break // enough callers with large values
				}
				hw.Add(1)
				go func() {
					defer hw.Done()
					r := rand.New(rand.NewPCG(seed, uint64(id*1000+k)))
					pipe := int(e.pipes.Add(1))
					idx := 0
					for s := 0; s < 3+r.IntN(4) && !t.failed.Load(); s++ {
						var ops []*Op
						for i := 0; i < 1+r.IntN(25); i++ {
							o := e.genOp(r, gen, pipe, idx)
							idx++
							e.issue(pl, o, gen, r)
							ops = append(ops, o)
						}
						if r.IntN(2) == 0 {
							pl.Execute()
						}
						for _, o := range ops {
							e.get(o)
							if o.Err != nil && !memcache.IsServerError(o.Err) {
								bad.Add(1)
								t.Fail("dragged-along", "%v on healthy connection %d: %v (sick: %s)", o, id, o.Err, kind)
								return
							}
							ok.Add(1)
						}
					}
				}()
			}
		}
		hw.Wait()
		for _, id := range ids[nsick:] {
			if s := e.Srv.Sessions()[id]; s.Client.Closed() {
				t.Fail("dragged-along", "healthy connection %d was closed by the client (sick: %s)", id, kind)
			}
		}
		close(stop)
		heal()
		wg.Wait()
		t.Count("operations_beside_sick_connections", ok.Load())
		t.Count("commands_held", held.Load())
		t.Count("dials_held", dialsHeld.Load())
		t.Distinct(cfg.String(), kind, nsick, e.signature())
		t.Sample("%s: %d good operations", t.getDesc(), ok.Load())
	})
	c.Run("clients", c.N(160, 6000), func(t *T) {
		r := t.R
		cfgA, cfgB := randCfg(r).tame(100_000), randCfg(r).tame(100_000)
		cfgB.Procs, cfgB.Perturb, cfgB.Poison = cfgA.Procs, cfgA.Perturb, cfgA.Poison
		kind := pick(r, "withhold", "down", "garbage", "closing", "closing", "stalls", "dialhang", "dialhang", "halfvalue", "logger")
		t.Desc("one client %v (%s), another %v", cfgA, kind, cfgB)
		release := make(chan struct{})
		half := pick(r, 200, 5000, 70_000, 1_100_000)
		var sickOps, held, logs atomic.Int64
		var hang atomic.Bool
		a := newEnv(t, cfgA, EnvOpt{NoStart: true, Handler: func(s *fake.Session, c *fake.Cmd) fake.Reply {
			rep := oracleHandler(s, c)
			switch kind {
			case "withhold":
				<-release
			case "halfvalue":
				if c.Verb != "mg" {
					break
				}
				if s.Aux != nil {
					<-release
				}
				select {
				case <-release: // connections made after the sickness are well
				default:
					s.Aux = true
					rep.Data = append([]byte(fmt.Sprintf("VA %d\r\n", half)), make([]byte, half/2)...)
				}
			case "garbage":
				rep.Data = append([]byte("?"), "what is this\r\n"...)
			case "stalls":
				rep = fake.Reply{Stall: true}
			}
			return rep
		}, Tweak: func(o *fake.Options) {
			o.Dial = func(int) error {
				if hang.Load() {
					held.Add(1)
					<-release
				}
				if kind == "down" || kind == "logger" {
					return fake.ErrRefused
				}
				return nil
			}
		}})
		a.Faulty = true
		b := newEnv(t, cfgB, EnvOpt{NoStart: true})
		before := r.IntN(2) == 0
		if before {
			b.start()
		}
		if kind == "logger" {
			a.start(memcache.WithDialErrorLogger(func(error) {
				if logs.Add(1) > int64(cfgA.Conns) {
					<-release
				}
			}))
		} else {
			a.start()
		}
		var mu sync.Mutex
		done := false
		acl := a.Cl
		var wg sync.WaitGroup
		finish := func() {
			mu.Lock()
			was := done
			done = true
			mu.Unlock()
			if !was {
				hang.Store(false)
				close(release)
				if kind == "halfvalue" {
					a.Srv.KillAll(true)
				}
			}
		}
		t.Cleanup(func() {
			finish()
			wg.Wait()
			a.Close()
			if b.Cl != nil {
				b.Close()
			}
		})
		isDone := func() bool { mu.Lock(); defer mu.Unlock(); return done }
		seed := r.Uint64()
		for i := 0; i < 1+r.IntN(6); i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := rand.New(rand.NewPCG(seed, uint64(i)))
				var x *memcache.Client
				for !isDone() {
					mu.Lock()
					x = acl
					mu.Unlock()
					pl := x.Pipeline()
					n := 1 + r.IntN(40)
					var fns []func() (memcache.MGetResponse, error)
					for i := 0; i < n; i++ {
						p := Plan{ID: a.nextID.Add(1), Code: 'V', Size: r.IntN(300)}
						fns = append(fns, pl.MGet(p.key("x"), memcache.MGetOptions{CAS: true}))
						if r.IntN(3) == 0 {
							pl.MSet(p.key("s"), make([]byte, r.IntN(300)), memcache.MSetOptions{})
						}
					}
					for _, fn := range fns {
						if res, err := fn(); err == nil && r.IntN(2) == 0 {
							memcache.ReleaseGetResponseData(res.Data)
						}
						sickOps.Add(1)
					}
					pl.Finish()
					if sickOps.Load() > 20_000 { // enough: leave the processor to the other client
						time.Sleep(5 * time.Millisecond)
					}
					time.Sleep(time.Duration(r.IntN(300)) * time.Microsecond)
				}
			}()
		}
		if kind == "closing" {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for !isDone() {
					_ = a.Cl.Close()
					a.start()
					mu.Lock()
					acl = a.Cl
					mu.Unlock()
					time.Sleep(200 * time.Microsecond)
				}
			}()
		}
		if kind == "dialhang" {
			hang.Store(true)
			a.Srv.KillAll(r.IntN(2) == 0)
			t.Until(func() bool { return held.Load() > 0 })
		}
		if !before {
			b.start()
		}
		g := randGen(r)
		g.MaxSize = pick(r, min(g.MaxSize, 2000), min(g.MaxSize, 2000), 100_000)
		if cfgB.ReadMax > 0 || cfgB.SplitMax > 0 {
			g.MaxSize = min(g.MaxSize, 5000) // byte by byte beside a busy client takes too long
		}
		ps := ProgSpec{Pipelines: 3 + r.IntN(8), MaxSessions: 3, Gen: g, Len: lenAround(min(cfgB.MaxBatch, 40)), Release: true}
		b.parallel(1+r.IntN(8), func(_ int, r *rand.Rand) { b.runProgram(r, ps) })
		if d := b.Srv.Dials(); d != int64(cfgB.Conns) {
			t.Fail("dragged-along", "%d dials for %d connections of a client whose server is well, while another client is %s", d, cfgB.Conns, kind)
		}
		b.audit()
		finish()
		wg.Wait()
		t.Count("operations_of_sick_clients", sickOps.Load())
		t.Distinct(cfgA.String(), kind, cfgB.String(), b.signature())
		t.Sample("%s", t.getDesc())
	})
}

// --------------------------------------------------------------------------- C31

// leanServer answers without remembering anything.
type leanServer struct {
	oracle func(c *fake.Cmd) ([]byte, bool) // reply, whether to break the connection afterwards
	down   atomic.Bool
	broken atomic.Int64
	dials  atomic.Int64
	served atomic.Int64
	live   atomic.Int64
}

func (srv *leanServer) dial(string, string, time.Duration) (net.Conn, error) {
	srv.dials.Add(1)
	if srv.down.Load() {
		return nil, fake.ErrRefused
	}
	cl, se := memconn.Pipe(0, 32<<10, 32<<10, memconn.Hooks{})
	srv.live.Add(1)
	go func() {
		defer srv.live.Add(-1)
		defer se.Close()
		var buf []byte
		tmp := make([]byte, 8<<10)
		for {
			n, err := se.Read(tmp)
			buf = append(buf, tmp[:n]...)
			off := 0
			for off < len(buf) {
				cmd, k, perr := fake.Parse(buf[off:])
				if perr != nil {
					return
				}
				if k == 0 {
					break
				}
				off += k
				srv.served.Add(1)
				rep, cut := srv.oracle(cmd)
				if _, err := se.Write(rep); err != nil {
					return
				}
				if cut {
					srv.broken.Add(1)
					return
				}
			}
			buf = append(buf[:0], buf[off:]...)
			if err == io.EOF || err != nil {
				return
			}
		}
	}()
	return cl, nil
}

// level is what stays reachable once everything is quiet. Probes and dials that go on meanwhile
// allocate between collection and reading, so the smallest of several readings counts.
func level() (heap, objects int64) {
	var ms runtime.MemStats
	runtime.GC() // pools drop their contents in the second collection
	for i := 0; i < 5; i++ {
		runtime.GC()
		runtime.ReadMemStats(&ms)
		if h, o := int64(ms.HeapAlloc), int64(ms.HeapObjects); i > 0 {
			if i == 1 || h < heap {
				heap = h
			}
			if i == 1 || o < objects {
				objects = o
			}
		}
	}
	return heap, objects
}

func runC31(c *Ctx) {
	c.Rule("one client over thousands of operations in rounds of one kind (plain traffic, results never fetched, values kept or released, server errors, broken connections, refused dials with failing operations, health probes, clients created and closed, large values); after each round the reachable heap, its objects and the goroutines are measured and compared with the level after warming up; distinct = distinct configuration, kind and level")
	kinds := []string{"plain", "unfetched", "released", "errors", "flap", "flap", "garbage", "down", "probes", "clients", "large", "fast", "badkeys", "wide", "held", "held"}
	c.Run("rounds", c.N(256, 3200), func(t *T) {
		r := t.R
		kind := kinds[(t.Idx+t.Idx/16)%len(kinds)]
		cfg := Cfg{Conns: pick(r, 1, 1, 2, 3), Limit: pick(r, 20, 500), MaxBatch: pick(r, 1, 4, 16, 100), Procs: pick(r, 2, 4), Perturb: pick(r, uint32(0), 0, 200), Poison: r.IntN(2) == 0}
		workers := 1 + r.IntN(4)
		unit := pick(r, 1500, 3000)
		health := time.Hour
		if kind == "probes" || r.IntN(4) == 0 {
			health = 200 * time.Microsecond
		}
		t.Desc("%s: %v, %d workers, %d pipelines per round, probes every %v", kind, cfg, workers, unit, health)
		runtime.GOMAXPROCS(cfg.Procs)
		setPerturb(cfg.Perturb, cfg.Poison)
		srv := &leanServer{}
		var nth atomic.Int64
		value := make([]byte, 300<<10)
		srv.oracle = func(c *fake.Cmd) ([]byte, bool) {
			n := nth.Add(1)
			switch {
			case srv.down.Load():
				return nil, true
			case kind == "flap" && n%3 == 0:
				return nil, true
			case kind == "garbage" && n%4 == 0:
				return []byte("?what\r\n"), false
			case kind == "errors" && n%2 == 0:
				return []byte("SERVER_ERROR busy\r\n"), false
			}
			switch c.Verb {
			case "version":
				return []byte("VERSION 1.6.21\r\n"), false
			case "flush_all":
				return []byte("OK\r\n"), false
			case "mg":
				size := int(n*37) % 700
				if kind == "large" {
					size = int(n*7919) % len(value)
				}
				return fake.Hit{HasCAS: c.C, CAS: 7, Value: value[:size]}.Bytes(), false
			}
			return []byte("HD\r\n"), false
		}
		retry := time.Millisecond
		if kind == "down" {
			retry = 50 * time.Microsecond
		}
		start := func() *memcache.Client {
			cl, err := memcache.New("lean:1", cfg.Conns, memcache.WithDialFunc(srv.dial), memcache.WithRetryDuration(retry),
				memcache.WithHealthCheckDuration(health), memcache.WithDialErrorLogger(func(error) {}),
				memcache.WithWriteLimit(cfg.Limit), memcache.WithMaxCommandsPerBatch(cfg.MaxBatch), memcache.WithBufferSize(4096),
				memcache.WithNetConnOptions(netconn.WithReadTimeout(far), netconn.WithWriteTimeout(far)))
			if err != nil {
				panic("harness: " + err.Error())
			}
			return cl
		}
		cl := start()
		t.Cleanup(func() { _ = cl.Close() })
		var ops atomic.Int64
		// what a caller keeps must not keep alive what came after it
		var keep struct {
			sync.Mutex
			pipes []*memcache.Pipeline
			fns   []func() (memcache.MGetResponse, error)
			n     int
		}
		t.Cleanup(func() { runtime.KeepAlive(&keep) })
		var keyNo atomic.Int64
		pipeline := func(cl *memcache.Client, r *rand.Rand) {
			pl := cl.Pipeline()
			key := fmt.Sprintf("key-%d", keyNo.Add(1)) // no key comes twice
			n := 1 + r.IntN(8)
			if kind == "wide" {
				n = 1 + r.IntN(300)
			}
			if kind == "large" {
				n = 1
			}
			var fns []func() (memcache.MGetResponse, error)
			for i := 0; i < n; i++ {
				switch k := r.IntN(6); {
				case k < 3 && kind == "fast":
					h, err := pl.MGetFast(key, memcache.MGetOptions{N: 3})
					if err == nil {
						res, _ := h.Result()
						if r.IntN(2) == 0 {
							memcache.ReleaseGetResponseData(res.Data)
							memcache.ReleaseMGetResult(h)
						}
					}
				case k < 3:
					fns = append(fns, pl.MGet(key, memcache.MGetOptions{CAS: k == 0}))
				case k == 3:
					pl.MSet(key, value[:r.IntN(400)], memcache.MSetOptions{})
				case k == 4:
					pl.MDel(key, memcache.MDelOptions{})
				default:
					pl.Version()
				}
				if kind == "badkeys" {
					pl.MSet("bad "+key, value[:1000], memcache.MSetOptions{})
				}
			}
			ops.Add(int64(n))
			if kind == "held" {
				keep.Lock()
				if keep.n++; keep.n < 40 {
					keep.pipes = append(keep.pipes, pl)
					keep.fns = append(keep.fns, fns...)
					if keep.n%2 == 0 {
						fns = nil // kept without having been fetched
					}
				}
				keep.Unlock()
			}
			if kind != "unfetched" {
				for _, fn := range fns {
					res, err := fn()
					if err == nil && (kind == "released" || r.IntN(3) == 0) {
						memcache.ReleaseGetResponseData(res.Data)
					}
				}
			} else if r.IntN(2) == 0 {
				pl.Execute()
			}
			pl.Finish()
			t.Tick()
		}
		round := func() {
			seed := r.Uint64()
			var wg sync.WaitGroup
			srv.down.Store(false)
			if kind == "down" {
				srv.down.Store(true)
			}
			n := unit
			switch kind {
			case "clients":
				n /= 16
			case "large":
				n /= 4
			case "wide":
				n /= 8
			}
			for w := 0; w < workers; w++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					r := rand.New(rand.NewPCG(seed, uint64(w)))
					for i := 0; i < n/workers; i++ {
						if kind == "clients" {
							x := start()
							pipeline(x, r)
							_ = x.Close()
							pipeline(x, r) // fails, must leave nothing behind either
							continue
						}
						pipeline(cl, r)
					}
				}()
			}
			wg.Wait()
			if kind == "probes" {
				t.Tick()
				time.Sleep(20 * time.Millisecond)
			}
			if kind == "down" { // a long outage: hundreds of refused dials
				d := srv.dials.Load()
				t.Until(func() bool { _, _ = cl.Pipeline().Version()(); return srv.dials.Load() >= d+400 })
			}
			srv.down.Store(false)
			// every slot works again and has carried ordinary traffic last
			for i := 0; i < 6*cfg.Conns; i++ {
				ok := t.Until(func() bool { _, err := cl.Pipeline().Version()(); return err == nil })
				if !ok {
					t.FailP("C11", "not-repaired", "the client does not recover")
					return
				}
			}
			for i := 0; i < cfg.Conns; i++ {
				_, _ = cl.Pipeline().MGet("key", memcache.MGetOptions{})()
			}
		}
		// what is measured settles: goroutines of replaced connections end
		quiet := func(limit int) int {
			n := 0
			t.Until(func() bool {
				n = runtime.NumGoroutine()
				return n <= limit
			})
			return n
		}
		for i := 0; i < 2; i++ {
			round()
		}
		g0 := int(t.Settle(func() int64 { return int64(runtime.NumGoroutine()) }))
		h0, o0 := level()
		for i := 0; i < 2; i++ { // warm up until the level no longer falls
			round()
			h, o := level()
			h0, o0 = max(h0, h), max(o0, o)
			g0 = max(g0, runtime.NumGoroutine())
		}
		ops0, broken0, dials0 := ops.Load(), srv.broken.Load(), srv.dials.Load()
		var lastH, lastO int64
		rounds := 4
		if t.Thorough() {
			rounds = 12
		}
		var trail []string
		for i := 0; i < rounds && !t.failed.Load(); i++ {
			round()
			h, o := level()
			if i >= rounds-2 {
				if i == rounds-2 || h < lastH {
					lastH = h
				}
				if i == rounds-2 || o < lastO {
					lastO = o
				}
			}
			trail = append(trail, fmt.Sprintf("%d KiB/%d", h>>10, o))
		}
		dOps, dBroken, dDials := ops.Load()-ops0, srv.broken.Load()-broken0, srv.dials.Load()-dials0
		events := dOps/8 + dBroken + dDials // batches at least
		allowO := 200 + events/50
		allowH := int64(128<<10) + 4*events
		if kind == "large" {
			allowH += 700 << 10
		}
		for i := 0; i < 20 && (lastO-o0 > allowO || lastH-h0 > allowH); i++ { // look again before judging
			time.Sleep(time.Duration(i) * time.Millisecond)
			t.Tick()
			h, o := level()
			lastH, lastO = min(lastH, h), min(lastO, o)
		}
		if lastO-o0 > allowO {
			t.Fail("leak", "reachable objects grew from %d to %d during %d operations, %d broken connections and %d dials: %v", o0, lastO, dOps, dBroken, dDials, trail)
		}
		if lastH-h0 > allowH {
			t.Fail("leak", "the reachable heap grew from %d to %d bytes during %d operations, %d broken connections and %d dials: %v", h0, lastH, dOps, dBroken, dDials, trail)
		}
		if g := quiet(g0 + 2); g > g0+2 {
			t.Fail("leak", "%d goroutines after warming up, %d after %d more operations, %d broken connections and %d dials", g0, g, dOps, dBroken, dDials)
		}
		t.Count("operations", dOps)
		t.Count("connections_broken", dBroken)
		t.Count("dials", dDials)
		t.Count("levels_measured", int64(rounds))
		t.Distinct(t.getDesc(), lastH>>12)
		t.Sample("%s: heap %d KiB/%d objects at first, then %v, %d goroutines", t.getDesc(), h0>>10, o0, trail, g0)
	})
}
