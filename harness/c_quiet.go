package main

import (
	"fmt"
	"math/rand/v2"
	"net"
	"runtime"
	"slices"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/QuangTung97/go-memcache/memcache"
	"github.com/QuangTung97/go-memcache/memcache/netconn"
	"github.com/QuangTung97/go-memcache/memcache/stats"

	"verifharness/fake"
)

func init() {
	registry["C32"] = runC32
}

// spent is the processor time of this process and how often one of its threads went to sleep.
func spent() (cpu time.Duration, sleeps int64) {
	var ru syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &ru); err != nil {
		panic("harness: " + err.Error())
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano()), ru.Nvcsw
}

const quietWindow = 60 * time.Millisecond

// quiet judges a state in which nothing can be done: three windows in a row that are not quiet.
func quiet(t *T, state string) {
	runtime.GC()
	time.Sleep(5 * time.Millisecond)
	var trail []string
	var best time.Duration
	var bestSleeps int64
	for i := 0; i < 6; i++ {
		c0, s0 := spent()
		b := time.Now()
		time.Sleep(quietWindow)
		el := time.Since(b)
		c1, s1 := spent()
		t.Tick()
		cpu, sl := c1-c0, s1-s0
		trail = append(trail, fmt.Sprintf("%v/%d in %v", cpu, sl, el.Round(time.Millisecond)))
		if i == 0 || cpu*quietWindow/el < best {
			best = cpu * quietWindow / el
		}
		if n := sl * int64(quietWindow) / int64(el); i == 0 || n < bestSleeps {
			bestSleeps = n
		}
		if best < quietWindow/40 && bestSleeps < 30 {
			break
		}
	}
	if best >= quietWindow/40 {
		t.Fail("spins", "%s: at least %v of processor time in every %v while nothing can be done (%v)", state, best, quietWindow, trail)
	} else if bestSleeps >= 30 {
		t.Fail("polls", "%s: threads of the process woke up at least %d times in every %v while nothing can be done (%v)", state, bestSleeps, quietWindow, trail)
	}
	t.Count("quiet_windows", int64(len(trail)))
	t.Sample("%s: processor time / wake-ups %v", t.getDesc(), trail)
}

func runC32(c *Ctx) {
	c.Rule("quiet cases bring the client into a state in which nothing can be done (idle, replies withheld, at the write limit, receive queue full, write blocked, dial pending, pause between retries, after Close, statistics call unanswered) and measure processor time and wake-ups of the process over windows of 60 ms; prompt cases time operations of every kind and size, repeatedly, next to a plain request and reply over the same kind of connection; distinct = distinct state or operation and configuration")
	states := []string{"idle", "idle-many", "withheld", "limit", "queue", "blocked-write", "half-reply", "dial-pending", "retry-pause", "unreachable", "broken", "after-close", "executed", "limit-long", "stats", "reconnected", "between-probes"}
	c.Run("quiet", c.N(17*40, 17*400), func(t *T) { quietCase(t, states[(t.Idx+t.Idx/8)%len(states)]) })
	c.Run("prompt", c.N(1600, 24000), promptCase)
}

func quietCase(t *T, state string) {
	r := t.R
	cfg := Cfg{Conns: pick(r, 1, 1, 2, 4), Limit: pick(r, 3, 20, 500), MaxBatch: pick(r, 1, 4, 100), Procs: pick(r, 2, 4, 8)}
	switch state {
	case "blocked-write":
		cfg.C2S = 200
	case "queue":
		cfg.Limit, cfg.MaxBatch = 100_000, 1
	case "limit", "limit-long":
		cfg.Limit = pick(r, 1, 3, 20)
	case "idle-many":
		cfg.Conns = 40
	}
	t.Desc("%s: %v", state, cfg)
	release := make(chan struct{})
	var holding, down, hang atomic.Bool
	var dials, received atomic.Int64
	e := newEnv(t, cfg, EnvOpt{NoStart: true,
		Handler: func(s *fake.Session, c *fake.Cmd) fake.Reply {
			rep := oracleHandler(s, c)
			if holding.Load() {
				if state == "half-reply" && len(rep.Data) > 2 {
					rep.Data = rep.Data[:len(rep.Data)/2]
					holding.Store(false)
					return rep
				}
				<-release
			}
			return rep
		},
		Tweak: func(o *fake.Options) {
			o.Dial = func(n int) error {
				dials.Add(1)
				if hang.Load() {
					<-release
				}
				if down.Load() {
					return fake.ErrRefused
				}
				return nil
			}
			o.OnCmd = func(*fake.Session, *fake.Cmd) { received.Add(1) }
			o.ReadPause = func(*fake.Session) {
				if state == "blocked-write" && holding.Load() {
					<-release
				}
			}
		}})
	e.Faulty = true
	var opts []memcache.Option
	if state == "retry-pause" || state == "unreachable" {
		opts = append(opts, memcache.WithRetryDuration(time.Hour))
	}
	down.Store(state == "unreachable")
	e.start(opts...)
	var wg sync.WaitGroup
	var once sync.Once
	free := func() {
		once.Do(func() {
			holding.Store(false)
			down.Store(false)
			hang.Store(false)
			close(release)
		})
	}
	var stop []func()
	t.Cleanup(func() {
		free()
		if state == "half-reply" {
			e.Srv.KillAll(true)
		}
		wg.Wait()
		for _, f := range stop {
			f()
		}
		e.Close()
		e.Srv.Stop()
	})
	if state != "unreachable" {
		e.burst(40, 4, smallGen).Wait()
	}
	waiters := func(n, cmds int) {
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				pl := e.Cl.Pipeline()
				for k := 0; k < cmds; k++ {
					pl.MGet("w", memcache.MGetOptions{})
				}
				pl.Finish()
			}()
		}
	}
	kill := func() { e.Srv.KillAll(r.IntN(2) == 0) }
	switch state {
	case "idle", "idle-many":
	case "withheld", "half-reply":
		holding.Store(true)
		waiters(1+r.IntN(5), 1+r.IntN(3))
	case "limit":
		holding.Store(true)
		waiters(100, 1+r.IntN(5))
	case "limit-long":
		holding.Store(true)
		waiters(3, 500)
	case "queue":
		holding.Store(true)
		waiters(4, 600*cfg.Conns)
	case "blocked-write":
		holding.Store(true)
		waiters(50, 10)
	case "executed":
		holding.Store(true)
		for i := 0; i < 30; i++ {
			pl := e.Cl.Pipeline()
			pl.MGet("x", memcache.MGetOptions{})
			pl.Execute()
		}
	case "dial-pending":
		hang.Store(true)
		kill()
		t.Until(func() bool {
			for i := 0; i < cfg.Conns; i++ {
				_, _ = e.Cl.Pipeline().Version()() // notices and fails
			}
			return dials.Load() >= int64(2*cfg.Conns)
		})
	case "retry-pause", "unreachable":
		down.Store(true)
		if state == "retry-pause" {
			kill()
		}
		for i := 0; i < 20*cfg.Conns; i++ {
			_, _ = e.Cl.Pipeline().Version()()
		}
	case "broken", "reconnected":
		kill()
		if state == "reconnected" {
			t.Until(func() bool {
				for i := 0; i < cfg.Conns; i++ {
					_, _ = e.Cl.Pipeline().Version()()
				}
				return e.alive() == cfg.Conns
			})
		}
	case "after-close":
		pl := e.Cl.Pipeline()
		_ = e.Cl.Close()
		pl.MGet("x", memcache.MGetOptions{})
		pl.Finish()
	case "stats":
		srv := &leanServer{oracle: func(*fake.Cmd) ([]byte, bool) { return nil, false }}
		sc := stats.New("lean:1", stats.WithNetConnOptions(
			netconn.WithDialFunc(srv.dial), netconn.WithReadTimeout(far), netconn.WithWriteTimeout(far)))
		srv2 := make(chan struct{})
		go func() { _, _ = sc.GetGeneralStats(); close(srv2) }()
		time.Sleep(5 * time.Millisecond)
		stop = append(stop, func() { _ = sc.Close() })
	case "between-probes":
		e.Probes = true
		_ = e.Cl.Close()
		e.start(memcache.WithHealthCheckDuration(time.Second))
		e.burst(10, 4, smallGen).Wait()
	}
	seen := t.Settle(received.Load)
	t.Count("commands_received", seen)
	quiet(t, state)
	t.Distinct(state, cfg.String())
}

// rawPing is one request and reply over a connection like the client's, without the client.
func rawPing(nc net.Conn, buf []byte) time.Duration {
	b := time.Now()
	if _, err := nc.Write([]byte("version\r\n")); err != nil {
		panic("harness: " + err.Error())
	}
	for n := 0; n == 0 || buf[n-1] != '\n'; {
		k, err := nc.Read(buf[n:])
		if err != nil {
			panic("harness: " + err.Error())
		}
		n += k
	}
	return time.Since(b)
}

func quarter(d []time.Duration) time.Duration {
	slices.Sort(d)
	return d[len(d)/4]
}

func promptCase(t *T) {
	r := t.R
	cfg := Cfg{Conns: pick(r, 1, 2, 4), Limit: pick(r, 1, 3, 50, 500), MaxBatch: pick(r, 1, 4, 100), Buf: pick(r, 0, 64, 4096), WBuf: pick(r, 0, 100, 4096), Procs: pick(r, 2, 4, 8), TCP: r.IntN(4) == 0}
	kind := pick(r, "get", "set", "delete", "version", "flush", "mixed", "large", "batches", "finish", "execute", "fast", "crowd", "error", "badkey")
	idle := r.IntN(3) == 0
	e := newEnv(t, cfg, EnvOpt{Handler: func(s *fake.Session, c *fake.Cmd) fake.Reply {
		switch {
		case kind == "error" && c.Verb == "mg":
			return fake.Reply{Data: []byte("SERVER_ERROR busy\r\n")}
		case kind == "large" && c.Verb == "mg":
			return fake.Reply{Data: fake.Hit{Value: make([]byte, 60_000)}.Bytes()}
		}
		return oracleHandler(s, c)
	}})
	t.Cleanup(func() { e.Close(); e.Srv.Stop() })
	yard, err := e.Srv.Dial("tcp", "yard", time.Second)
	if err != nil {
		panic("harness: " + err.Error())
	}
	t.Cleanup(func() { _ = yard.Close() })
	buf := make([]byte, 4096)
	n := 1
	if kind == "batches" {
		n = 1 + r.IntN(60)
	}
	t.Desc("%s of %d commands, idle before=%v: %v", kind, n, idle, cfg)
	op := func(pl *memcache.Pipeline) (trips int) {
		trips = 1
		switch kind {
		case "get", "error":
			_, _ = pl.MGet("k", memcache.MGetOptions{})()
		case "set":
			_, _ = pl.MSet("k", []byte("value"), memcache.MSetOptions{})()
		case "delete":
			_, _ = pl.MDel("k", memcache.MDelOptions{})()
		case "version", "crowd":
			_, _ = pl.Version()()
		case "flush":
			_ = pl.FlushAll()()
		case "large":
			_, _ = pl.MSet("k", make([]byte, 60_000), memcache.MSetOptions{})()
			_, _ = pl.MGet("k", memcache.MGetOptions{})()
			trips = 6
		case "badkey":
			_, _ = pl.MGet("bad key", memcache.MGetOptions{})()
		case "fast":
			if h, err := pl.MGetFast("k", memcache.MGetOptions{}); err == nil {
				_, _ = h.Result()
			}
		case "mixed":
			pl.MSet("k", []byte("value"), memcache.MSetOptions{})
			pl.MDel("k", memcache.MDelOptions{})
			_, _ = pl.MGet("k", memcache.MGetOptions{})()
			trips = 3
		case "finish":
			pl.MGet("k", memcache.MGetOptions{})
			pl.Finish()
		case "execute":
			fn := pl.MGet("k", memcache.MGetOptions{})
			pl.Execute()
			_, _ = fn()
		case "batches":
			for i := 0; i < n; i++ {
				pl.MGet("k", memcache.MGetOptions{})
			}
			pl.Finish()
			trips = n
		}
		return trips
	}
	var crowd sync.WaitGroup
	stop := make(chan struct{})
	if kind == "crowd" {
		// other callers on the same connections, at a moderate pace
		seed := r.Uint64()
		for i := 0; i < 4; i++ {
			crowd.Add(1)
			go func() {
				defer crowd.Done()
				r := rand.New(rand.NewPCG(seed, uint64(i)))
				for {
					select {
					case <-stop:
						return
					default:
						_, _ = e.Cl.Pipeline().MGet("k", memcache.MGetOptions{})()
						time.Sleep(time.Duration(r.IntN(400)) * time.Microsecond)
					}
				}
			}()
		}
	}
	defer func() { close(stop); crowd.Wait() }()
	pl := e.Cl.Pipeline()
	var trail []string
	for attempt := 0; attempt < 4; attempt++ {
		var ops, yards []time.Duration
		total := 0
		for i := 0; i < 24; i++ {
			if idle {
				time.Sleep(time.Duration(r.IntN(3)) * time.Millisecond)
			}
			yards = append(yards, rawPing(yard, buf))
			b := time.Now()
			if r.IntN(3) == 0 {
				pl = e.Cl.Pipeline()
				b = time.Now()
			}
			trips := op(pl)
			ops = append(ops, time.Since(b)/time.Duration(trips))
			total += trips
			t.Tick()
		}
		o, y := quarter(ops), quarter(yards)
		trail = append(trail, fmt.Sprintf("%v, plain %v", o, y))
		t.Count("operations_timed", int64(total))
		if o < 400*time.Microsecond+10*y {
			t.Distinct(kind, idle, cfg.String(), n)
			t.Sample("%s: %v", t.getDesc(), trail)
			return
		}
	}
	t.Fail("delayed", "a quarter of the operations take at least (per command), next to a plain request and reply: %v", trail)
}
