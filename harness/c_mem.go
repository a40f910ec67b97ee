package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand/v2"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"

	"github.com/QuangTung97/go-memcache/memcache"
	"github.com/QuangTung97/go-memcache/memcache/netconn"

	"verifharness/fake"
	"verifharness/memconn"
)

func init() {
	registry["C17"] = runC17
	registry["C18"] = runC18
	aliases["C17"] = []string{"C01", "C05"}
}

// --------------------------------------------------------------------------- C17

// held is a value the caller has not released yet.
type held struct {
	data  []byte
	tag   uint64 // contents expected: fillValue(tag, len)
	owner string
}

// liveSet knows the memory of every value that is not released.
type liveSet struct {
	t    *T
	mu   sync.Mutex
	vals map[*byte]*held
	peak int
}

func span(b []byte) (lo, hi uintptr) {
	lo = uintptr(unsafe.Pointer(unsafe.SliceData(b)))
	return lo, lo + uintptr(len(b))
}

func (ls *liveSet) add(h *held) {
	if len(h.data) == 0 {
		return
	}
	lo, hi := span(h.data)
	ls.mu.Lock()
	defer ls.mu.Unlock()
	for _, o := range ls.vals {
		olo, ohi := span(o.data)
		if lo < ohi && olo < hi {
			ls.t.Fail("overlap", "the value of %s (%d bytes at %#x) lies in the memory of the value of %s (%d bytes at %#x), which is not released", h.owner, len(h.data), lo, o.owner, len(o.data), olo)
			return
		}
	}
	ls.vals[&h.data[0]] = h
	ls.peak = max(ls.peak, len(ls.vals))
}

func (ls *liveSet) check(h *held, when string) bool {
	if !bytes.Equal(h.data, fillValue(h.tag, len(h.data))) {
		ls.t.Fail("changed", "the value of %s (%d bytes) changed while the caller held it (%s): now %s, want %s", h.owner, len(h.data), when, bstr(h.data), bstr(fillValue(h.tag, len(h.data))))
		return false
	}
	return true
}

// scribble replaces the contents by the caller's own.
func (h *held) scribble(tag uint64) {
	h.tag = tag
	copy(h.data, fillValue(tag, len(h.data)))
}

func (ls *liveSet) release(h *held) {
	if len(h.data) > 0 {
		ls.mu.Lock()
		delete(ls.vals, &h.data[0])
		ls.mu.Unlock()
	}
	memcache.ReleaseGetResponseData(h.data)
}

// memWorker runs pipelines and keeps hold of what they return.
func (e *Env) memWorker(r *rand.Rand, ls *liveSet, pass chan *held, rounds, maxLen, keep int, g GenSpec) {
	t := e.T
	var mine []*held
	type str struct {
		got, copy string
		what      string
	}
	var strs []str
	var msgs []error
	var msgCopies []string
	var later []memcache.MGetResult
	type getRes struct {
		o    *Op
		copy memcache.MGetResponse
	}
	var olds []getRes
	for k := 0; k < rounds && !t.failed.Load(); k++ {
		pl := e.Cl.Pipeline()
		pipe := int(e.pipes.Add(1))
		for session := 0; session < 1+r.IntN(2); session++ {
			var ops []*Op
			for i := 0; i < 1+r.IntN(maxLen); i++ {
				o := e.genOp(r, g, pipe, i)
				if o.Kind == KGetFast {
					h, err := pl.MGetFast(o.Key, o.MG)
					now := r.IntN(4) > 0
					o.call = func() (res opResult, rerr error) {
						if err != nil {
							return res, err
						}
						res.get, rerr = h.Result()
						if now {
							memcache.ReleaseMGetResult(h)
						} else {
							later = append(later, h)
						}
						return
					}
					e.mu.Lock()
					e.ops = append(e.ops, o)
					e.mu.Unlock()
				} else {
					e.issue(pl, o, g, r)
				}
				ops = append(ops, o)
				if len(mine) > 0 && r.IntN(6) == 0 { // release between issues
					j := r.IntN(len(mine))
					if ls.check(mine[j], "before releasing it") {
						ls.release(mine[j])
					}
					mine = append(mine[:j], mine[j+1:]...)
				}
			}
			if r.IntN(2) == 0 {
				pl.Execute()
				if r.IntN(2) == 0 {
					runtime.Gosched()
				}
			}
			r.Shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
			for _, o := range ops {
				e.get(o)
				if o.Err != nil {
					msgs = append(msgs, o.Err)
					msgCopies = append(msgCopies, strings.Clone(o.Err.Error()))
				} else if o.Kind == KVersion {
					strs = append(strs, str{o.Res.ver.Version, strings.Clone(o.Res.ver.Version), o.String()})
				}
				if o.Kind != KGet && o.Kind != KGetFast {
					continue
				}
				if o.Err != nil {
					memcache.ReleaseGetResponseData(o.Res.get.Data)
					continue
				}
				h := &held{data: o.Res.get.Data, tag: o.ID, owner: o.String()}
				if o.mism != "" {
					continue // reported already
				}
				ls.add(h)
				olds = append(olds, getRes{o, o.Res.get})
				switch r.IntN(5) {
				case 0:
					h.scribble(o.ID ^ 0xabcdef)
				case 1:
					ls.release(h)
					continue
				case 2:
					select {
					case pass <- h:
						continue
					default:
					}
				}
				mine = append(mine, h)
			}
		}
		select {
		case h := <-pass:
			if r.IntN(2) == 0 {
				h.scribble(h.tag ^ 0x1234567)
			}
			mine = append(mine, h)
		default:
		}
		if len(later) > 8 || r.IntN(8) == 0 {
			for _, h := range later {
				memcache.ReleaseMGetResult(h)
			}
			later = nil
		}
		for _, h := range mine {
			if !ls.check(h, "still held") {
				return
			}
		}
		for len(mine) > keep {
			j := r.IntN(len(mine))
			if ls.check(mine[j], "before releasing it") {
				ls.release(mine[j])
			}
			mine = append(mine[:j], mine[j+1:]...)
		}
		if r.IntN(20) == 0 {
			for _, h := range mine {
				if ls.check(h, "before releasing it") {
					ls.release(h)
				}
			}
			mine = mine[:0]
		}
		t.Count("values_checked", int64(len(mine)))
	}
	for _, h := range mine {
		if ls.check(h, "at the end") {
			ls.release(h)
		}
	}
	for _, s := range strs {
		if s.got != s.copy {
			t.Fail("version-changed", "the version returned by %s changed from %q to %q", s.what, s.copy, s.got)
			return
		}
	}
	for i, m := range msgs {
		if m.Error() != msgCopies[i] {
			t.Fail("message-changed", "an error message changed from %q to %q", msgCopies[i], m.Error())
			return
		}
	}
	for _, g := range olds {
		a, b := g.o.Res.get, g.copy
		if a.Type != b.Type || a.Flags != b.Flags || a.CAS != b.CAS {
			t.Fail("response-changed", "the response of %v changed from %v to %v", g.o, b, a)
			return
		}
	}
	t.Count("strings_rechecked", int64(len(strs)+len(msgs)))
}

func memCase(t *T, faulty bool) {
	r := t.R
	cfg := randCfg(r).tame(200_000)
	cfg.Poison = true
	g := GenSpec{MaxSize: pick(r, 0, 3, 61, 62, 63, 64, 126, 300, 2000, 20000), ErrPct: pick(r, 0, 5, 30), MissPct: 10, KindWts: [7]int{10, 10, pick(r, 0, 5, 15), 1, 2, 0, 0}, LongKeys: r.IntN(4) == 0, Mutate: true, ClientErr: 0}
	if faulty {
		g.ClientErr = 1
	}
	workers := 1 + r.IntN(8)
	maxLen := pick(r, 1, 3, 10, 40, 120)
	keep := pick(r, 0, 1, 10, 100)
	rounds := 10 + 300/maxLen
	if g.MaxSize > 5000 {
		rounds = 10
		maxLen = min(maxLen, 10)
	}
	t.Desc("%v workers=%d len<=%d keep<=%d max size %d faulty=%v", cfg, workers, maxLen, keep, g.MaxSize, faulty)
	var faults atomic.Int64
	var e *Env
	e = newEnv(t, cfg, EnvOpt{NoStart: true, Handler: func(s *fake.Session, c *fake.Cmd) fake.Reply {
		rep := oracleHandler(s, c)
		if faulty && faults.Load() < 20 && e.draw(40) == 0 {
			faults.Add(1)
			switch e.draw(5) {
			case 0:
				rep.Close = true
			case 1:
				rep.Data = rep.Data[:e.draw(len(rep.Data)+1)]
				rep.Close = true
			case 2:
				rep.Data = rep.Data[:e.draw(len(rep.Data)+1)]
				rep.Stall = true
			case 3:
				rep.Data = rep.Data[:len(rep.Data)/2]
				rep.Reset = true
			case 4:
				rep.Reset = true
			}
		}
		return rep
	}})
	e.Faulty = faulty
	e.start()
	t.Cleanup(e.Close)
	ls := &liveSet{t: t, vals: map[*byte]*held{}}
	pass := make(chan *held, 64)
	e.parallel(workers, func(_ int, r *rand.Rand) { e.memWorker(r, ls, pass, rounds, maxLen, keep, g) })
	close(pass)
	for h := range pass {
		if ls.check(h, "at the end") {
			ls.release(h)
		}
	}
	e.Close()
	e.audit()
	t.Count("values_live_peak_summed", int64(ls.peak))
	t.Count("faults_injected", faults.Load())
	t.Distinct(cfg.String(), e.signature())
	t.Sample("%s: up to %d values held at once, %d faults", t.getDesc(), ls.peak, faults.Load())
}

// hugeCase: values around and above the largest pooled size.
func hugeCase(t *T) {
	r := t.R
	cfg := Cfg{Conns: pick(r, 1, 2), Limit: 500, MaxBatch: 100, Procs: 8, Perturb: pick(r, uint32(0), 500), Poison: true}
	t.Desc("%v huge values", cfg)
	e := newEnv(t, cfg, EnvOpt{})
	t.Cleanup(e.Close)
	ls := &liveSet{t: t, vals: map[*byte]*held{}}
	e.parallel(1+r.IntN(3), func(_ int, r *rand.Rand) {
		var mine []*held
		for k := 0; k < 6; k++ {
			pl := e.Cl.Pipeline()
			pipe := int(e.pipes.Add(1))
			var ops []*Op
			for i := 0; i < 1+r.IntN(3); i++ {
				o := e.genOp(r, GenSpec{MaxSize: 10, KindWts: [7]int{2, 1, 2, 0, 0, 0, 0}}, pipe, i)
				size := pick(r, 1<<20, 1<<20-1, 1<<20-2, 1<<20-3, 1<<20+1, 1<<19, 1<<19-2, 1<<21, 600_000, 3)
				if o.Kind == KSet {
					o.Val = fillValue(o.ID^0x5e7, size)
				} else {
					o.Plan.Code, o.Plan.Size = 'V', size
					o.Key = o.Plan.key("")
				}
				e.issue(pl, o, defaultGen, r)
				ops = append(ops, o)
			}
			for _, o := range ops {
				e.get(o)
				if o.Err == nil && o.Kind != KSet && o.mism == "" {
					h := &held{data: o.Res.get.Data, tag: o.ID, owner: o.String()}
					ls.add(h)
					mine = append(mine, h)
				}
			}
			for len(mine) > 0 && r.IntN(3) > 0 {
				j := r.IntN(len(mine))
				if ls.check(mine[j], "before releasing it") {
					ls.release(mine[j])
				}
				mine = append(mine[:j], mine[j+1:]...)
			}
		}
		for _, h := range mine {
			ls.check(h, "at the end")
		}
	})
	e.Close()
	e.audit()
	t.Distinct(e.signature())
}

// handleCase: handles released at once, in any order, while others of the same pipeline wait.
func handleCase(t *T) {
	r := t.R
	cfg := randCfg(r).tame(60_000)
	cfg.Poison = true
	t.Desc("%v result handles released in any order", cfg)
	e := newEnv(t, cfg, EnvOpt{})
	t.Cleanup(e.Close)
	e.parallel(1+r.IntN(6), func(_ int, r *rand.Rand) {
		type hand struct {
			o *Op
			h memcache.MGetResult
		}
		var open []hand
		var pipes []*memcache.Pipeline
		for k := 0; k < 30 && !t.failed.Load(); k++ {
			// several pipelines of one goroutine interleaved
			if len(pipes) < 3 {
				pipes = append(pipes, e.Cl.Pipeline())
			}
			pl := pipes[r.IntN(len(pipes))]
			for i := 0; i < 1+r.IntN(6); i++ {
				o := e.genOp(r, GenSpec{MaxSize: 80, MissPct: 20, ErrPct: 10, KindWts: [7]int{0, 1, 0, 0, 0, 0, 0}}, 1, i)
				h, err := pl.MGetFast(o.Key, o.MG)
				if err != nil {
					t.Fail("refused", "MGetFast(%q): %v", o.Key, err)
					return
				}
				e.mu.Lock()
				e.ops = append(e.ops, o)
				e.mu.Unlock()
				o.Pipe = int(e.pipes.Add(1)) // order between pipelines is not checked here
				open = append(open, hand{o, h})
			}
			for n := r.IntN(len(open) + 1); n > 0 && len(open) > 0; n-- {
				j := r.IntN(len(open))
				x := open[j]
				open = append(open[:j], open[j+1:]...)
				x.o.call = func() (res opResult, err error) { res.get, err = x.h.Result(); return }
				e.get(x.o)
				if r.IntN(3) == 0 {
					if _, err := x.h.Result(); !errors.Is(err, memcache.ErrAlreadyGotten) {
						t.Fail("already-gotten", "a second Result of %v returned %v", x.o, err)
					}
				}
				memcache.ReleaseMGetResult(x.h)
				memcache.ReleaseGetResponseData(x.o.Res.get.Data)
				x.o.Res.get.Data = nil
			}
			if r.IntN(4) == 0 && len(pipes) > 1 {
				pipes[0].Finish()
				pipes = pipes[1:]
			}
		}
		for _, pl := range pipes {
			pl.Finish()
		}
		for _, x := range open {
			x.o.call = func() (res opResult, err error) { res.get, err = x.h.Result(); return }
			e.get(x.o)
			memcache.ReleaseMGetResult(x.h)
			memcache.ReleaseGetResponseData(x.o.Res.get.Data)
		}
	})
	e.Close()
	e.audit()
	t.Distinct(cfg.String(), e.signature())
}

func runC17(c *Ctx) {
	c.Rule("goroutines hold, overwrite, hand over and release the values of random gets in any order while sets, failing connections and other pipelines use the same pools; the memory range of every unreleased value is registered and may not overlap another, contents are compared on every round, strings and responses at the end; distinct = distinct configuration and arrival order")
	c.Run("held", c.N(240, 12000), func(t *T) { memCase(t, false) })
	c.Run("faults", c.N(160, 8000), func(t *T) { memCase(t, true) })
	c.Run("handles", c.N(160, 4000), handleCase)
	c.Run("huge", c.N(16, 300), hugeCase)
}

// --------------------------------------------------------------------------- C18

// raceCase runs everything at once. The harness's own synchronisation between the goroutines
// that use the client is kept away, so that it does not order what the client must order.
func raceCase(t *T, tcp bool) {
	r := t.R
	conns := pick(r, 1, 1, 2, 3, 5)
	cfg := Cfg{Conns: conns, Buf: pick(r, 16, 257, 4096, 16384), WBuf: pick(r, 0, 0, 64, 1000), Limit: pick(r, 1, 3, 20, 500), MaxBatch: pick(r, 1, 3, 10, 100),
		Procs: pick(r, 2, 4, 8), Perturb: pick(r, uint32(0), 10, 50, 300), Poison: r.IntN(2) == 0, C2S: pick(r, 300, 64<<10), S2C: pick(r, 300, 64<<10), TCP: tcp}
	killPct := pick(r, 0, 1, 5)
	if cfg.Limit < 20 || cfg.MaxBatch > cfg.Limit {
		cfg.MaxBatch = min(cfg.MaxBatch, cfg.Limit)
	}
	withAuth := r.IntN(4) == 0
	dialPct := pick(r, 0, 20)
	end := pick(r, "close", "closetwice", "closeearly")
	t.Desc("%v kill %d%% dial refusals %d%% auth=%v end=%s", cfg, killPct, dialPct, withAuth, end)
	e := newEnv(t, cfg, EnvOpt{NoStart: true, Tweak: func(o *fake.Options) {
		o.NoLog = true
		o.Split = func(n int) int {
			if rand.IntN(20) == 0 {
				return 1 + rand.IntN(n)
			}
			return n
		}
		o.Hooks = func(int) memconn.Hooks {
			return memconn.Hooks{ReadLimit: func(n int, _ int64) int {
				if rand.IntN(4) == 0 {
					return 1 + rand.IntN(n)
				}
				return n
			}}
		}
		o.Dial = func(n int) error {
			if n >= conns && rand.IntN(100) < dialPct {
				return fake.ErrRefused
			}
			return nil
		}
		h := o.Handler
		o.Handler = func(s *fake.Session, c *fake.Cmd) fake.Reply {
			if c.Verb == "auth" {
				return fake.Reply{Data: []byte("STORED\r\n")}
			}
			rep := h(s, c)
			if killPct > 0 && rand.IntN(200) < killPct {
				switch rand.IntN(6) {
				case 0:
					rep.Close = true
				case 1:
					rep.Reset = true
				case 2:
					rep.Stall = true
				case 3:
					rep.Data = []byte("CLIENT_ERROR x\r\n")
				case 4:
					rep.Data = []byte("WHAT\r\n")
				case 5:
					rep.Data = rep.Data[:rand.IntN(len(rep.Data))]
					rep.Close = true
				}
			}
			return rep
		}
	}})
	e.Faulty, e.Probes = true, true
	opts := []memcache.Option{
		memcache.WithHealthCheckDuration(time.Duration(pick(r, 100, 1000, 100_000)) * time.Microsecond),
		memcache.WithRetryDuration(time.Duration(pick(r, 100, 2000)) * time.Microsecond),
	}
	if tcp { // nothing is virtual here: a stalled server is given up after a real timeout
		opts = append(opts, memcache.WithNetConnOptions(netconn.WithReadTimeout(50*time.Millisecond), netconn.WithWriteTimeout(50*time.Millisecond)))
	}
	if withAuth && !tcp {
		auth, _ := netconn.NewPasswordAuth("user", "pass")
		opts = append(opts, memcache.WithDialFunc(auth.GetDialFunc(e.Srv.Dial)))
	}
	if r.IntN(3) == 0 {
		// a logger without any synchronisation of its own is the caller's mistake, so none here
		opts = append(opts, memcache.WithDialErrorLogger(func(error) {}))
	}
	e.start(opts...)
	workers := 2 + r.IntN(8)
	seeds := make([]uint64, workers)
	for i := range seeds {
		seeds[i] = r.Uint64()
	}
	type tally struct {
		ok, failed, wrong int64
		msg               string
	}
	tallies := make([]tally, workers)
	var wg sync.WaitGroup
	pipelines := 15 + r.IntN(40)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewPCG(seeds[w], uint64(w)))
			ta := &tallies[w]
			for k := 0; k < pipelines; k++ {
				raceProgram(e, r, uint64(w)<<32|uint64(k)<<12, &ta.ok, &ta.failed, func(m string) { ta.wrong++; ta.msg = m })
			}
		}()
	}
	var side sync.WaitGroup
	if r.IntN(2) == 0 {
		side.Add(1)
		reset := r.IntN(2) == 0
		n := 1 + r.IntN(5)
		go func() {
			defer side.Done()
			for i := 0; i < n; i++ {
				time.Sleep(time.Duration(rand.IntN(3000)) * time.Microsecond)
				e.Srv.KillAll(reset)
			}
		}()
	}
	switch end {
	case "closeearly":
		side.Add(1)
		go func() {
			defer side.Done()
			time.Sleep(time.Duration(rand.IntN(8000)) * time.Microsecond)
			_ = e.Cl.Close()
		}()
	}
	wg.Wait()
	if end == "closetwice" {
		for i := 0; i < 3; i++ {
			side.Add(1)
			go func() { defer side.Done(); _ = e.Cl.Close() }()
		}
	}
	side.Wait()
	e.Close()
	var ok, failed int64
	for _, x := range tallies {
		ok += x.ok
		failed += x.failed
		if x.wrong > 0 {
			t.FailP("C01", "wrong-result", "%s", x.msg)
		}
	}
	n := int64(0)
	for _, s := range e.Srv.Sessions() {
		n += s.Received()
	}
	t.Count("operations_ok", ok)
	t.Count("operations_failed", failed)
	t.Count("commands_received", n)
	t.Count("connections", int64(len(e.Srv.Sessions())))
	t.Distinct(cfg.String(), ok, failed, n)
	t.Sample("%s: %d operations, %d failed, %d connections", t.getDesc(), ok+failed, failed, len(e.Srv.Sessions()))
}

// raceProgram is one pipeline without any shared state of the harness.
func raceProgram(e *Env, r *rand.Rand, base uint64, ok, failed *int64, wrong func(string)) {
	pl := e.Cl.Pipeline()
	type pend struct {
		o    *Op
		call func() (opResult, error)
	}
	var ps []pend
	fetch := func() {
		j := r.IntN(len(ps))
		p := ps[j]
		ps = append(ps[:j], ps[j+1:]...)
		p.o.Res, p.o.Err = p.call()
		if p.o.Err != nil {
			*failed++
			_ = p.o.Err.Error()
		} else {
			*ok++
		}
		if m, _ := p.o.mismatch(); m != "" {
			wrong(fmt.Sprintf("%v: %s", p.o, m))
		}
		if p.o.Kind == KGet || p.o.Kind == KGetFast {
			for i := range p.o.Res.get.Data {
				p.o.Res.get.Data[i] ^= 0xff // the caller may write to it
			}
			memcache.ReleaseGetResponseData(p.o.Res.get.Data)
		}
	}
	n := 1 + r.IntN(pick(r, 1, 4, 30))
	for i := 0; i < n; i++ {
		o := &Op{ID: base + uint64(i) + 1}
		o.Plan = Plan{ID: o.ID, Code: 'V', Size: r.IntN(pick(r, 10, 200, 2000)), Flags: r.IntN(8)}
		switch r.IntN(8) {
		case 0, 1:
			o.Kind = KGet
			o.MG.CAS = r.IntN(2) == 0
		case 2, 3:
			o.Kind = KGetFast
		case 4, 5:
			o.Kind = KSet
			o.Plan.Code = 'h'
			o.Val = make([]byte, r.IntN(pick(r, 10, 1000)))
		case 6:
			o.Kind = KDel
			o.Plan.Code = 'x'
		case 7:
			o.Kind = pick(r, KVersion, KVersion, KFlush)
		}
		if r.IntN(15) == 0 {
			o.Plan.Code = pick(r, byte('S'), 'S', 'E')
			if o.Kind != KGet && o.Kind != KGetFast {
				o.Plan.Code = 'S'
			}
		}
		o.Key = o.Plan.key("")
		var call func() (opResult, error)
		switch o.Kind {
		case KGet:
			fn := pl.MGet(o.Key, o.MG)
			call = func() (res opResult, err error) { res.get, err = fn(); return }
		case KGetFast:
			h, herr := pl.MGetFast(o.Key, o.MG)
			call = func() (res opResult, err error) {
				if herr != nil {
					return res, herr
				}
				res.get, err = h.Result()
				memcache.ReleaseMGetResult(h)
				return
			}
		case KSet:
			v := o.Val
			fn := pl.MSet(o.Key, v, o.MS)
			for i := range v {
				v[i]++ // the caller may write to it again
			}
			call = func() (res opResult, err error) { res.set, err = fn(); return }
		case KDel:
			fn := pl.MDel(o.Key, o.MD)
			call = func() (res opResult, err error) { res.del, err = fn(); return }
		case KVersion:
			fn := pl.Version()
			call = func() (res opResult, err error) { res.ver, err = fn(); return }
		case KFlush:
			fn := pl.FlushAll()
			call = func() (res opResult, err error) { err = fn(); return }
		}
		ps = append(ps, pend{o, call})
		switch r.IntN(20) {
		case 0:
			pl.Execute()
		case 1:
			fetch()
		}
	}
	switch r.IntN(4) {
	case 0:
		pl.Execute()
	case 1:
		pl.Finish()
	}
	for len(ps) > 0 {
		fetch()
	}
	if r.IntN(3) == 0 {
		pl.Finish()
	}
}

func runC18(c *Ctx) {
	c.Rule("race-detector builds only: goroutines with their own pipelines, health probes, kills, refused dials, stalls, authentication, early and repeated Close all at once, over in-memory and loopback TCP connections, with no shared harness state between the client's callers; distinct = distinct configuration and outcome counts")
	c.Run("mem", c.N(480, 20000), func(t *T) { raceCase(t, false) })
	c.Run("tcp", c.N(160, 5000), func(t *T) { raceCase(t, true) })
}
