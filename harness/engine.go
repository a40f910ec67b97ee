package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand/v2"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/QuangTung97/go-memcache/memcache"
	"github.com/QuangTung97/go-memcache/memcache/netconn"

	"verifharness/fake"
	"verifharness/memconn"
)

// ---------------------------------------------------------------------------
// Configurations
// ---------------------------------------------------------------------------

// Cfg is one client and environment configuration.
type Cfg struct {
	Conns, Buf, WBuf, Limit, MaxBatch int
	Procs                             int
	Perturb                           uint32
	Poison                            bool
	ReadMax                           int // largest network read, 0: no limit
	SplitMax                          int // largest server write, 0: whole
	Coalesce                          int // percent of replies held back to join the next
	C2S, S2C                          int
	TCP                               bool
}

func pick[V any](r *rand.Rand, vs ...V) V { return vs[r.IntN(len(vs))] }

func (c Cfg) String() string {
	return fmt.Sprintf("conns=%d buf=%d wbuf=%d limit=%d batch=%d procs=%d perturb=1/%d poison=%v readmax=%d split=%d coalesce=%d%% c2s=%d s2c=%d tcp=%v",
		c.Conns, c.Buf, c.WBuf, c.Limit, c.MaxBatch, c.Procs, c.Perturb, c.Poison, c.ReadMax, c.SplitMax, c.Coalesce, c.C2S, c.S2C, c.TCP)
}

func randCfg(r *rand.Rand) Cfg {
	c := Cfg{
		Conns:    pick(r, 1, 1, 1, 2, 3, 4, 7),
		Buf:      pick(r, 1, 2, 3, 5, 16, 64, 257, 1024, 4096, 16384, 16384, 65536),
		WBuf:     pick(r, 0, 0, 0, 16, 100, 4096),
		Limit:    pick(r, 1, 2, 3, 8, 17, 64, 100, 250, 500, 500, 500, 2000),
		MaxBatch: pick(r, 1, 2, 3, 4, 5, 8, 16, 33, 100, 100, 100, 256, 700),
		Procs:    pick(r, 1, 2, 2, 4, 8),
		Perturb:  pick(r, uint32(0), 3, 7, 20, 50, 200, 1000),
		Poison:   r.IntN(4) > 0,
		ReadMax:  pick(r, 0, 0, 0, 1, 2, 3, 7, 50, 1000),
		SplitMax: pick(r, 0, 0, 0, 1, 2, 5, 100),
		Coalesce: pick(r, 0, 0, 30, 80, 95),
		C2S:      pick(r, 256<<10, 256<<10, 8<<10, 300, 64),
		S2C:      pick(r, 256<<10, 256<<10, 8<<10, 300, 64),
	}
	return c
}

// tame limits byte-wise settings so that a case with a lot of data stays affordable.
func (c Cfg) tame(bytes int) Cfg {
	if bytes > 20_000 {
		if c.Buf < 64 {
			c.Buf = 64
		}
		if c.ReadMax > 0 && c.ReadMax < 50 {
			c.ReadMax = 50
		}
		if c.SplitMax > 0 && c.SplitMax < 100 {
			c.SplitMax = 100
		}
		if c.C2S < 8<<10 {
			c.C2S = 8 << 10
		}
		if c.S2C < 8<<10 {
			c.S2C = 8 << 10
		}
		if c.Perturb > 0 && c.Perturb < 50 {
			c.Perturb = 50
		}
	}
	if bytes > 400_000 {
		c.Buf = max(c.Buf, 4096)
		c.WBuf = 0
		c.ReadMax, c.SplitMax = 0, 0
		c.C2S, c.S2C = 256<<10, 256<<10
		if c.Perturb > 0 && c.Perturb < 1000 {
			c.Perturb = 1000
		}
	}
	return c
}

// far is a timeout that never expires by itself: only a declared stall makes one expire.
const far = time.Hour

// Env is a client together with its server and everything observed.
type Env struct {
	T   *T
	Cfg Cfg
	Srv *fake.Server
	Cl  *memcache.Client

	nextID   atomic.Uint64
	mu       sync.Mutex
	ops      []*Op
	pipes    atomic.Int64
	DialErrs atomic.Int64
	Faulty   bool // failures are injected: errors are legitimate results
	Probes   bool // health probes run: more version commands than issued

	chunkMu sync.Mutex
	chunkR  *rand.Rand
}

// lockedRand draws from a generator shared by connection hooks.
func (e *Env) draw(n int) int {
	e.chunkMu.Lock()
	defer e.chunkMu.Unlock()
	return e.chunkR.IntN(n)
}

// stalled is the reply of a server that falls silent, half of the time in the middle of it.
func (e *Env) stalled(rep fake.Reply) fake.Reply {
	if len(rep.Data) > 0 && e.draw(2) == 0 {
		rep.Data = rep.Data[:e.draw(len(rep.Data))]
	}
	rep.Stall = true
	return rep
}

// EnvOpt adjusts an environment before the client exists.
type EnvOpt struct {
	Handler func(s *fake.Session, c *fake.Cmd) fake.Reply
	Tweak   func(o *fake.Options)
	Options []memcache.Option
	NoStart bool
}

func newEnv(t *T, cfg Cfg, o EnvOpt) *Env {
	e := &Env{T: t, Cfg: cfg, chunkR: rand.New(rand.NewPCG(t.R.Uint64(), 7))}
	if cfg.Procs > 0 {
		runtime.GOMAXPROCS(cfg.Procs)
	}
	setPerturb(cfg.Perturb, cfg.Poison)
	so := fake.Options{Handler: o.Handler, C2S: cfg.C2S, S2C: cfg.S2C}
	if so.Handler == nil {
		so.Handler = oracleHandler
	}
	if cfg.SplitMax > 0 {
		so.Split = func(n int) int { return 1 + e.draw(cfg.SplitMax) }
	}
	if cfg.Coalesce > 0 {
		so.Coalesce = func() bool { return e.draw(100) < cfg.Coalesce }
	}
	if cfg.ReadMax > 0 {
		so.Hooks = func(int) memconn.Hooks {
			return memconn.Hooks{ReadLimit: func(int, int64) int { return 1 + e.draw(cfg.ReadMax) }}
		}
	}
	if o.Tweak != nil {
		o.Tweak(&so)
	}
	e.Srv = fake.New(so)
	if !o.NoStart {
		e.start(o.Options...)
	}
	return e
}

func (e *Env) start(extra ...memcache.Option) {
	cfg := e.Cfg
	opts := []memcache.Option{
		memcache.WithRetryDuration(time.Millisecond),
		memcache.WithHealthCheckDuration(time.Hour),
		memcache.WithDialErrorLogger(func(error) { e.DialErrs.Add(1) }),
		memcache.WithNetConnOptions(netconn.WithReadTimeout(far), netconn.WithWriteTimeout(far)),
	}
	if cfg.Buf > 0 {
		opts = append(opts, memcache.WithBufferSize(cfg.Buf))
	}
	switch {
	case cfg.WBuf > 0 && cfg.Buf == 0 && e.draw(2) == 0: // the option that sets both sizes
		opts = append(opts, memcache.WithBufferSize(cfg.WBuf))
	case cfg.WBuf > 0:
		opts = append(opts, memcache.WithNetConnOptions(netconn.WithBufferSize(cfg.WBuf)))
	}
	if cfg.Limit > 0 {
		opts = append(opts, memcache.WithWriteLimit(cfg.Limit))
	}
	if cfg.MaxBatch > 0 {
		opts = append(opts, memcache.WithMaxCommandsPerBatch(cfg.MaxBatch))
	}
	addr := "fake:11211"
	if cfg.TCP {
		a, err := e.Srv.ListenTCP()
		if err != nil {
			panic("harness: " + err.Error())
		}
		addr = a
	} else {
		opts = append(opts, memcache.WithDialFunc(e.Srv.Dial))
	}
	opts = append(opts, extra...)
	cl, err := memcache.New(addr, max(cfg.Conns, 1), opts...)
	if err != nil {
		e.T.FailP(e.T.Prop, "new", "New failed: %v", err)
		panic("harness: cannot create client")
	}
	e.Cl = cl
}

// alive counts connections open at both ends.
func (e *Env) alive() int {
	n := 0
	for _, s := range e.Srv.Sessions() {
		if s.M != nil && !s.Client.Closed() && !s.M.Closed() {
			n++
		}
	}
	return n
}

func (e *Env) received() int64 {
	n := int64(0)
	for _, s := range e.Srv.Sessions() {
		n += s.Received()
	}
	return n
}

// Close closes the client and the server.
func (e *Env) Close() {
	if e.Cl != nil {
		_ = e.Cl.Close()
	}
	e.Srv.Stop()
}

// ---------------------------------------------------------------------------
// Commands whose reply is a function of their key
// ---------------------------------------------------------------------------

// Kind of operation.
type Kind int

const (
	KGet Kind = iota
	KGetFast
	KSet
	KDel
	KVersion
	KFlush
	KBadKey // any command with an invalid key
)

var kindNames = []string{"mget", "mgetfast", "mset", "mdel", "version", "flush_all", "badkey"}

func (k Kind) String() string { return kindNames[k] }

// Plan is what the key asks the server to answer.
type Plan struct {
	ID    uint64
	Code  byte // get: V value, H no value, E miss; set/del: h n x f; any: S server error
	Size  int
	Flags int // 1 W, 2 X, 4 Z
}

func (p Plan) key(pad string) string {
	return fmt.Sprintf("%x;%c;%x;%x;%s", p.ID, p.Code, p.Size, p.Flags, pad)
}

func parsePlan(key string) (p Plan, ok bool) {
	f := strings.SplitN(key, ";", 5)
	if len(f) != 5 || len(f[1]) != 1 {
		return p, false
	}
	id, err1 := strconv.ParseUint(f[0], 16, 64)
	size, err2 := strconv.ParseUint(f[2], 16, 32)
	fl, err3 := strconv.ParseUint(f[3], 16, 8)
	if err1 != nil || err2 != nil || err3 != nil {
		return p, false
	}
	return Plan{ID: id, Code: f[1][0], Size: int(size), Flags: int(fl)}, true
}

func mix(x uint64) uint64 {
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	x *= 0xc4ceb9fe1a85ec53
	x ^= x >> 33
	return x
}

// fillValue is the value belonging to an id; every byte value occurs, CRLF included.
func fillValue(id uint64, n int) []byte {
	b := make([]byte, n)
	x := mix(id) | 1
	for i := range b {
		if i&7 == 0 {
			x = mix(x + 0x9e3779b97f4a7c15)
		}
		b[i] = byte(x >> (uint(i&7) * 8))
		if x&0x70 == 0 { // runs of protocol-looking bytes
			b[i] = "\r\nVA 12HD\r\nEN"[i%13]
		}
	}
	return b
}

// casOf covers the whole range, with extremes.
func casOf(id uint64) uint64 {
	h := mix(id ^ 0xca5)
	switch h % 8 {
	case 0:
		return 0
	case 1:
		return 1<<64 - 1
	case 2:
		return h % 1000
	}
	return mix(h)
}

func errMsg(id uint64) string {
	switch mix(id) % 6 {
	case 0:
		return "object too large for cache"
	case 1:
		return fmt.Sprintf("out of memory storing object %x", id)
	case 2:
		return fmt.Sprintf("HD EN VA 5 c1 W %x", id)
	case 3:
		return fmt.Sprintf("%x", id)
	case 4:
		return fmt.Sprintf("spaces  and \ttabs : %x ", id)
	}
	return fmt.Sprintf("e%x %s", id, strings.Repeat("long ", int(id%40)))
}

func (p Plan) hit(cas bool) fake.Hit {
	h := fake.Hit{HasCAS: cas, NoValue: p.Code == 'H', W: p.Flags&1 != 0, X: p.Flags&2 != 0, Z: p.Flags&4 != 0}
	if cas {
		h.CAS = casOf(p.ID)
	}
	if !h.NoValue {
		h.Value = fillValue(p.ID, p.Size)
	}
	return h
}

// oracleHandler answers every keyed command from its key alone.
func oracleHandler(s *fake.Session, c *fake.Cmd) fake.Reply {
	return fake.Reply{Data: oracleBytes(c)}
}

func oracleBytes(c *fake.Cmd) []byte {
	switch c.Verb {
	case "version":
		return []byte(fmt.Sprintf("VERSION v%d.%d\r\n", c.Conn, c.Pos))
	case "flush_all":
		if c.Pos%5 == 4 {
			return []byte(fmt.Sprintf("SERVER_ERROR flush %d.%d\r\n", c.Conn, c.Pos))
		}
		return []byte("OK\r\n")
	}
	p, ok := parsePlan(c.Key)
	if !ok {
		return []byte("SERVER_ERROR unplanned key\r\n")
	}
	if p.Code == 'S' {
		return []byte("SERVER_ERROR " + errMsg(p.ID) + "\r\n")
	}
	if p.Code == 'C' {
		return []byte("CLIENT_ERROR " + errMsg(p.ID) + "\r\n")
	}
	switch c.Verb {
	case "mg":
		if p.Code == 'E' {
			return []byte("EN\r\n")
		}
		return p.hit(c.C).Bytes()
	case "ms", "md":
		switch p.Code {
		case 'n':
			return []byte("NS\r\n")
		case 'x':
			return []byte("EX\r\n")
		case 'f':
			return []byte("NF\r\n")
		}
		return []byte("HD\r\n")
	}
	return []byte("ERROR\r\n")
}

// ---------------------------------------------------------------------------
// Operations
// ---------------------------------------------------------------------------

// Op is one operation and everything observed about it.
type Op struct {
	ID   uint64
	Kind Kind
	Key  string
	Plan Plan

	MG  memcache.MGetOptions
	MS  memcache.MSetOptions
	MD  memcache.MDelOptions
	Val []byte // private copy of what the caller passed

	Pipe, Idx int
	FlushSeq  atomic.Int64 // drawn just before the first call that may have flushed it
	RetSeq    int64
	IssueSeq  int64

	call func() (opResult, error)

	Done  bool
	Err   error
	Res   opResult
	calls int
	mism  string
	sent  bool // a call that must flush it was made
}

type opResult struct {
	get memcache.MGetResponse
	set memcache.MSetResponse
	del memcache.MDelResponse
	ver memcache.VersionResponse
}

func (o *Op) String() string {
	return fmt.Sprintf("pipe%d[%d] %s key=%.60q", o.Pipe, o.Idx, o.Kind, o.Key)
}

const padChars = "!\"#$%&'()*+,-./0123456789:<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

// GenSpec shapes generated operations.
type GenSpec struct {
	MaxSize   int // largest value
	ErrPct    int // percent SERVER_ERROR
	MissPct   int
	KindWts   [7]int
	Mutate    bool // overwrite the caller's slice after issuing
	LongKeys  bool
	FullKeys  bool // nearly as long as allowed
	ClientErr int  // percent CLIENT_ERROR
}

var defaultGen = GenSpec{MaxSize: 2000, ErrPct: 6, MissPct: 15, KindWts: [7]int{30, 15, 30, 15, 4, 1, 2}, Mutate: true, LongKeys: true}

func (g GenSpec) size(r *rand.Rand) int {
	switch k := r.IntN(100); {
	case k < 45:
		return r.IntN(min(g.MaxSize, 40) + 1)
	case k < 75:
		// boundaries of size classes, with and without the trailing CRLF
		e := 5 + r.IntN(17)
		for e > 5 && 1<<e > g.MaxSize {
			e--
		}
		n := 1<<e + r.IntN(8) - 4
		if n > g.MaxSize {
			n = g.MaxSize
		}
		return max(n, 0)
	case k < 95:
		return r.IntN(min(g.MaxSize, 600) + 1)
	}
	return r.IntN(g.MaxSize + 1)
}

func randU32(r *rand.Rand) uint32 {
	switch r.IntN(5) {
	case 0:
		return 0
	case 1:
		return 1<<32 - 1
	case 2:
		return r.Uint32()
	case 3:
		return uint32(1) << r.IntN(32)
	}
	return uint32(r.IntN(200))
}

func randU64(r *rand.Rand) uint64 {
	switch r.IntN(6) {
	case 0:
		return 0
	case 1:
		return 1<<64 - 1
	case 2:
		return r.Uint64()
	case 3:
		return uint64(1) << r.IntN(64)
	case 4:
		p := uint64(1)
		for i := r.IntN(20); i > 0; i-- {
			p *= 10
		}
		return p - uint64(r.IntN(2))
	}
	return uint64(r.IntN(200))
}

func badKey(r *rand.Rand) string {
	switch r.IntN(6) {
	case 0:
		return ""
	case 1:
		return strings.Repeat("k", 251+r.IntN(400))
	case 2:
		return "a\r\nflush_all\r\n"
	case 3:
		b := []byte(strings.Repeat("x", 1+r.IntN(30)))
		b[r.IntN(len(b))] = byte(r.IntN(33))
		return string(b)
	case 4:
		b := []byte(strings.Repeat("y", 1+r.IntN(30)))
		b[r.IntN(len(b))] = byte(0x7f + r.IntN(129))
		return string(b)
	}
	return "k y"
}

func (e *Env) genOp(r *rand.Rand, g GenSpec, pipe, idx int) *Op {
	o := &Op{ID: e.nextID.Add(1), Pipe: pipe, Idx: idx}
	tot := 0
	for _, w := range g.KindWts {
		tot += w
	}
	x := r.IntN(tot)
	for k, w := range g.KindWts {
		if x < w {
			o.Kind = Kind(k)
			break
		}
		x -= w
	}
	p := Plan{ID: o.ID}
	switch o.Kind {
	case KGet, KGetFast:
		o.MG = memcache.MGetOptions{N: randU32(r), CAS: r.IntN(2) == 0}
		if r.IntN(2) == 0 {
			o.MG.N = 0
		}
		switch k := r.IntN(100); {
		case k < g.ErrPct:
			p.Code = 'S'
		case k < g.ErrPct+g.ClientErr:
			p.Code = 'C'
		case k < g.ErrPct+g.ClientErr+g.MissPct:
			p.Code = 'E'
		case k < g.ErrPct+g.ClientErr+g.MissPct+8:
			p.Code = 'H'
		default:
			p.Code = 'V'
			p.Size = g.size(r)
		}
		p.Flags = r.IntN(8)
	case KSet, KDel:
		o.MS = memcache.MSetOptions{CAS: randU64(r), TTL: randU32(r)}
		o.MD = memcache.MDelOptions{CAS: randU64(r), I: r.IntN(2) == 0, TTL: randU32(r)}
		if r.IntN(2) == 0 {
			o.MS, o.MD = memcache.MSetOptions{}, memcache.MDelOptions{}
		}
		if o.Kind == KSet {
			o.Val = fillValue(o.ID^0x5e7, g.size(r))
			p.Code = pick(r, byte('h'), 'h', 'h', 'n', 'x', 'f')
		} else {
			p.Code = pick(r, byte('h'), 'h', 'x', 'f')
		}
		if k := r.IntN(100); k < g.ErrPct {
			p.Code = 'S'
		} else if k < g.ErrPct+g.ClientErr {
			p.Code = 'C'
		}
	case KBadKey:
		o.Key = badKey(r)
		return o
	}
	o.Plan = p
	if o.Kind < KVersion {
		k := p.key("")
		n := 1
		if g.LongKeys {
			switch r.IntN(6) {
			case 0:
				n = 250 - len(k)
			case 1:
				n = r.IntN(250 - len(k))
			default:
				n = r.IntN(12)
			}
		}
		if g.FullKeys {
			n = 250 - len(k) - r.IntN(30)
		}
		pad := make([]byte, n)
		for i := range pad {
			pad[i] = padChars[r.IntN(len(padChars))]
		}
		o.Key = k + string(pad)
	}
	return o
}

// issue adds the operation to the pipeline.
func (e *Env) issue(pl *memcache.Pipeline, o *Op, g GenSpec, r *rand.Rand) {
	o.IssueSeq = e.Srv.NextSeq()
	switch o.Kind {
	case KGet:
		fn := pl.MGet(o.Key, o.MG)
		o.call = func() (res opResult, err error) { res.get, err = fn(); return }
	case KGetFast:
		h, err := pl.MGetFast(o.Key, o.MG)
		if err != nil {
			o.call = func() (opResult, error) { return opResult{}, err }
			break
		}
		o.call = func() (res opResult, err error) {
			res.get, err = h.Result()
			// the handle may be released after use; a third call would then be misuse
			if o.calls >= 1 && o.Err != memcache.ErrAlreadyGotten && o.ID%2 == 0 {
				memcache.ReleaseMGetResult(h)
				o.call = nil
			}
			return
		}
	case KSet:
		buf := append([]byte(nil), o.Val...)
		fn := pl.MSet(o.Key, buf, o.MS)
		if g.Mutate {
			for i := range buf {
				buf[i] = 'Z'
			}
		}
		o.call = func() (res opResult, err error) { res.set, err = fn(); return }
	case KDel:
		fn := pl.MDel(o.Key, o.MD)
		o.call = func() (res opResult, err error) { res.del, err = fn(); return }
	case KVersion:
		fn := pl.Version()
		o.call = func() (res opResult, err error) { res.ver, err = fn(); return }
	case KFlush:
		fn := pl.FlushAll()
		o.call = func() (res opResult, err error) { err = fn(); return }
	case KBadKey:
		switch o.ID % 4 {
		case 0:
			fn := pl.MGet(o.Key, o.MG)
			o.call = func() (res opResult, err error) { res.get, err = fn(); return }
		case 1:
			_, err := pl.MGetFast(o.Key, o.MG)
			o.call = func() (opResult, error) { return opResult{}, err }
		case 2:
			fn := pl.MSet(o.Key, []byte("bad key value"), o.MS)
			o.call = func() (res opResult, err error) { res.set, err = fn(); return }
		case 3:
			fn := pl.MDel(o.Key, o.MD)
			o.call = func() (res opResult, err error) { res.del, err = fn(); return }
		}
	}
	e.mu.Lock()
	e.ops = append(e.ops, o)
	e.mu.Unlock()
}

// get calls the result function for the first time and judges the result.
func (e *Env) get(o *Op) {
	o.calls++
	o.Res, o.Err = o.call()
	o.Done = true
	o.RetSeq = e.Srv.NextSeq()
	e.T.Tick()
	e.judge(o)
}

// again calls it once more: it must say already gotten.
func (e *Env) again(o *Op) {
	if o.call == nil || o.Kind == KBadKey {
		return
	}
	o.calls++
	_, err := o.call()
	if err != memcache.ErrAlreadyGotten {
		e.T.FailP("C19", "already-gotten", "call %d of the result function of %v returned error %v, want ErrAlreadyGotten", o.calls, o, err)
	}
}

func bstr(b []byte) string {
	if len(b) > 40 {
		return fmt.Sprintf("%q...(%d bytes, hash %x)", b[:40], len(b), hash64(string(b)))
	}
	return fmt.Sprintf("%q", b)
}

// mismatch compares a successful or server-error result with the plan; "" if it agrees.
// transport is true when the error is neither success nor a server error.
func (o *Op) mismatch() (m string, transport bool) {
	if o.Kind == KBadKey {
		if o.Err == nil {
			return "no error for an invalid key", false
		}
		return "", false
	}
	if o.Err != nil && !memcache.IsServerError(o.Err) {
		var ce memcache.ErrClientError
		if o.Plan.Code == 'C' && errors.As(o.Err, &ce) {
			if ce.Message != errMsg(o.Plan.ID) {
				return "", true // may be another command's error that broke the connection
			}
			return "", false
		}
		return "", true
	}
	p := o.Plan
	if o.Kind == KFlush {
		if o.Err != nil && !strings.HasPrefix(o.Err.Error(), "server error: flush ") {
			return fmt.Sprintf("flush_all returned %v", o.Err), false
		}
		return "", false
	}
	if o.Kind == KVersion {
		if o.Err != nil || !strings.HasPrefix(o.Res.ver.Version, "v") {
			return fmt.Sprintf("version returned %q, %v", o.Res.ver.Version, o.Err), false
		}
		return "", false
	}
	if o.Err != nil {
		var se memcache.ErrServerError
		if !errors.As(o.Err, &se) || p.Code != 'S' || se.Message != errMsg(p.ID) {
			return fmt.Sprintf("server error %q, planned reply %c (message %q)", o.Err, p.Code, errMsg(p.ID)), false
		}
		return "", false
	}
	if p.Code == 'S' || p.Code == 'C' {
		return fmt.Sprintf("no error, planned error %q", errMsg(p.ID)), false
	}
	switch o.Kind {
	case KGet, KGetFast:
		g := o.Res.get
		if p.Code == 'E' {
			if g.Type != memcache.MGetResponseTypeEN || len(g.Data) != 0 || g.Flags != 0 || g.CAS != 0 {
				return fmt.Sprintf("got type %d data %s, want a miss", g.Type, bstr(g.Data)), false
			}
			return "", false
		}
		h := p.hit(o.MG.CAS)
		wantType := memcache.MGetResponseTypeVA
		if h.NoValue {
			wantType = memcache.MGetResponseTypeHD
		}
		var fl memcache.MGetFlags
		if h.W {
			fl |= memcache.MGetFlagW
		}
		if h.X {
			fl |= memcache.MGetFlagX
		}
		if h.Z {
			fl |= memcache.MGetFlagZ
		}
		if g.Type != wantType || g.Flags != fl || g.CAS != h.CAS || !bytes.Equal(g.Data, h.Value) {
			return fmt.Sprintf("got {type %d flags %d cas %d data %s}, want {type %d flags %d cas %d data %s}",
				g.Type, g.Flags, g.CAS, bstr(g.Data), wantType, fl, h.CAS, bstr(h.Value)), false
		}
	case KSet:
		want := map[byte]memcache.MSetResponseType{'h': memcache.MSetResponseTypeHD, 'n': memcache.MSetResponseTypeNS, 'x': memcache.MSetResponseTypeEX, 'f': memcache.MSetResponseTypeNF}[p.Code]
		if o.Res.set.Type != want {
			return fmt.Sprintf("set got type %d, want %d", o.Res.set.Type, want), false
		}
	case KDel:
		want := map[byte]memcache.MDelResponseType{'h': memcache.MDelResponseTypeHD, 'x': memcache.MDelResponseTypeEX, 'f': memcache.MDelResponseTypeNF}[p.Code]
		if o.Res.del.Type != want {
			return fmt.Sprintf("delete got type %d, want %d", o.Res.del.Type, want), false
		}
	}
	return "", false
}

func (e *Env) judge(o *Op) {
	m, transport := o.mismatch()
	if m != "" {
		o.mism = m
		p := "C01"
		if o.Kind == KBadKey {
			p = "C06"
		}
		e.fail(p, "wrong-result", "%v: %s", o, m)
		return
	}
	if transport && !e.Faulty {
		e.fail("C01", "unexpected-error", "%v: error %v although the server answered properly", o, o.Err)
	}
}

// aliases lets a property under check adopt the result oracle of another.
var aliases = map[string][]string{}

// fail records under the property and, if the property under check shares that oracle, under it.
func (e *Env) fail(p, kind, format string, a ...any) {
	for _, q := range aliases[e.T.Prop] {
		if q == p {
			p = e.T.Prop
			break
		}
	}
	e.T.FailP(p, kind, format, a...)
}

// ---------------------------------------------------------------------------
// Random pipeline programs
// ---------------------------------------------------------------------------

// ProgSpec shapes a program.
type ProgSpec struct {
	Pipelines   int
	MaxSessions int
	Len         func(r *rand.Rand) int
	Gen         GenSpec
	Release     bool // release values after checking
	NoMid       bool // no calls between issues
}

func lenAround(batch int) func(r *rand.Rand) int {
	return func(r *rand.Rand) int {
		switch r.IntN(10) {
		case 0, 1, 2:
			return 1
		case 3, 4, 5:
			return 1 + r.IntN(8)
		case 6, 7:
			return max(1, batch*(1+r.IntN(3))+r.IntN(3)-1)
		case 8:
			return 1 + r.IntN(3*batch+1)
		}
		return 1 + r.IntN(30)
	}
}

// runProgram executes one goroutine's program.
func (e *Env) runProgram(r *rand.Rand, ps ProgSpec) {
	for i := 0; i < ps.Pipelines; i++ {
		if e.T.failed.Load() {
			return
		}
		e.runPipeline(r, ps)
	}
}

func (e *Env) runPipeline(r *rand.Rand, ps ProgSpec) {
	pipe := int(e.pipes.Add(1))
	pl := e.Cl.Pipeline()
	idx := 0
	var pending []*Op // issued, result not fetched
	var unsent []*Op  // issued since the last flush
	var fetched []*Op
	mayFlush := func() {
		s := e.Srv.NextSeq()
		for _, o := range unsent {
			if o.FlushSeq.Load() == 0 {
				o.FlushSeq.Store(s)
			}
		}
	}
	flush := func() {
		mayFlush()
		for _, o := range unsent {
			o.sent = true
		}
		unsent = unsent[:0]
	}
	fetch := func(k int) {
		o := pending[k]
		pending = append(pending[:k], pending[k+1:]...)
		if o.Kind != KBadKey {
			// The result function of an operation not yet sent flushes everything
			// issued so far; for one already sent nothing newer needs to be sent.
			if !o.sent {
				flush()
			} else {
				mayFlush()
			}
		}
		e.get(o)
		if ps.Release && o.Err == nil && (o.Kind == KGet || o.Kind == KGetFast) && r.IntN(4) > 0 {
			memcache.ReleaseGetResponseData(o.Res.get.Data)
			o.Res.get.Data = nil
		}
		fetched = append(fetched, o)
	}
	sessions := 1 + r.IntN(max(ps.MaxSessions, 1))
	for s := 0; s < sessions; s++ {
		n := ps.Len(r)
		for i := 0; i < n; i++ {
			o := e.genOp(r, ps.Gen, pipe, idx)
			idx++
			e.issue(pl, o, ps.Gen, r)
			pending = append(pending, o)
			if o.Kind != KBadKey {
				unsent = append(unsent, o)
			}
			if ps.NoMid {
				continue
			}
			switch k := r.IntN(200); {
			case k < 3:
				flush()
				pl.Execute()
			case k < 7 && len(pending) > 0:
				fetch(r.IntN(len(pending)))
			case k < 8:
				flush()
				pl.Finish()
			case k < 10 && len(fetched) > 0:
				e.again(fetched[r.IntN(len(fetched))])
			}
		}
		switch r.IntN(6) {
		case 0:
			flush()
			pl.Execute()
		case 1:
			flush()
			pl.Finish()
		case 2:
			continue // go on issuing without any flush
		}
		order := r.IntN(3)
		keep := 0
		if r.IntN(5) == 0 {
			keep = r.IntN(len(pending) + 1)
		}
		for len(pending) > keep {
			switch order {
			case 0:
				fetch(0)
			case 1:
				fetch(len(pending) - 1)
			default:
				fetch(r.IntN(len(pending)))
			}
		}
	}
	flush()
	pl.Finish()
	if !e.Faulty && !e.Srv.Opt.NoLog {
		end := e.Srv.NextSeq()
		for _, o := range pending {
			o.RetSeq = end // must have been received by now
		}
	}
	// results stay available after Finish
	for len(pending) > 0 {
		o := pending[0]
		pending = pending[1:]
		keepRet := o.RetSeq
		e.get(o)
		if keepRet != 0 {
			o.RetSeq = keepRet
		}
		fetched = append(fetched, o)
		if ps.Release && o.Err == nil && (o.Kind == KGet || o.Kind == KGetFast) {
			memcache.ReleaseGetResponseData(o.Res.get.Data)
			o.Res.get.Data = nil
		}
	}
	if len(fetched) > 0 && r.IntN(3) == 0 {
		e.again(fetched[r.IntN(len(fetched))])
	}
	if r.IntN(8) == 0 {
		pl.Finish()
		pl.Execute()
	}
}

// parallel runs n goroutines with their own generators and waits for them.
func (e *Env) parallel(n int, f func(g int, r *rand.Rand)) {
	var wg sync.WaitGroup
	seeds := make([]uint64, n)
	for i := range seeds {
		seeds[i] = e.T.R.Uint64()
	}
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			f(i, rand.New(rand.NewPCG(seeds[i], uint64(i))))
		}()
	}
	wg.Wait()
}

// ---------------------------------------------------------------------------
// Audits over the recorded history
// ---------------------------------------------------------------------------

// audit checks what the server received against what was issued.
func (e *Env) audit() {
	t := e.T
	for _, m := range e.Srv.ProtoErrs() {
		e.fail("C05", "malformed-request", "the server received a malformed request: %s", m)
	}
	byKey := map[string][]*fake.Cmd{}
	nVersion, nFlush := 0, 0
	verAt := map[string]*fake.Cmd{}
	total := 0
	for _, s := range e.Srv.Sessions() {
		for _, c := range s.Cmds() {
			total++
			switch c.Verb {
			case "version":
				nVersion++
				verAt[fmt.Sprintf("v%d.%d", c.Conn, c.Pos)] = c
			case "flush_all":
				nFlush++
			default:
				byKey[c.Key] = append(byKey[c.Key], c)
			}
		}
	}
	t.Count("commands_received", int64(total))
	e.mu.Lock()
	ops := e.ops
	e.mu.Unlock()
	t.Count("operations_issued", int64(len(ops)))
	type pos struct {
		o *Op
		c *fake.Cmd
	}
	perPipe := map[int][]pos{}
	issuedVersion, okVersion, issuedFlush, okFlush := 0, 0, 0, 0
	for _, o := range ops {
		answered := o.Done && (o.Err == nil || memcache.IsServerError(o.Err))
		if o.Err != nil {
			t.Count("results_error", 1)
		} else {
			t.Count("results_ok", 1)
		}
		switch o.Kind {
		case KBadKey:
			continue
		case KVersion:
			issuedVersion++
			if answered && o.Err == nil {
				okVersion++
				c := verAt[o.Res.ver.Version]
				if c == nil {
					e.fail("C01", "wrong-result", "%v: version %q was never sent, or to two callers", o, o.Res.ver.Version)
					continue
				}
				delete(verAt, o.Res.ver.Version)
				perPipe[o.Pipe] = append(perPipe[o.Pipe], pos{o, c})
				e.auditTimes(o, c)
			}
			continue
		case KFlush:
			issuedFlush++
			if answered {
				okFlush++
			}
			continue
		}
		cs := byKey[o.Key]
		delete(byKey, o.Key)
		if len(cs) > 1 {
			e.fail("C04", "duplicate", "%v was received %d times: %v", o, len(cs), cs)
		}
		if answered && len(cs) == 0 {
			e.fail("C04", "lost", "%v was reported answered (%v) but never received", o, o.Err)
		}
		if !e.Faulty && o.Done && len(cs) == 0 {
			e.fail("C04", "lost", "%v was never received", o)
		}
		if len(cs) > 0 {
			e.auditWire(o, cs[0])
			e.auditTimes(o, cs[0])
			perPipe[o.Pipe] = append(perPipe[o.Pipe], pos{o, cs[0]})
		}
	}
	for k, cs := range byKey {
		e.fail("C04", "invented", "a command nobody issued was received: key %.80q: %v", k, cs[0])
		break
	}
	if (nVersion > issuedVersion && !e.Probes) || nVersion < okVersion || (!e.Faulty && !e.Probes && nVersion != issuedVersion) || (!e.Faulty && nVersion < issuedVersion) {
		e.fail("C04", "version-count", "%d version commands received, %d issued, %d answered", nVersion, issuedVersion, okVersion)
	}
	if nFlush > issuedFlush || nFlush < okFlush || (!e.Faulty && nFlush != issuedFlush) {
		e.fail("C04", "flush-count", "%d flush_all commands received, %d issued, %d answered", nFlush, issuedFlush, okFlush)
	}
	for _, ps := range perPipe {
		for i := 1; i < len(ps); i++ { // e.ops keeps each pipeline's issue order
			a, b := ps[i-1], ps[i]
			if e.Faulty && a.c.Conn != b.c.Conn {
				continue // bytes left on a failed connection may be read late
			}
			if a.c.Seq >= b.c.Seq {
				e.fail("C03", "order", "%v reached the server (%v) after %v (%v)", a.o, a.c, b.o, b.c)
				break
			}
			if a.c.Conn != b.c.Conn && !e.Faulty {
				e.fail("C03", "connection", "%v and %v of one pipeline travelled over different connections: %v, %v", a.o, b.o, a.c, b.c)
				break
			}
		}
	}
}

func (e *Env) auditTimes(o *Op, c *fake.Cmd) {
	if f := o.FlushSeq.Load(); f != 0 && c.Seq < f {
		e.fail("C19", "sent-early", "%v was received (%v) before any call flushed it (at %d)", o, c, f)
	}
	if o.Done && o.RetSeq != 0 && (o.Err == nil || memcache.IsServerError(o.Err)) {
		if c.Seq > o.RetSeq {
			e.fail("C04", "answered-before-received", "%v returned at %d but was received at %v", o, o.RetSeq, c)
		} else if r := c.ReplySeq.Load(); r == 0 || r > o.RetSeq {
			e.fail("C19", "answered-before-reply", "%v returned at %d but its reply was made at %d: %v", o, o.RetSeq, r, c)
		}
	}
}

func (e *Env) auditWire(o *Op, c *fake.Cmd) {
	wantVerb := map[Kind]string{KGet: "mg", KGetFast: "mg", KSet: "ms", KDel: "md"}[o.Kind]
	bad := ""
	switch {
	case c.Verb != wantVerb:
		bad = "verb"
	case o.Kind == KGet || o.Kind == KGetFast:
		if !c.V || c.C != o.MG.CAS || c.HasN != (o.MG.N > 0) || c.N != uint64(o.MG.N) {
			bad = fmt.Sprintf("options %+v", o.MG)
		}
	case o.Kind == KSet:
		if c.HasCAS != (o.MS.CAS > 0) || c.CAS != o.MS.CAS || c.HasTTL != (o.MS.TTL > 0) || c.TTL != uint64(o.MS.TTL) {
			bad = fmt.Sprintf("options %+v", o.MS)
		} else if !bytes.Equal(c.Data, o.Val) {
			bad = "value " + bstr(o.Val) + " got " + bstr(c.Data)
		}
	case o.Kind == KDel:
		ttl := uint64(0)
		if o.MD.I {
			ttl = uint64(o.MD.TTL)
		}
		if c.HasCAS != (o.MD.CAS > 0) || c.CAS != o.MD.CAS || c.I != o.MD.I || c.HasTTL != (ttl > 0) || c.TTL != ttl {
			bad = fmt.Sprintf("options %+v", o.MD)
		}
	}
	if bad != "" {
		e.fail("C05", "wire", "%v: %s differs on the wire: %v", o, bad, c)
	}
}

// signature condenses the interleaving seen by the server.
func (e *Env) signature() uint64 {
	var b strings.Builder
	for _, s := range e.Srv.Sessions() {
		for _, c := range s.Cmds() {
			p, _ := parsePlan(c.Key)
			fmt.Fprintf(&b, "%d:%s:%x:%d ", c.Conn, c.Verb, p.ID, c.Seq)
		}
	}
	return hash64(b.String())
}
