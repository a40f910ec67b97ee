package main

import (
	"fmt"
	"math/rand/v2"
	"sync"
	"sync/atomic"
	"time"

	"github.com/QuangTung97/go-memcache/memcache"
	"github.com/anishathalye/porcupine"

	"verifharness/fake"
)

func init() { registry["C02"] = runC02 }

// The server for linearizability: a sequential memcached whose CAS numbers are a function
// of the write that made the item, so that a model can predict them.

type linItem struct {
	val              string
	cas              uint64
	exists, stale, w bool // w: win token handed out
}

func casOfWrite(tag string) uint64 {
	c := hash64("cas", tag)
	switch c % 5 {
	case 0:
		c = c >> 32 << 32 // numbers whose halves are zero
	case 1:
		c &= 1<<32 - 1
	default:
		c >>= c % 48 // numbers of every length
	}
	if c == 0 {
		c = 1
	}
	return c
}

type linIn struct {
	kind Kind
	key  string
	val  string // set: unique
	cas  uint64
	wcas bool // get: cas asked
	n    uint32
	inv  bool   // md I
	ttl  uint32 // md I T: unique, names the new cas
}

type linOut struct {
	failed bool
	typ    int
	val    string
	cas    uint64
	flags  memcache.MGetFlags
}

// linStep is the sequential specification.
func linStep(it linItem, in linIn) (linItem, linOut) {
	var out linOut
	switch in.kind {
	case KGet, KGetFast:
		if !it.exists {
			if in.n == 0 {
				out.typ = int(memcache.MGetResponseTypeEN)
				return it, out
			}
			it = linItem{exists: true, w: true, cas: casOfWrite(fmt.Sprint("N", in.n))}
			out.flags = memcache.MGetFlagW
		} else {
			if it.stale {
				out.flags |= memcache.MGetFlagX
			}
			if it.w {
				out.flags |= memcache.MGetFlagZ
			} else if it.stale {
				it.w = true
				out.flags |= memcache.MGetFlagW
			}
		}
		out.typ = int(memcache.MGetResponseTypeVA)
		out.val = it.val
		if in.wcas {
			out.cas = it.cas
		}
		return it, out
	case KSet:
		if in.cas != 0 {
			if !it.exists {
				out.typ = int(memcache.MSetResponseTypeNF)
				return it, out
			}
			if it.cas != in.cas {
				out.typ = int(memcache.MSetResponseTypeEX)
				return it, out
			}
		}
		out.typ = int(memcache.MSetResponseTypeHD)
		return linItem{exists: true, val: in.val, cas: casOfWrite(in.val)}, out
	case KDel:
		if !it.exists {
			out.typ = int(memcache.MDelResponseTypeNF)
			return it, out
		}
		if in.cas != 0 && it.cas != in.cas {
			out.typ = int(memcache.MDelResponseTypeEX)
			return it, out
		}
		out.typ = int(memcache.MDelResponseTypeHD)
		if in.inv {
			it.stale, it.w = true, false
			it.cas = casOfWrite(fmt.Sprint("I", in.ttl))
			return it, out
		}
		return linItem{}, out
	}
	return linItem{}, out // flush
}

var linModel = (&porcupine.NondeterministicModel{
	Init: func() []any { return []any{linItem{}} },
	Step: func(state, input, output any) []any {
		it, in, out := state.(linItem), input.(linIn), output.(linOut)
		next, want := linStep(it, in)
		if out.failed {
			if next == it {
				return []any{it}
			}
			return []any{it, next}
		}
		want.failed = false
		if out != want {
			return nil
		}
		return []any{next}
	},
	Equal: func(a, b any) bool { return a.(linItem) == b.(linItem) },
	DescribeOperation: func(input, output any) string {
		return fmt.Sprintf("%+v -> %+v", input, output)
	},
}).ToModel()

// linServer applies commands to the same specification.
type linServer struct {
	mu    sync.Mutex
	items map[string]linItem
}

func (ls *linServer) handle(s *fake.Session, c *fake.Cmd) fake.Reply {
	ls.mu.Lock()
	defer ls.mu.Unlock()
	in := linIn{key: c.Key, cas: c.CAS}
	switch c.Verb {
	case "version":
		return fake.Reply{Data: []byte("VERSION 1\r\n")}
	case "flush_all":
		ls.items = map[string]linItem{}
		return fake.Reply{Data: []byte("OK\r\n")}
	case "mg":
		in.kind, in.wcas, in.n = KGet, c.C, uint32(c.N)
		next, out := linStep(ls.items[c.Key], in)
		ls.items[c.Key] = next
		if out.typ == int(memcache.MGetResponseTypeEN) {
			return fake.Reply{Data: []byte("EN\r\n")}
		}
		h := fake.Hit{Value: []byte(out.val), CAS: out.cas, HasCAS: c.C,
			W: out.flags&memcache.MGetFlagW != 0, X: out.flags&memcache.MGetFlagX != 0, Z: out.flags&memcache.MGetFlagZ != 0}
		return fake.Reply{Data: h.Bytes()}
	case "ms":
		in.kind, in.val = KSet, string(c.Data)
		next, out := linStep(ls.items[c.Key], in)
		ls.items[c.Key] = next
		return fake.Reply{Data: []byte(map[int]string{int(memcache.MSetResponseTypeHD): "HD\r\n", int(memcache.MSetResponseTypeEX): "EX\r\n", int(memcache.MSetResponseTypeNF): "NF\r\n"}[out.typ])}
	case "md":
		in.kind, in.inv, in.ttl = KDel, c.I, uint32(c.TTL)
		next, out := linStep(ls.items[c.Key], in)
		ls.items[c.Key] = next
		return fake.Reply{Data: []byte(map[int]string{int(memcache.MDelResponseTypeHD): "HD\r\n", int(memcache.MDelResponseTypeEX): "EX\r\n", int(memcache.MDelResponseTypeNF): "NF\r\n"}[out.typ])}
	}
	return fake.Reply{Data: []byte("ERROR\r\n")}
}

// linTTL: the times to live of the store's specification are unbounded, but every form of
// the option is on the wire.
func linTTL(r *rand.Rand) uint32 {
	switch r.IntN(5) {
	case 0, 1:
		return 0
	case 2:
		return 1 + r.Uint32N(3)
	case 3:
		return r.Uint32()
	}
	return 1 + r.Uint32N(100_000)
}

type linRec struct {
	client    int
	in        linIn
	call, ret int64
	out       linOut
}

func linCase(t *T, faulty bool) {
	r := t.R
	cfg := randCfg(r).tame(50_000)
	cfg.Conns = pick(r, 1, 2, 3, 4)
	nkeys := 1 + r.IntN(3)
	workers := 2 + r.IntN(4)
	pipes := 2 + r.IntN(3)
	maxLen := max(1, 12/workers)
	if faulty {
		workers = 2 + r.IntN(3)
	}
	t.Desc("%v keys=%d workers=%d pipelines=%d faulty=%v", cfg, nkeys, workers, pipes, faulty)
	ls := &linServer{items: map[string]linItem{}}
	var faults atomic.Int64
	budget := int64(1 + r.IntN(4))
	var e *Env
	e = newEnv(t, cfg, EnvOpt{Handler: func(s *fake.Session, c *fake.Cmd) fake.Reply {
		rep := ls.handle(s, c)
		if faulty && faults.Load() < budget && e.draw(25) == 0 {
			faults.Add(1)
			switch e.draw(4) {
			case 0:
				rep.Close = true
			case 1:
				return fake.Reply{Close: true} // applied, not answered
			case 2:
				rep.Data = rep.Data[:e.draw(len(rep.Data))]
				rep.Reset = true
			case 3:
				return fake.Reply{Stall: true}
			}
		}
		return rep
	}, NoStart: true})
	e.start()
	var uniq atomic.Uint32
	var mu sync.Mutex
	var recs []linRec
	e.parallel(workers, func(g int, r *rand.Rand) {
		lastCas := map[string]uint64{}
		for p := 0; p < pipes; p++ {
			pl := e.Cl.Pipeline()
			type pend struct {
				rec linRec
				fn  func() linOut
			}
			var ps []pend
			for k := 1 + r.IntN(maxLen); k > 0; k-- {
				in := linIn{key: fmt.Sprintf("key%d", r.IntN(nkeys))}
				u := uniq.Add(1)
				var fn func() linOut
				call := e.Srv.NextSeq()
				fail := func(err error) linOut { return linOut{failed: true} }
				switch x := r.IntN(20); {
				case x < 8:
					in.kind, in.wcas = KGet, r.IntN(2) == 0
					if r.IntN(3) == 0 {
						in.n = u << r.IntN(12)
					}
					opts := memcache.MGetOptions{N: in.n, CAS: in.wcas}
					var f func() (memcache.MGetResponse, error)
					if r.IntN(3) == 0 {
						res, err := pl.MGetFast(in.key, opts)
						if err != nil {
							t.Fail("refused", "key %q: %v", in.key, err)
							return
						}
						f = func() (memcache.MGetResponse, error) {
							defer memcache.ReleaseMGetResult(res)
							return res.Result()
						}
					} else {
						f = pl.MGet(in.key, opts)
					}
					key := in.key
					fn = func() linOut {
						resp, err := f()
						if err != nil {
							return fail(err)
						}
						if resp.CAS != 0 {
							lastCas[key] = resp.CAS
						}
						out := linOut{typ: int(resp.Type), val: string(resp.Data), cas: resp.CAS, flags: resp.Flags}
						memcache.ReleaseGetResponseData(resp.Data)
						return out
					}
				case x < 15:
					in.kind = KSet
					in.val = fmt.Sprintf("value %d of %s by %d%s", u, in.key, g, string(fillValue(uint64(u), r.IntN(60))))
					if r.IntN(2) == 0 {
						in.cas = lastCas[in.key]
					}
					f := pl.MSet(in.key, []byte(in.val), memcache.MSetOptions{CAS: in.cas, TTL: linTTL(r)})
					fn = func() linOut {
						resp, err := f()
						if err != nil {
							return fail(err)
						}
						return linOut{typ: int(resp.Type)}
					}
				case x < 19:
					in.kind, in.inv = KDel, r.IntN(2) == 0
					if in.inv && r.IntN(4) > 0 {
						in.ttl = u << r.IntN(16)
					}
					if r.IntN(2) == 0 {
						in.cas = lastCas[in.key]
					}
					f := pl.MDel(in.key, memcache.MDelOptions{CAS: in.cas, I: in.inv, TTL: in.ttl})
					fn = func() linOut {
						resp, err := f()
						if err != nil {
							return fail(err)
						}
						return linOut{typ: int(resp.Type)}
					}
				default:
					in.kind, in.key = KFlush, ""
					f := pl.FlushAll()
					fn = func() linOut {
						if err := f(); err != nil {
							return fail(err)
						}
						return linOut{}
					}
				}
				ps = append(ps, pend{linRec{client: g, in: in, call: call}, fn})
				if r.IntN(5) == 0 {
					pl.Execute()
				}
			}
			if r.IntN(4) == 0 {
				r.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
			}
			for _, x := range ps {
				x.rec.out = x.fn()
				x.rec.ret = e.Srv.NextSeq()
				t.Tick()
				mu.Lock()
				recs = append(recs, x.rec)
				mu.Unlock()
			}
			pl.Finish()
		}
	})
	e.Close()
	end := e.Srv.NextSeq()
	nf := 0
	for k := 0; k < nkeys; k++ {
		key := fmt.Sprintf("key%d", k)
		var ops []porcupine.Operation
		for _, x := range recs {
			if x.in.key != key && x.in.kind != KFlush {
				continue
			}
			ret := x.ret
			if x.out.failed {
				ret = end + 1
				nf++
			}
			in := x.in
			in.key = key
			ops = append(ops, porcupine.Operation{ClientId: x.client, Input: in, Output: x.out, Call: x.call, Return: ret})
		}
		// one client id per operation: operations of a pipeline overlap
		for i := range ops {
			ops[i].ClientId = i
		}
		res, info := porcupine.CheckOperationsVerbose(linModel, ops, 3*time.Second)
		t.Tick()
		switch res {
		case porcupine.Illegal:
			_ = info
			var s string
			for _, o := range ops {
				s += fmt.Sprintf("[%d,%d] %+v -> %+v\n", o.Call, o.Return, o.Input, o.Output)
			}
			if len(s) > 6000 {
				s = s[:6000]
			}
			t.Desc("%s\nhistory of %s:\n%s", t.getDesc(), key, s)
			t.Fail("not-linearizable", "the history of %s (%d operations) is not linearizable", key, len(ops))
		case porcupine.Unknown:
			t.Count("histories_undecided", 1)
		}
		t.Count("histories_checked", 1)
		t.Count("operations_checked", int64(len(ops)))
	}
	t.Count("operations_failed", int64(nf))
	t.Count("faults_injected", faults.Load())
	sig := ""
	for _, x := range recs {
		sig += fmt.Sprintf("%+v%+v;", x.in, x.out)
	}
	t.Distinct(sig)
	if len(recs) > 0 {
		t.Sample("%s: %d operations, e.g. [%d,%d] %+v -> %+v", t.getDesc(), len(recs), recs[0].call, recs[0].ret, recs[0].in, recs[0].out)
	}
}

func runC02(c *Ctx) {
	c.Rule("each case runs concurrent pipelines of get/lease-get/set/cas-set/delete/cas-delete/stale-delete/flush on 1-3 keys against a sequential store and checks every key's history with porcupine; failed operations stay open; distinct = distinct history (operations with outcomes in completion order)")
	c.Run("clean", c.N(1400, 30000), func(t *T) { linCase(t, false) })
	c.Run("faulty", c.N(1000, 25000), func(t *T) { linCase(t, true) })
}
