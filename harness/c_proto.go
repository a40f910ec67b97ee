package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/QuangTung97/go-memcache/memcache"
	"github.com/QuangTung97/go-memcache/memcache/netconn"
	"github.com/QuangTung97/go-memcache/memcache/stats"

	"verifharness/fake"
	"verifharness/memconn"
)

func init() {
	registry["C06"] = runC06
	registry["C07"] = runC07
	registry["C08"] = runC08
	registry["C09"] = runC09
}

// --------------------------------------------------------------------------- C06

func validKey(k string) bool {
	if len(k) < 1 || len(k) > 250 {
		return false
	}
	for i := 0; i < len(k); i++ {
		if k[i] <= 0x20 || k[i] >= 0x7f {
			return false
		}
	}
	return true
}

func simpleReply(s *fake.Session, c *fake.Cmd) fake.Reply {
	switch c.Verb {
	case "mg":
		return fake.Reply{Data: fake.Hit{Value: []byte("val:" + c.Key)}.Bytes()}
	case "version":
		return fake.Reply{Data: []byte("VERSION x\r\n")}
	case "flush_all":
		return fake.Reply{Data: []byte("OK\r\n")}
	}
	return fake.Reply{Data: []byte("HD\r\n")}
}

// issueKey issues one of the four keyed commands.
func issueKey(pl *memcache.Pipeline, method int, key string) func() error {
	switch method {
	case 0:
		f := pl.MGet(key, memcache.MGetOptions{})
		return func() error {
			r, err := f()
			if err == nil && string(r.Data) != "val:"+key {
				return fmt.Errorf("wrong value %q", r.Data)
			}
			return err
		}
	case 1:
		h, err := pl.MGetFast(key, memcache.MGetOptions{})
		if err != nil {
			return func() error { return err }
		}
		return func() error {
			r, err := h.Result()
			if err == nil && string(r.Data) != "val:"+key {
				return fmt.Errorf("wrong value %q", r.Data)
			}
			return err
		}
	case 2:
		f := pl.MSet(key, []byte("data"), memcache.MSetOptions{})
		return func() error {
			r, err := f()
			if err == nil && r.Type != memcache.MSetResponseTypeHD {
				return fmt.Errorf("wrong type %v", r.Type)
			}
			return err
		}
	}
	f := pl.MDel(key, memcache.MDelOptions{})
	return func() error {
		r, err := f()
		if err == nil && r.Type != memcache.MDelResponseTypeHD {
			return fmt.Errorf("wrong type %v", r.Type)
		}
		return err
	}
}

// keyBatch issues keys in pipelines and compares acceptance and arrivals.
func keyBatch(t *T, e *Env, keys []string) {
	r := t.R
	for len(keys) > 0 {
		n := min(len(keys), 1+r.IntN(12))
		pl := e.Cl.Pipeline()
		type one struct {
			key    string
			method int
			fn     func() error
		}
		var list []one
		for _, k := range keys[:n] {
			m := r.IntN(4)
			list = append(list, one{k, m, issueKey(pl, m, k)})
			if r.IntN(3) == 0 {
				g := fmt.Sprintf("good%d", r.IntN(1000))
				m := r.IntN(4)
				list = append(list, one{g, m, issueKey(pl, m, g)})
			}
		}
		keys = keys[n:]
		var want []string
		for _, x := range list {
			if validKey(x.key) {
				want = append(want, fmt.Sprintf("%d %q", x.method, x.key))
			}
		}
		if r.IntN(3) == 0 {
			r.Shuffle(len(list), func(i, j int) { list[i], list[j] = list[j], list[i] })
		}
		for _, x := range list {
			err := x.fn()
			t.Tick()
			if validKey(x.key) && err != nil {
				t.Fail("refused", "valid key %.300q (length %d), method %d: %v", x.key, len(x.key), x.method, err)
			}
			if !validKey(x.key) && err == nil {
				t.Fail("accepted", "invalid key %.300q (length %d) was accepted by method %d", x.key, len(x.key), x.method)
			}
			t.Distinct(x.method, x.key)
		}
		pl.Finish()
		t.Evals(int64(len(list)))
		var got []string
		e.mu.Lock()
		for _, s := range e.Srv.Sessions() {
			for _, c := range s.Cmds() {
				m := map[string]int{"mg": 0, "ms": 2, "md": 3}[c.Verb]
				got = append(got, fmt.Sprintf("%d %q", m, c.Key))
			}
		}
		e.mu.Unlock()
		for i := range want {
			if want[i][0] == '1' {
				want[i] = "0" + want[i][1:]
			}
		}
		prev := e.nextID.Load()
		if uint64(len(got)) < prev || strings.Join(got[prev:], "\n") != strings.Join(want, "\n") {
			t.Fail("leak", "issuing keys %.500q sent %.800q, want exactly %.800q", keysOf(want), got, want)
			return
		}
		e.nextID.Store(uint64(len(got)))
		if pe := e.Srv.ProtoErrs(); len(pe) > 0 {
			t.Fail("leak", "malformed request reached the server: %s", pe[0])
			return
		}
	}
}

func keysOf(w []string) string { return strings.Join(w, " ") }

func runC06(c *Ctx) {
	c.Rule("every byte value at first/middle/last position of keys of several lengths, every length 0..700, multi-byte runes and random keys, over all four keyed methods, mixed with good neighbours in one pipeline; distinct = distinct (method, key)")
	lengths := []int{1, 2, 3, 7, 64, 249, 250}
	c.mu.Lock()
	c.res.Exhaustive = append(c.res.Exhaustive, "all 256 byte values x 3 positions x 7 lengths", "all key lengths 0..700")
	c.mu.Unlock()
	mk := func(t *T) *Env {
		cfg := Cfg{Conns: 1, MaxBatch: pick(t.R, 1, 2, 5, 100), Limit: 500, Buf: 4096, Perturb: pick(t.R, uint32(0), 20, 100), Poison: true}
		t.Desc("%v", cfg)
		e := newEnv(t, cfg, EnvOpt{Handler: simpleReply})
		t.Cleanup(e.Close)
		return e
	}
	c.Run("bytes", 256, func(t *T) {
		e := mk(t)
		var keys []string
		for _, n := range lengths {
			for _, pos := range []int{0, n / 2, n - 1} {
				b := bytes.Repeat([]byte{'k'}, n)
				b[pos] = byte(t.Idx)
				for k := 0; k < 4; k++ {
					keys = append(keys, string(b))
				}
			}
		}
		keyBatch(t, e, keys)
		t.Sample("byte 0x%02x at every position", t.Idx)
	})
	c.Run("lengths", 71, func(t *T) {
		e := mk(t)
		var keys []string
		for n := t.Idx * 10; n < t.Idx*10+10 && n <= 700; n++ {
			for k := 0; k < 4; k++ {
				b := make([]byte, n)
				for i := range b {
					b[i] = byte(0x21 + t.R.IntN(0x7f-0x21))
				}
				keys = append(keys, string(b))
			}
		}
		keyBatch(t, e, keys)
	})
	runes := []rune{0x80, 0x85, 0xa0, 0xe9, 0x131, 0x2028, 0x2029, 0x3000, 0xfeff, 0xfffd, 0x10000, 0x1f600, 0x10ffff, 0x0121, 0x0220, 0x012a}
	c.Run("runes", c.N(40, 400), func(t *T) {
		e := mk(t)
		var keys []string
		for _, x := range runes {
			pre := strings.Repeat("a", t.R.IntN(6))
			keys = append(keys, pre+string(x)+"b", string(x), pre+string(x))
			enc := string(x)
			keys = append(keys, pre+enc[:1+t.R.IntN(len(enc))]+"q") // truncated encodings
		}
		for k := 0; k < 60; k++ {
			n := 1 + t.R.IntN(20)
			if t.R.IntN(4) == 0 {
				n = 245 + t.R.IntN(12)
			}
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(0x21 + t.R.IntN(0x7f-0x21))
				if t.R.IntN(40) == 0 {
					b[i] = byte(t.R.IntN(256))
				}
			}
			keys = append(keys, string(b))
		}
		keyBatch(t, e, keys)
	})
	c.Run("onlybad", c.N(40, 400), func(t *T) {
		e := mk(t)
		for k := 0; k < 10; k++ {
			pl := e.Cl.Pipeline()
			n := 1 + t.R.IntN(150)
			var fs []func() error
			var keys []string
			for i := 0; i < n; i++ {
				b := badKey(t.R)
				keys = append(keys, b)
				fs = append(fs, issueKey(pl, t.R.IntN(4), b))
			}
			for i, f := range fs {
				if err := f(); err == nil {
					t.Fail("accepted", "invalid key %.300q was accepted", keys[i])
				}
				t.Tick()
			}
			pl.Execute()
			pl.Finish()
			t.Distinct(n, keys[0], keys[n-1])
		}
		for _, s := range e.Srv.Sessions() {
			if n := s.Client.BytesOut(); n != 0 {
				t.Fail("leak", "%d bytes were sent although every key was invalid", n)
			}
		}
	})
	c.Run("mixed", c.N(120, 3000), func(t *T) {
		// other commands of the pipeline keep their results
		r := t.R
		cfg := randCfg(r).tame(50_000)
		g := randGen(r)
		g.MaxSize = 100
		g.KindWts = [7]int{3, 2, 3, 2, 1, 0, 8}
		aliasOnce.Do(func() { aliases["C06"] = []string{"C01"} })
		traffic(t, cfg, 1+r.IntN(5), ProgSpec{Pipelines: 3, MaxSessions: 3, Gen: g, Len: lenAround(min(cfg.MaxBatch, 30)), Release: true}, EnvOpt{})
	})
}

var aliasOnce sync.Once

// --------------------------------------------------------------------------- C07

type scripted struct {
	issue func(pl *memcache.Pipeline) func() string // returns what was decoded
	reply []byte
	want  string
}

func fmtGet(r memcache.MGetResponse, err error) string {
	return fmt.Sprintf("get type=%d data=%q flags=%d cas=%d err=%v", r.Type, r.Data, r.Flags, r.CAS, err)
}

// genHit draws a get with a reply of n value bytes, or none.
func genHit(r *rand.Rand, key string, n int) scripted {
	h := fake.Hit{HasCAS: r.IntN(2) == 0, W: r.IntN(3) == 0, X: r.IntN(3) == 0, Z: r.IntN(3) == 0, NoValue: r.IntN(5) == 0}
	if h.HasCAS {
		h.CAS = randU64(r)
	}
	if !h.NoValue {
		h.Value = fillValue(r.Uint64(), n)
	}
	typ := memcache.MGetResponseTypeVA
	if h.NoValue {
		typ = memcache.MGetResponseTypeHD
	}
	var fl memcache.MGetFlags
	if h.W {
		fl |= memcache.MGetFlagW
	}
	if h.X {
		fl |= memcache.MGetFlagX
	}
	if h.Z {
		fl |= memcache.MGetFlagZ
	}
	reply := h.Bytes()
	if r.IntN(4) == 0 { // flags in another order
		reply = shuffleFlags(r, h)
	}
	fast := r.IntN(2) == 0
	return scripted{reply: reply, want: fmtGet(memcache.MGetResponse{Type: typ, Data: h.Value, Flags: fl, CAS: h.CAS}, nil),
		issue: func(pl *memcache.Pipeline) func() string {
			if fast {
				hd, err := pl.MGetFast(key, memcache.MGetOptions{CAS: h.HasCAS})
				if err != nil {
					return func() string { return err.Error() }
				}
				return func() string { return fmtGet(hd.Result()) }
			}
			f := pl.MGet(key, memcache.MGetOptions{CAS: h.HasCAS})
			return func() string { return fmtGet(f()) }
		}}
}

// genScripted draws a command with a well-formed reply.
func genScripted(r *rand.Rand, i int, maxVal int) scripted {
	key := fmt.Sprintf("k%d", i)
	switch k := r.IntN(20); {
	case k < 10:
		n := 0
		if r.IntN(5) > 0 {
			n = r.IntN(maxVal + 1)
		}
		return genHit(r, key, n)
	case k < 12:
		return scripted{reply: []byte("EN\r\n"), want: fmtGet(memcache.MGetResponse{Type: memcache.MGetResponseTypeEN}, nil),
			issue: func(pl *memcache.Pipeline) func() string {
				f := pl.MGet(key, memcache.MGetOptions{})
				return func() string { return fmtGet(f()) }
			}}
	case k < 15:
		j := r.IntN(4)
		code := []string{"HD", "NS", "EX", "NF"}[j]
		typ := []memcache.MSetResponseType{memcache.MSetResponseTypeHD, memcache.MSetResponseTypeNS, memcache.MSetResponseTypeEX, memcache.MSetResponseTypeNF}[j]
		return scripted{reply: []byte(code + "\r\n"), want: fmt.Sprintf("set %d <nil>", typ),
			issue: func(pl *memcache.Pipeline) func() string {
				f := pl.MSet(key, []byte("v"), memcache.MSetOptions{})
				return func() string { x, err := f(); return fmt.Sprintf("set %d %v", x.Type, err) }
			}}
	case k < 17:
		j := r.IntN(3)
		code := []string{"HD", "NF", "EX"}[j]
		typ := []memcache.MDelResponseType{memcache.MDelResponseTypeHD, memcache.MDelResponseTypeNF, memcache.MDelResponseTypeEX}[j]
		return scripted{reply: []byte(code + "\r\n"), want: fmt.Sprintf("del %d <nil>", typ),
			issue: func(pl *memcache.Pipeline) func() string {
				f := pl.MDel(key, memcache.MDelOptions{})
				return func() string { x, err := f(); return fmt.Sprintf("del %d %v", x.Type, err) }
			}}
	case k < 18:
		v := pick(r, "1.6.21", "1.6.21 (custom build)", "1.4.15-ubuntu", "VA 3", "9", strings.Repeat("1.", 40)+"0")
		return scripted{reply: []byte("VERSION " + v + "\r\n"), want: fmt.Sprintf("version %q <nil>", v),
			issue: func(pl *memcache.Pipeline) func() string {
				f := pl.Version()
				return func() string { x, err := f(); return fmt.Sprintf("version %q %v", x.Version, err) }
			}}
	case k < 19:
		return scripted{reply: []byte("OK\r\n"), want: "flush <nil>",
			issue: func(pl *memcache.Pipeline) func() string {
				f := pl.FlushAll()
				return func() string { return fmt.Sprintf("flush %v", f()) }
			}}
	}
	m := pick(r, "object too large for cache", "out of memory", "x", "VA 5", "a b  c")
	return scripted{reply: []byte("SERVER_ERROR " + m + "\r\n"), want: fmt.Sprintf("set 0 %v", memcache.NewServerError(m)),
		issue: func(pl *memcache.Pipeline) func() string {
			f := pl.MSet(key, []byte("v"), memcache.MSetOptions{})
			return func() string { x, err := f(); return fmt.Sprintf("set %d %v", x.Type, err) }
		}}
}

func shuffleFlags(r *rand.Rand, h fake.Hit) []byte {
	var fl []string
	if h.HasCAS {
		fl = append(fl, fmt.Sprintf("c%d", h.CAS))
	}
	if h.W {
		fl = append(fl, "W")
	}
	if h.X {
		fl = append(fl, "X")
	}
	if h.Z {
		fl = append(fl, "Z")
	}
	r.Shuffle(len(fl), func(i, j int) { fl[i], fl[j] = fl[j], fl[i] })
	s := "HD"
	if !h.NoValue {
		s = fmt.Sprintf("VA %d", len(h.Value))
	}
	for _, f := range fl {
		s += " " + f
	}
	s += "\r\n"
	if h.NoValue {
		return []byte(s)
	}
	return append([]byte(s), string(h.Value)+"\r\n"...)
}

// fragCase plays one reply script over and over, cut in every way asked for.
func fragCase(t *T, n, maxVal int, bufSize int, cutSets func(total int) [][]int) {
	var sc []scripted
	for i := 0; i < n; i++ {
		sc = append(sc, genScripted(t.R, i, maxVal))
	}
	fragScript(t, sc, bufSize, cutSets)
}

func fragScript(t *T, sc []scripted, bufSize int, cutSets func(total int) [][]int) {
	r := t.R
	n := len(sc)
	var stream []byte
	for _, s := range sc {
		stream = append(stream, s.reply...)
	}
	cfg := Cfg{Conns: 1, Buf: bufSize, MaxBatch: pick(r, 1, 2, 3, 100), Limit: 500, Procs: pick(r, 1, 2, 4), Poison: r.IntN(2) == 0}
	t.Desc("%v replies %.300q", cfg, stream)
	var base int64
	var cuts []int
	var mu sync.Mutex
	pos := 0
	e := newEnv(t, cfg, EnvOpt{
		Handler: func(s *fake.Session, c *fake.Cmd) fake.Reply { return fake.Reply{Data: sc[c.Pos%n].reply} },
		Tweak: func(o *fake.Options) {
			o.Strict = true
			o.Coalesce = func() bool { pos++; return pos%n != 0 }
			o.Hooks = func(int) memconn.Hooks {
				return memconn.Hooks{ReadLimit: func(avail int, off int64) int {
					mu.Lock()
					defer mu.Unlock()
					rel := int(off - base)
					for _, c := range cuts {
						if c > rel {
							return c - rel
						}
					}
					return avail
				}}
			}
		},
	})
	t.Cleanup(e.Close)
	sets := cutSets(len(stream))
	for _, cs := range sets {
		mu.Lock()
		cuts = cs
		mu.Unlock()
		pl := e.Cl.Pipeline()
		var fs []func() string
		for _, s := range sc {
			fs = append(fs, s.issue(pl))
		}
		pl.Execute()
		for i, f := range fs {
			got := f()
			t.Tick()
			if got != sc[i].want {
				t.Fail("wrong-decode", "reply %d %.200q of stream %.600q cut at %v, receive buffer %d: decoded %.400s, want %.400s", i, sc[i].reply, stream, cs, bufSize, got, sc[i].want)
				return
			}
		}
		pl.Finish()
		t.Distinct(string(stream), fmt.Sprint(cs), bufSize, cfg.MaxBatch)
		mu.Lock()
		base += int64(len(stream))
		mu.Unlock()
	}
	t.Evals(int64(len(sets)))
	t.Count("fragmentations", int64(len(sets)))
	t.Sample("%d fragmentations of %.160q, receive buffer %d", len(sets), stream, bufSize)
}

func runC07(c *Ctx) {
	c.Rule("scripts of random well-formed replies are delivered in one stream cut at chosen offsets (all single cuts, all pairs for short scripts, byte by byte, random), for receive buffers of 1..64 bytes and larger and several batch sizes; decoded results are compared with the structured originals; distinct = distinct (stream, cuts, buffer, batch)")
	two := func(total int) (sets [][]int) {
		for i := 1; i < total; i++ {
			sets = append(sets, []int{i})
		}
		return
	}
	three := func(total int) (sets [][]int) {
		for i := 1; i < total; i++ {
			for j := i + 1; j < total; j++ {
				sets = append(sets, []int{i, j})
			}
		}
		return
	}
	bytewise := func(total int) [][]int {
		var cs []int
		for i := 1; i < total; i++ {
			cs = append(cs, i)
		}
		return [][]int{cs, nil}
	}
	c.Run("single", c.N(64, 3000), func(t *T) { fragCase(t, 3+t.R.IntN(9), 30, pick(t.R, 4096, 16384, 50), two) })
	c.Run("pairs", c.N(24, 800), func(t *T) { fragCase(t, 1+t.R.IntN(3), 6, 4096, three) })
	c.Run("bytewise", c.N(96, 3000), func(t *T) { fragCase(t, 5+t.R.IntN(30), 80, 4096, bytewise) })
	c.Run("bufsize", c.N(192, 3000), func(t *T) {
		fragCase(t, 5+t.R.IntN(20), 60, 1+t.Idx%64, func(int) [][]int { return [][]int{nil} })
	})
	c.Run("random", c.N(96, 4000), func(t *T) {
		fragCase(t, 5+t.R.IntN(60), pick(t.R, 20, 300, 3000), pick(t.R, 1, 7, 64, 1000, 4096, 16384), func(total int) (sets [][]int) {
			for k := 0; k < 30; k++ {
				var cs []int
				p := 0
				m := 1 + t.R.IntN(1+t.R.IntN(60))
				if total > 5000 { // keeps the number of reads affordable
					m = max(m, total/100)
				}
				for {
					p += 1 + t.R.IntN(m)
					if p >= total {
						break
					}
					cs = append(cs, p)
				}
				sets = append(sets, cs)
			}
			return
		})
	})
	c.Run("bigvalues", c.N(16, 500), func(t *T) {
		fragCase(t, 1+t.R.IntN(4), pick(t.R, 70_000, 1<<20+100, 3<<20), pick(t.R, 512, 4096, 16384, 65536), func(total int) (sets [][]int) {
			sets = append(sets, nil)
			for k := 0; k < 3; k++ {
				sets = append(sets, []int{1 + t.R.IntN(total-1), total - 1 - t.R.IntN(min(40, total-1))})
			}
			return
		})
	})
	// the lengths around every power of two: buffers of the client come in such sizes
	c.Run("boundary", 18*7, func(t *T) {
		n := 1<<(5+t.Idx/7) + t.Idx%7 - 3
		fragScript(t, []scripted{genHit(t.R, "k0", n), genScripted(t.R, 1, 20), genHit(t.R, "k2", n)}, pick(t.R, 4096, 16384, 65536), func(total int) [][]int {
			return [][]int{nil, {1 + t.R.IntN(total-1)}}
		})
	})
	c.mu.Lock()
	c.res.Exhaustive = append(c.res.Exhaustive, "values of 2^k-3..2^k+3 bytes for k = 5..22")
	c.mu.Unlock()
	c.Run("traffic", c.N(120, 3000), func(t *T) {
		r := t.R
		cfg := randCfg(r)
		cfg.ReadMax = pick(r, 1, 2, 3, 5, 20, 100)
		cfg.SplitMax = pick(r, 0, 1, 3, 20)
		cfg.Coalesce = pick(r, 0, 50, 95)
		g := randGen(r)
		g.MaxSize = pick(r, 50, 300)
		traffic(t, cfg, 1+r.IntN(4), ProgSpec{Pipelines: 1 + r.IntN(3), MaxSessions: 2, Gen: g, Len: lenAround(min(cfg.MaxBatch, 30)), Release: true}, EnvOpt{})
	})
}

// --------------------------------------------------------------------------- C08

var hugeNums = []string{
	"1073741825", "1500000000", "2147483647", "2147483648", "4294967295", "4294967296", "4294967301", "1099511627776",
	"4611686018427387904", "9223372036854775805", "9223372036854775807", "9223372036854775808", "18446744073709551613",
	"18446744073709551614", "18446744073709551615", "18446744073709551616", "18446744073709551617", "18446744073709551621",
	"36893488147419103237", "184467440737095516160", "99999999999999999999999999", "00000000000000000000000000000000000000000005000000000",
}

// mutateReply draws hostile bytes for a command.
func mutateReply(r *rand.Rand, verb string) []byte {
	base := func() []byte {
		switch r.IntN(12) {
		case 0:
			return fake.Hit{Value: fillValue(r.Uint64(), r.IntN(30)), CAS: randU64(r), HasCAS: r.IntN(2) == 0, W: r.IntN(2) == 0}.Bytes()
		case 1:
			return []byte("HD\r\n")
		case 2:
			return []byte("EN\r\n")
		case 3:
			return []byte("VERSION 1.2.3\r\n")
		case 4:
			return []byte("OK\r\n")
		case 5:
			return []byte("SERVER_ERROR out of memory\r\n")
		case 6:
			return []byte("CLIENT_ERROR bad\r\n")
		case 7:
			return []byte("ERROR\r\n")
		case 8:
			return []byte("NS\r\n")
		case 9:
			return []byte("EX\r\n")
		case 10:
			return []byte("NF\r\n")
		}
		return []byte("VA 5 c\r\nhello\r\n")
	}
	b := base()
	switch r.IntN(14) {
	case 0: // a huge length
		return []byte("VA " + pick(r, hugeNums...) + pick(r, "", " ", " c1", " W", "\r", "x") + "\r\nhello\r\n")
	case 1: // tiny lines
		return []byte(pick(r, "\r\n", "\n", "\r", "H\r\n", "V\r\n", "O\r\n", "E\r\n", "S\r\n", "C\r\n", "VA\r\n", "VA \r\n", "VA  \r\n", "HD\n", "HD\r", " \r\n", "\x00\r\n", "VE\r\n", "OK\n", "SE\r\n", "CL\r\n", "SERVER_ERROR\r\n", "CLIENT_ERROR\r\n", "SERVER_ERROR \r\n", "SERVER_ERRORx\r\n", "VERSION\r\n", "VERSION", "V\r\r\n", "\r\r\n\n", "V\n\r\n"))
	case 2: // malformed flags
		return []byte(pick(r, "HD c\r\n", "HD c c\r\n", "HD cc1\r\n", "HD c-1\r\n", "VA 5 c\r\nhello\r\n", "VA 5 cW\r\nhello\r\n", "VA 5  c\r\nhello\r\n", "HD c99999999999999999999999\r\n", "VA 5 W c\r\nhello\r\n", "VA -1\r\n\r\n", "VA 5\rhello\r\n", "VA 5 c1\r\nhelloXX", "VA 5\r\nhel", "HD c\r", "HD W X Z c\r\n", "HDc\r\n", "HD \r\n", "VA 2\r\nab", "VA 2\r\nabcdef\r\n", "VA 0\r\n", "VA 1a\r\n\r\n", "VA 5 k s t f c\r\nhello\r\n"))
	case 3: // random bytes
		n := r.IntN(60)
		b = make([]byte, n)
		for i := range b {
			b[i] = byte(r.IntN(256))
			if r.IntN(5) == 0 {
				b[i] = "\r\n VAHDEN0123c"[r.IntN(14)]
			}
		}
		return b
	case 4, 5: // mutate a byte
		for k := 1 + r.IntN(3); k > 0 && len(b) > 0; k-- {
			b[r.IntN(len(b))] = byte(pick(r, r.IntN(256), '\r', '\n', ' ', '0', '9', 'c', 'V', 'A', 0))
		}
		return b
	case 6: // delete
		if len(b) > 0 {
			i := r.IntN(len(b))
			return append(b[:i:i], b[min(len(b), i+1+r.IntN(3)):]...)
		}
	case 7: // insert
		i := r.IntN(len(b) + 1)
		return append(append(append([]byte(nil), b[:i]...), pick(r, "\r", "\n", "\r\n", " ", "c", "0", "VA ", "\x00", "99999999999")...), b[i:]...)
	case 8: // truncate
		return b[:r.IntN(len(b)+1)]
	case 9: // double
		return append(append([]byte(nil), b...), base()...)
	case 10: // long line
		return []byte(strings.Repeat(pick(r, "A", "VA ", "c", "9", "HD ", " ", "\r"), 1+r.IntN(3000)) + pick(r, "\r\n", "", "\n"))
	case 11:
		return append([]byte(pick(r, "VA ", "HD c", "VA 5 c")), strings.Repeat("7", pick(r, 1+r.IntN(5), 10+r.IntN(200)))+pick(r, "\r\n", " ", "")...)
	}
	return b
}

// definitelyBad says whether the bytes (all the server sends before closing) cannot contain
// a well-formed reply to the verb at their start.
func definitelyBad(verb string, b []byte) bool {
	i := bytes.Index(b, []byte("\r\n"))
	if i < 0 {
		return true
	}
	line := string(b[:i])
	if strings.HasPrefix(line, "SERVER_ERROR") || strings.HasPrefix(line, "CLIENT_ERROR") || strings.HasPrefix(line, "ERROR") {
		return true // no success may come of it
	}
	if len(line) < 2 {
		return true
	}
	switch verb {
	case "mg":
		switch line[:2] {
		case "EN":
			return false
		case "HD", "VA":
			if line[:2] == "VA" {
				f := strings.Fields(line[2:])
				if len(f) < 1 {
					return true
				}
				w := 0 // what follows the digits is taken for flags
				for w < len(f[0]) && f[0][w] >= '0' && f[0][w] <= '9' {
					w++
				}
				if w == 0 {
					return true
				}
				d := strings.TrimLeft(f[0][:w], "0")
				if len(d) > 9 {
					return true // nothing that long follows
				}
				n := 0
				for _, ch := range d {
					n = n*10 + int(ch-'0')
				}
				if len(b) < i+2+n+2 {
					return true
				}
			}
			for _, f := range strings.Fields(line)[1:] {
				if f == "c" {
					return true
				}
			}
			return false
		}
		return true
	case "ms":
		return !(line[:2] == "HD" || line[:2] == "NS" || line[:2] == "EX" || line[:2] == "NF")
	case "md":
		return !(line[:2] == "HD" || line[:2] == "EX" || line[:2] == "NF")
	case "version":
		return !strings.HasPrefix(line, "VERSION")
	case "flush_all":
		return line[:2] != "OK"
	}
	return true
}

func totalAlloc() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

var verbs = []string{"mg", "ms", "md", "version", "flush_all"}

func issueVerb(pl *memcache.Pipeline, r *rand.Rand, verb string) func() error {
	switch verb {
	case "mg":
		f := pl.MGet("key", memcache.MGetOptions{CAS: r.IntN(2) == 0})
		return func() error {
			x, err := f()
			if err == nil && x.Type == 0 {
				return fmt.Errorf("VERIF default value with nil error")
			}
			return err
		}
	case "ms":
		f := pl.MSet("key", []byte("value"), memcache.MSetOptions{})
		return func() error {
			x, err := f()
			if err == nil && x.Type == 0 {
				return fmt.Errorf("VERIF default value with nil error")
			}
			return err
		}
	case "md":
		f := pl.MDel("key", memcache.MDelOptions{})
		return func() error {
			x, err := f()
			if err == nil && x.Type == 0 {
				return fmt.Errorf("VERIF default value with nil error")
			}
			return err
		}
	case "version":
		f := pl.Version()
		return func() error { _, err := f(); return err }
	}
	return pl.FlushAll()
}

// hostileCase: connection by connection, the server answers with hostile bytes and then
// closes, stalls or goes on.
func hostileCase(t *T, single bool) {
	r := t.R
	cfg := randCfg(r).tame(50_000)
	cfg.Conns = 1
	cfg.C2S, cfg.S2C = 256<<10, 256<<10
	cfg.Coalesce = pick(r, 0, 0, 50)
	var log []string
	var logMu sync.Mutex
	cur := atomic.Value{}
	cur.Store([]byte(nil))
	e := newEnv(t, cfg, EnvOpt{Handler: func(s *fake.Session, c *fake.Cmd) fake.Reply {
		if single {
			b := cur.Load().([]byte)
			if c.Pos > 0 {
				return fake.Reply{Close: true}
			}
			return fake.Reply{Data: b, Close: true}
		}
		rep := fake.Reply{}
		logMu.Lock()
		if r.IntN(3) == 0 {
			rep.Data = oracleFallback(c)
		} else {
			rep.Data = mutateReply(r, c.Verb)
		}
		switch r.IntN(6) {
		case 0:
			rep.Close = true
		case 1:
			rep.Reset = true
		case 2:
			rep.Stall = true
		}
		log = append(log, fmt.Sprintf("%s:%.60q%s", c.Verb, rep.Data, map[bool]string{true: "|"}[rep.Close || rep.Stall || rep.Reset]))
		logMu.Unlock()
		return rep
	}})
	t.Cleanup(e.Close)
	if single {
		for k := 0; k < 25; k++ {
			if !t.Until(func() bool {
				ss := e.Srv.Sessions()
				s := ss[len(ss)-1]
				if s.Received() > 0 { // make the client notice the closed connection
					_ = issueVerb(e.Cl.Pipeline(), r, "version")()
					return false
				}
				return !s.Client.Closed()
			}) {
				t.Inconclusive("no fresh connection")
				return
			}
			verb := pick(r, verbs...)
			b := mutateReply(r, verb)
			cur.Store(b)
			t.Desc("%v verb %s reply %.500q then close", cfg, verb, b)
			ss := e.Srv.Sessions()
			fresh := ss[len(ss)-1]
			a0 := totalAlloc()
			pl := e.Cl.Pipeline()
			err := issueVerb(pl, r, verb)()
			t.Tick()
			if d := totalAlloc() - a0; d > 1<<30+1<<28 {
				t.Fail("alloc", "%d bytes were allocated for the reply %.200q", d, b)
			}
			if fresh.Received() == 0 {
				continue // it went over the previous connection
			}
			if err == nil && definitelyBad(verb, b) {
				t.Fail("accepted", "%s was reported successful on the reply %.400q", verb, b)
			}
			if err != nil && strings.HasPrefix(err.Error(), "VERIF") {
				t.Fail("default", "%s returned a default value without error on the reply %.400q", verb, b)
			}
			t.Distinct(verb, string(b))
			t.Evals(1)
		}
	} else {
		t.Desc("%v hostile traffic", cfg)
		n := 1 + r.IntN(4)
		// an incomplete reply leaves the client waiting, rightly: end such waits
		stop := e.nudge()
		defer stop()
		e.parallel(n, func(_ int, r *rand.Rand) {
			for k := 0; k < 12; k++ {
				pl := e.Cl.Pipeline()
				var fs []func() error
				for i := 1 + r.IntN(6); i > 0; i-- {
					fs = append(fs, issueVerb(pl, r, pick(r, verbs...)))
				}
				if r.IntN(3) == 0 {
					pl.Finish()
				}
				for _, f := range fs {
					err := f()
					t.Tick()
					if err != nil && strings.HasPrefix(err.Error(), "VERIF") {
						t.Fail("default", "a default value was returned without error")
					}
				}
				pl.Finish()
			}
		})
		logMu.Lock()
		s := strings.Join(log, " ")
		t.Count("replies_sent", int64(len(log)))
		logMu.Unlock()
		t.Distinct(s)
		t.Sample("%.400s", s)
	}
}

// nudge declares every connection stalled whenever nothing moves for a while.
func (e *Env) nudge() (stop func()) {
	ch, done := make(chan struct{}), make(chan struct{})
	go func() {
		defer close(done)
		last, same := int64(-1), 0
		for {
			select {
			case <-ch:
				return
			case <-time.After(2 * time.Millisecond):
			}
			n := e.T.ticks.Load() + e.Srv.Dials()
			for _, s := range e.Srv.Sessions() {
				n += s.Received()
			}
			if n != last {
				last, same = n, 0
				continue
			}
			if same++; same >= 5 {
				for _, s := range e.Srv.Sessions() {
					if !s.Client.Closed() && s.Received() > 0 {
						s.Stall()
					}
				}
				same = 0
			}
		}
	}()
	return func() { close(ch); <-done }
}

func oracleFallback(c *fake.Cmd) []byte {
	switch c.Verb {
	case "mg":
		return []byte("VA 3\r\nabc\r\n")
	case "version":
		return []byte("VERSION 1\r\n")
	case "flush_all":
		return []byte("OK\r\n")
	}
	return []byte("HD\r\n")
}

// fixedHostile: every listed reply, for every verb.
var fixedReplies = func() []string {
	l := []string{"", "\r\n", "\n", "\r", "H\r\n", "V\r\n", "O\r\n", "E\r\n", "S\r\n", "C\r\n", "VA\r\n", "VA \r\n", "HD c\r\n", "HD  c \r\n", "HD cW\r\n", "HD c", "HD c\r",
		"VA 5 c\r\nhello\r\n", "VA 5 cW\r\nhello\r\n", "VA 5 W c\r\nhello\r\n", "VA 5\r\nhel", "VA 5\r\nhello", "VA x\r\n", "VA -5\r\nhello\r\n", "ERROR\r\n", "SERVER_ERROR\r\n", "CLIENT_ERROR\r\n",
		"SERVER_ERROR \r\n", "SERVER_ERROR x\r\n", "CLIENT_ERROR x\r\n", "VERSIO\r\n", "VERSION\r\n", "OKAY", "HD", "HD\r", "EN", "E", "garbage\r\n", "\x00\x00\r\n", "\xff\xfe\r\n",
		"V\r\n", "VV\r\n", "VA5\r\nhello\r\n", "V A 5\r\n", "HD\n\r\n", "\r\nHD\r\n", "STORED\r\n", "END\r\n", "VALUE a 0 1\r\na\r\nEND\r\n", "MN\r\n", "ME\r\n", "VA 5 c c c\r\nhello\r\n", "HD c\r\nHD 5\r\n"}
	for _, n := range hugeNums {
		l = append(l, "VA "+n+"\r\nhello\r\n", "VA "+n+" c5 W\r\nhello\r\n", "VA "+n+" ")
	}
	return l
}()

func runC08(c *Ctx) {
	c.Rule("hostile replies: a fixed list x all verbs, grammar mutations, random bytes, huge and overflowing lengths, truncations followed by close/reset/stall, for the cache client, the authentication handshake and the statistics client; distinct = distinct reply bytes or reply sequences")
	c.Run("fixed", len(fixedReplies), func(t *T) {
		rep := []byte(fixedReplies[t.Idx])
		for vi, verb := range verbs {
			for mode := 0; mode < 3; mode++ {
				cfg := Cfg{Conns: 1, Buf: pick(t.R, 1, 3, 16, 4096), ReadMax: pick(t.R, 0, 1, 2), Perturb: pick(t.R, uint32(0), 20)}
				t.Desc("%v verb %s reply %q, then %s", cfg, verb, rep, []string{"close", "stall", "the same again"}[mode])
				e := newEnv(t, cfg, EnvOpt{Handler: func(s *fake.Session, c *fake.Cmd) fake.Reply {
					return fake.Reply{Data: rep, Close: mode == 0, Stall: mode == 1}
				}})
				a0 := totalAlloc()
				pl := e.Cl.Pipeline()
				n := 1 + 3*(vi%2)
				if mode == 2 {
					n = 3
				}
				var fs []func() error
				for i := 0; i < n; i++ {
					fs = append(fs, issueVerb(pl, t.R, verb))
				}
				if mode == 2 {
					// incomplete replies leave the client waiting, rightly: end the wait
					pl.Execute()
					t.Settle(func() int64 { return e.Srv.Sessions()[0].Received() })
					e.Srv.Sessions()[0].Stall()
				}
				for i, f := range fs {
					err := f()
					t.Tick()
					all := rep
					if mode != 0 {
						all = bytes.Repeat(rep, n)
					}
					if err == nil && i == 0 && definitelyBad(verb, all) && definitelyBad(verb, rep) {
						t.Fail("accepted", "%s was reported successful on the reply %.400q", verb, rep)
					}
					if err != nil && strings.HasPrefix(err.Error(), "VERIF") {
						t.Fail("default", "%s returned a default value without error on the reply %.400q", verb, rep)
					}
				}
				if d := totalAlloc() - a0; d > 1<<30+1<<28 {
					t.Fail("alloc", "%d bytes were allocated for the reply %.100q", d, rep)
				}
				t.Distinct(verb, mode, string(rep))
				t.Evals(1)
				e.Close()
			}
		}
		t.Sample("reply %.80q to every verb", rep)
	})
	c.Run("single", c.N(240, 8000), func(t *T) { hostileCase(t, true) })
	c.Run("traffic", c.N(400, 12000), func(t *T) { hostileCase(t, false) })
	c.Run("stats", c.N(160, 4000), hostileStats)
	c.Run("auth", c.N(160, 3000), hostileAuth)
}

func hostileStats(t *T) {
	r := t.R
	cfg := randCfg(r)
	runtime.GOMAXPROCS(max(1, cfg.Procs))
	setPerturb(cfg.Perturb, true)
	var sent []string
	srv := fake.New(fake.Options{C2S: 1 << 16, S2C: 1 << 16, RawServe: func(s *fake.Session) {
		buf := make([]byte, 4096)
		for {
			if _, err := s.C.Read(buf); err != nil {
				return
			}
			b := mutateStats(r)
			sent = append(sent, fmt.Sprintf("%.80q", b))
			if _, err := s.C.Write(b); err != nil {
				return
			}
			if r.IntN(2) == 0 {
				return
			}
			s.Stall()
		}
	}})
	defer srv.Stop()
	for k := 0; k < 10; k++ {
		cl := stats.New("fake:1", stats.WithErrorLogger(func(error) {}), stats.WithNetConnOptions(netconn.WithDialFunc(srv.Dial), netconn.WithReadTimeout(far), netconn.WithWriteTimeout(far)))
		for j := 0; j < 3; j++ {
			switch r.IntN(4) {
			case 0:
				_, _ = cl.GetGeneralStats()
			case 1:
				_, _ = cl.GetSlabsStats()
			case 2:
				_, _ = cl.GetSlabItemsStats()
			case 3:
				_ = cl.MetaDumpAll(func(stats.MetaDumpKey) {})
			}
			t.Tick()
		}
		_ = cl.Close()
		t.Evals(1)
	}
	srv.Stop()
	t.Distinct(strings.Join(sent, " "))
	if len(sent) > 0 {
		t.Sample("stats replies %.300s", strings.Join(sent, " "))
	}
}

func mutateStats(r *rand.Rand) []byte {
	var b []byte
	for k := r.IntN(8); k > 0; k-- {
		b = append(b, pick(r, "STAT pid 5\r\n", "STAT uptime x\r\n", "STAT\r\n", "STAT a\r\n", "\r\n", "STAT 1:chunk_size 96\r\n", "STAT :x 1\r\n", "STAT items:1:number 3\r\n", "STAT items:: 3\r\n",
			"STAT items:99999999999:number 3\r\n", "key=a exp=-1 la=5 cas=1 fetch=no cls=1 size=5\r\n", "key=%zz exp=1\r\n", "key\r\n", "=\r\n", "key=%\r\n", " \r\n", "ERROR\r\n", "SERVER_ERROR x\r\n", "BUSY currently processing crawler request\r\n", "END", "\x00\r\n",
			strings.Repeat("x", 70000)+"\r\n", "STAT pid 99999999999999999999999\r\n")...)
		if r.IntN(4) == 0 && len(b) > 0 {
			b[r.IntN(len(b))] = byte(r.IntN(256))
		}
	}
	if r.IntN(3) > 0 {
		b = append(b, "END\r\n"...)
	}
	return b
}

func hostileAuth(t *T) {
	r := t.R
	auth, _ := netconn.NewPasswordAuth("user", "pass")
	cfg := Cfg{Conns: 1 + r.IntN(2), Procs: pick(r, 1, 2, 4), Perturb: pick(r, uint32(0), 10, 100), C2S: 1 << 16, S2C: 1 << 16, ReadMax: pick(r, 0, 1, 3)}
	good := false
	var gm sync.Mutex
	var sent []string
	e := newEnv(t, cfg, EnvOpt{NoStart: true, Tweak: func(o *fake.Options) {
		o.Handler = func(s *fake.Session, c *fake.Cmd) fake.Reply {
			gm.Lock()
			defer gm.Unlock()
			if c.Verb == "auth" {
				if good {
					return fake.Reply{Data: []byte("STORED\r\n")}
				}
				b := pick(r, []byte("STORED\r\nHD\r\nVA 3\r\nabc\r\n"), []byte("STORED"), []byte("\r\n"), []byte("CLIENT_ERROR authentication failure\r\n"), []byte(""), mutateReply(r, "ms"))
				sent = append(sent, fmt.Sprintf("%.40q", b))
				return fake.Reply{Data: b, Close: true}
			}
			return fake.Reply{Data: oracleFallback(c)}
		}
	}})
	t.Desc("%v hostile authentication replies", cfg)
	e.start(memcache.WithDialFunc(auth.GetDialFunc(e.Srv.Dial)))
	t.Cleanup(e.Close)
	for k := 0; k < 20; k++ {
		pl := e.Cl.Pipeline()
		_ = issueVerb(pl, r, pick(r, verbs...))()
		t.Tick()
		time.Sleep(200 * time.Microsecond)
	}
	gm.Lock()
	good = true
	t.Distinct(strings.Join(sent, " "))
	gm.Unlock()
	if !t.Until(func() bool {
		pl := e.Cl.Pipeline()
		_, err := pl.Version()()
		return err == nil
	}) {
		t.Fail("wedged", "the client never worked again although authentication is accepted now")
	}
}

// --------------------------------------------------------------------------- C09

const evil = "EVIL-SURPLUS"

// surplus is bytes that could answer later commands; none of them is ever planned.
func surplus(r *rand.Rand, n int) []byte {
	var b []byte
	for i := 0; i < n; i++ {
		switch r.IntN(4) {
		case 0:
			b = append(b, "VERSION "+evil+"\r\n"...)
		case 1:
			b = append(b, "NS\r\n"...)
		default:
			b = append(b, fake.Hit{Value: []byte(evil), CAS: 666, HasCAS: r.IntN(2) == 0}.Bytes()...)
		}
	}
	return b
}

// surplusCase: replies on one connection are followed by surplus, then the connection fails
// in one of many ways; what was sent on other connections must never be answered by it.
func surplusCase(t *T) {
	r := t.R
	cfg := randCfg(r).tame(50_000)
	cfg.Conns = pick(r, 1, 1, 2)
	cfg.MaxBatch = pick(r, 1, 2, 5, 100)
	cfg.Coalesce = pick(r, 0, 50)
	cfg.S2C = 256 << 10
	perSess := 1 + r.IntN(6)
	badSessions := 2 + r.IntN(6)
	t.Desc("%v surplus after %d replies on the first %d connections", cfg, perSess, badSessions)
	var log []string
	var mu sync.Mutex
	tainted := map[int]bool{}
	e := newEnv(t, cfg, EnvOpt{Handler: func(s *fake.Session, c *fake.Cmd) fake.Reply {
		rep := oracleHandler(s, c)
		if s.ID >= badSessions || c.Pos != perSess-1 {
			return rep
		}
		mu.Lock()
		defer mu.Unlock()
		tainted[s.ID] = true
		sp := surplus(r, 1+r.IntN(6))
		how := r.IntN(5)
		switch how {
		case 0: // a good reply, surplus, close
			rep.Data = append(rep.Data, sp...)
			rep.Close = true
		case 1: // surplus cut anywhere
			rep.Data = append(rep.Data, sp[:1+r.IntN(len(sp))]...)
			rep.Close = true
		case 2: // unparsable line, then surplus
			rep.Data = append([]byte(pick(r, "WHAT\r\n", "ERROR\r\n", "XX\r\n", "VA zz\r\n")), sp...)
		case 3: // client error, then surplus
			rep.Data = append([]byte("CLIENT_ERROR bad line\r\n"), sp...)
		case 4: // an unfinished value whose length swallows
			rep.Data = append([]byte("VA 50 c1\r\n"), sp...)
			rep.Close = true
		}
		log = append(log, fmt.Sprintf("conn%d:%d:%d", s.ID, how, len(sp)))
		return rep
	}})
	e.Faulty = true
	g := GenSpec{MaxSize: 30, ErrPct: 5, MissPct: 10, KindWts: [7]int{5, 4, 3, 3, 2, 0, 0}}
	var all []*Op
	n := 1 + r.IntN(4)
	e.parallel(n, func(_ int, r *rand.Rand) {
		for k := 0; k < 10; k++ {
			pl := e.Cl.Pipeline()
			var ops []*Op
			pipe := int(e.pipes.Add(1))
			for i := 0; i < 1+r.IntN(4); i++ {
				o := e.genOp(r, g, pipe, i)
				if o.Kind == KSet && o.Plan.Code == 'n' { // NS is surplus only
					o.Plan.Code = 'h'
					o.Key = o.Plan.key("")
				}
				e.issue(pl, o, g, r)
				ops = append(ops, o)
			}
			for _, o := range ops {
				o.Res, o.Err = o.call()
				o.Done = true
				t.Tick()
			}
			e.mu.Lock()
			all = append(all, ops...)
			e.mu.Unlock()
			if r.IntN(3) == 0 {
				time.Sleep(time.Duration(r.IntN(2000)) * time.Microsecond)
			}
		}
	})
	e.Close()
	where := map[string]*fake.Cmd{}
	vers := map[string]bool{}
	for _, s := range e.Srv.Sessions() {
		for _, c := range s.Cmds() {
			where[c.Key] = c
			if c.Verb == "version" {
				vers[fmt.Sprintf("v%d.%d", c.Conn, c.Pos)] = true
			}
		}
	}
	judged := 0
	for _, o := range all {
		if o.Err != nil && !memcache.IsServerError(o.Err) {
			continue
		}
		m, _ := o.mismatch()
		if m == "" {
			continue
		}
		c := where[o.Key]
		if o.Kind == KVersion {
			continue
		}
		if c == nil {
			continue // may have been sent on the tainted connection and lost
		}
		if c.Conn < badSessions {
			continue
		}
		judged++
		t.Fail("cross-connection", "%v was sent on connection %d, which only ever carried proper replies, but %s; surplus: %s", o, c.Conn, m, strings.Join(log, " "))
	}
	// the stronger form: a command received on a connection at a position before its taint
	for _, o := range all {
		c := where[o.Key]
		if c == nil || o.Kind == KVersion || (o.Err != nil && !memcache.IsServerError(o.Err)) {
			continue
		}
		if c.Conn < badSessions && c.Pos < perSess-1 {
			if m, _ := o.mismatch(); m != "" {
				t.Fail("cross-connection", "%v was answered on connection %d before anything improper was sent there, but %s; surplus: %s", o, c.Conn, m, strings.Join(log, " "))
			}
		}
	}
	t.Count("surplus_sent", int64(len(log)))
	t.Count("results_judged", int64(len(all)))
	t.Distinct(strings.Join(log, " "), e.signature())
	t.Sample("%s: %s", t.getDesc(), strings.Join(log, " "))
}

// outOfStepCase: one batch, one unparsable reply; later commands of the batch must not succeed.
func outOfStepCase(t *T) {
	r := t.R
	n := 2 + r.IntN(20)
	bad := r.IntN(n - 1)
	kinds := make([]string, n)
	for i := range kinds {
		kinds[i] = pick(r, verbs...)
	}
	badReply := pick(r, "WHAT\r\n", "ERROR\r\n", "ZZ 1\r\n", "VA zz\r\n", "STORED\r\n", "VALUE k 0 1\r\n", "HDR\r\n", "BUSY\r\n", "\r\n", "12\r\n", "XY c1\r\n")
	if badReply == "HDR\r\n" && kinds[bad] != "version" && kinds[bad] != "flush_all" {
		badReply = "WHAT\r\n"
	}
	cfg := Cfg{Conns: 1, MaxBatch: 100, Limit: 500, Buf: pick(r, 1, 7, 64, 4096), Procs: pick(r, 1, 2, 4), Perturb: pick(r, uint32(0), 10, 100), Coalesce: pick(r, 0, 95), Poison: true}
	t.Desc("%v batch %v, reply %d is %q", cfg, kinds, bad, badReply)
	e := newEnv(t, cfg, EnvOpt{Handler: func(s *fake.Session, c *fake.Cmd) fake.Reply {
		if s.ID == 0 && c.Pos == bad {
			return fake.Reply{Data: []byte(badReply)}
		}
		return fake.Reply{Data: oracleFallback(c)}
	}})
	t.Cleanup(e.Close)
	pl := e.Cl.Pipeline()
	var fs []func() error
	for i := range kinds {
		fs = append(fs, issueVerb(pl, r, kinds[i]))
	}
	pl.Execute()
	// a reply the stream reader itself rejects may leave the client waiting for more
	srv0 := e.Srv.Sessions()[0]
	t.Settle(func() int64 { return srv0.Replied() })
	for i, f := range fs {
		err := f()
		t.Tick()
		if err == nil && i == bad {
			t.Fail("accepted", "command %d of the batch (%s) was reported successful on the reply %q", i, kinds[i], badReply)
		}
		if err == nil && i > bad {
			t.Fail("out-of-step", "command %d of the batch (%s) was reported successful although reply %d was %q", i, kinds[i], bad, badReply)
		}
	}
	pl.Finish()
	if !t.Until(srv0.Client.Closed) {
		t.Fail("not-abandoned", "the connection was kept after the reply %q", badReply)
	}
	// and the client goes on with a new one
	if !t.Until(func() bool { p := e.Cl.Pipeline(); _, err := p.Version()(); return err == nil }) {
		t.Fail("not-abandoned", "no operation succeeded after the reply %q", badReply)
	}
	t.Distinct(fmt.Sprint(kinds), bad, badReply)
	t.Sample("%s", t.getDesc())
}

func runC09(c *Ctx) {
	c.Rule("surplus cases append plausible replies (values never planned) to a connection's last proper reply, cut or break it, and let the client reconnect under load; a result whose command arrived on a connection that carried only proper replies must agree with its plan; out-of-step cases put one unparsable reply at every position of a batch; distinct = distinct surplus pattern and arrival order, or distinct batch, position and reply")
	c.Run("surplus", c.N(700, 20000), surplusCase)
	c.Run("outofstep", c.N(600, 15000), outOfStepCase)
	for _, dir := range []int{1, 3, 4} {
		name := map[int]string{1: "cutreconnect", 3: "writefails", 4: "readfails"}[dir]
		c.Run(name, c.N(400, 700), func(t *T) {
			// every offset of the streams of a script, then reconnection: all later results right
			e := cutCase(t, dir, t.Idx, 1)
			for _, o := range e.ops {
				if o.mism != "" {
					t.Fail("cross-connection", "%v: %s", o, o.mism)
				}
			}
		})
	}
	c.Run("instep", c.N(300, 6000), inStepCase)
}

// inStepCase: one reply of a batch is odd (malformed or unusual, its extent unambiguous); every
// other result must be the command's own or an error.
func inStepCase(t *T) {
	r := t.R
	n := 3 + r.IntN(20)
	bad := r.IntN(n - 1)
	odd := pick(r, "VA5\r\nhello\r\n", "VA  5\r\nhello\r\n", "VA 5 W X Z c7 s5 t9\r\nhello\r\n", "HD  \r\n", "HDx\r\n", "SERVER_ERROR\r\n", "CLIENT_ERROR\r\n", "SERVER_ERROR \r\n", "CLIENT_ERROR \r\n",
		"EN x\r\n", "HD c\r\n", "HD c 7\r\n", "VA 5 c\r\nhello\r\n", "VA 5 cW\r\nhello\r\n", "VA 0\r\n\r\n", "EN\r\n", "HD c5 W\r\n", "SERVER_ERROR out of memory\r\n", "VA 2\r\n\r\n\r\n")
	cfg := Cfg{Conns: 1, MaxBatch: pick(r, 100, 4), Limit: 500, Buf: pick(r, 1, 7, 64, 4096), Procs: pick(r, 1, 2, 4), Perturb: pick(r, uint32(0), 10, 100), Coalesce: pick(r, 0, 95), Poison: true}
	t.Desc("%v batch of %d gets, reply %d is %q", cfg, n, bad, odd)
	val := func(i int) string { return fmt.Sprintf("value-%d-%s", i, strings.Repeat("x", i*3)) }
	e := newEnv(t, cfg, EnvOpt{Handler: func(s *fake.Session, c *fake.Cmd) fake.Reply {
		if s.ID == 0 && c.Pos == bad {
			return fake.Reply{Data: []byte(odd)}
		}
		return fake.Reply{Data: fake.Hit{Value: []byte(val(c.Pos)), CAS: uint64(c.Pos) + 1, HasCAS: true}.Bytes()}
	}})
	t.Cleanup(e.Close)
	pl := e.Cl.Pipeline()
	var fs []func() (memcache.MGetResponse, error)
	for i := 0; i < n; i++ {
		fs = append(fs, pl.MGet(fmt.Sprintf("k%d", i), memcache.MGetOptions{CAS: true}))
	}
	for i, f := range fs {
		res, err := f()
		t.Tick()
		if i == bad || err != nil {
			continue
		}
		if string(res.Data) != val(i) || res.CAS != uint64(i)+1 || res.Type != memcache.MGetResponseTypeVA {
			t.Fail("out-of-step", "get %d of %d returned {type %d data %s cas %d}, its own reply was %q; reply %d was %q", i, n, res.Type, bstr(res.Data), res.CAS, val(i), bad, odd)
			return
		}
	}
	t.Distinct(n, bad, odd)
	t.Sample("%s", t.getDesc())
}
