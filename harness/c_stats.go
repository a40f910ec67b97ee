package main

import (
	"fmt"
	"math"
	"math/rand/v2"
	"reflect"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"github.com/QuangTung97/go-memcache/memcache/netconn"
	"github.com/QuangTung97/go-memcache/memcache/stats"

	"verifharness/fake"
	"verifharness/memconn"
)

func init() {
	registry["C24"] = runC24
	registry["C25"] = runC25
	registry["C26"] = runC26
}

// --- a statistics server ---

type statsReply struct {
	data  []byte
	close bool
	stall bool
	pause int // byte position at which the server hesitates, 0: never
	blip  int // byte position at which the server is silent until the client's read has expired, 0: never
}

type statsEnv struct {
	srv *fake.Server
	cl  *stats.Client
	// next reply for a request line
	answer func(req string) statsReply
	reqs   atomic.Int64
}

// newStats makes a server answering by answer and a client for it.
func newStats(t *T, split, readMax int, answer func(req string) statsReply) *statsEnv {
	e := &statsEnv{answer: answer}
	var draws atomic.Uint64
	seed := t.R.Uint64()
	rnd := func(n int) int { return int(mix(seed+draws.Add(1)) % uint64(n)) }
	o := fake.Options{}
	if readMax > 0 {
		o.Hooks = func(int) memconn.Hooks {
			return memconn.Hooks{ReadLimit: func(int, int64) int { return 1 + rnd(readMax) }}
		}
	}
	o.RawServe = func(s *fake.Session) {
		var buf []byte
		tmp := make([]byte, 4096)
		for {
			for {
				i := strings.Index(string(buf), "\r\n")
				if i < 0 {
					break
				}
				req := string(buf[:i])
				buf = append([]byte(nil), buf[i+2:]...)
				e.reqs.Add(1)
				rep := e.answer(req)
				data := rep.data
				sent := 0
				for len(data) > 0 {
					n := len(data)
					if split > 0 {
						n = min(n, 1+rnd(split))
					}
					if rep.pause > sent && rep.pause < sent+n {
						n = rep.pause - sent
					}
					if rep.blip > sent && rep.blip < sent+n {
						n = rep.blip - sent
					}
					if rep.blip > 0 && sent == rep.blip {
						s.BlipReads()
					}
					if rep.pause > 0 && sent == rep.pause {
						time.Sleep(300 * time.Microsecond)
					}
					if _, err := s.C.Write(data[:n]); err != nil {
						return
					}
					sent += n
					data = data[n:]
				}
				if rep.close {
					return
				}
				if rep.stall {
					s.M.StallPeerReads()
				}
			}
			n, err := s.C.Read(tmp)
			if err != nil {
				return
			}
			buf = append(buf, tmp[:n]...)
		}
	}
	e.srv = fake.New(o)
	opts := []netconn.Option{netconn.WithDialFunc(e.srv.Dial), netconn.WithReadTimeout(far), netconn.WithWriteTimeout(far)}
	e.cl = stats.New("fake:11211", stats.WithNetConnOptions(opts...), stats.WithErrorLogger(func(error) {}))
	t.Cleanup(func() { _ = e.cl.Close(); e.srv.Stop() })
	return e
}

// --- fields as documented by memcached, against the client's result types ---

type statField struct {
	wire, field string
	bits        int
}

var generalFields = []statField{{"pid", "PID", 64}, {"uptime", "Uptime", 64}}

var slabGlobals = []statField{{"active_slabs", "ActiveSlabs", 32}, {"total_malloced", "TotalMalloced", 64}}

var slabFields = []statField{{"chunk_size", "ChunkSize", 32}, {"chunks_per_page", "ChunksPerPage", 32}, {"total_pages", "TotalPages", 32},
	{"total_chunks", "TotalChunks", 64}, {"used_chunks", "UsedChunks", 64}}

var itemFields = []statField{{"number", "Number", 64}, {"number_hot", "NumberHot", 64}, {"number_warm", "NumberWarm", 64}, {"number_cold", "NumberCold", 64},
	{"age_hot", "AgeHot", 64}, {"age_warm", "AgeWarm", 64}, {"age", "Age", 64}, {"mem_requested", "MemRequested", 64},
	{"evicted", "Evicted", 64}, {"evicted_nonzero", "EvictedNonZero", 64}, {"evicted_time", "EvictedTime", 64}, {"outofmemory", "OutOfMemory", 64},
	{"tailrepairs", "TailRepairs", 64}, {"reclaimed", "Reclaimed", 64}, {"expired_unfetched", "ExpiredUnfetched", 64},
	{"evicted_unfetched", "EvictedUnfetched", 64}, {"evicted_active", "EvictedActive", 64}, {"crawler_reclaimed", "CrawlerReclaimed", 64},
	{"crawler_items_checked", "CrawlerItemsChecked", 64}, {"lrutail_reflocked", "LRUTailRefLocked", 64}, {"moves_to_cold", "MovesToCold", 64},
	{"moves_to_warm", "MovesToWarm", 64}, {"moves_within_lru", "MovesWithinLRU", 64}, {"direct_reclaims", "DirectReclaims", 64},
	{"hits_to_hot", "HitsToHot", 64}, {"hits_to_warm", "HitsToWarm", 64}, {"hits_to_cold", "HitsToCold", 64}, {"hits_to_temp", "HitsToTemp", 64}}

var unknownGeneral = []string{"time 1700000000", "version 1.6.21", "libevent 2.1.12-stable", "pointer_size 64", "rusage_user 0.123456", "curr_connections 2",
	"hash_is_expanding 0", "slab_global_page_pool 0", "log_worker_dropped 12", "pids 99", "uptime2 5", "PID 4", "threads 4 x y", "Uptime 77", "pid: 12", "xpid abc"}

var unknownSub = []string{"free_chunks", "free_chunks_end", "get_hits", "cmd_set", "Number", "number_", "chunk_size_", "mem", "age_", "x"}

func (f statField) value(r *rand.Rand) uint64 {
	top := uint64(math.MaxUint64)
	if f.bits == 32 {
		top = math.MaxUint32
	}
	switch r.IntN(6) {
	case 0:
		return 0
	case 1:
		return top
	case 2:
		return top - r.Uint64N(3)
	case 3:
		return r.Uint64N(1000)
	}
	return r.Uint64() & (top >> uint(r.IntN(f.bits)))
}

func set(v reflect.Value, field string, n uint64) { v.FieldByName(field).SetUint(n) }

// statsCase is a reply and what must be made of it.
type statsCase struct {
	req   string
	lines []string
	want  any
	known []int // indices of lines that carry a known field
}

func (c statsCase) bytes(eol string) []byte {
	return []byte(strings.Join(append(append([]string(nil), c.lines...), "END"), eol) + eol)
}

func genGeneral(r *rand.Rand) statsCase {
	c := statsCase{req: "stats"}
	var g stats.GeneralStats
	var lines []string
	for _, f := range generalFields {
		if r.IntN(8) == 0 {
			continue
		}
		n := f.value(r)
		set(reflect.ValueOf(&g).Elem(), f.field, n)
		lines = append(lines, fmt.Sprintf("STAT %s %d", f.wire, n))
	}
	known := len(lines)
	for k := r.IntN(12); k > 0; k-- {
		lines = append(lines, "STAT "+pick(r, unknownGeneral...))
	}
	perm := r.Perm(len(lines))
	for _, p := range perm {
		if p < known {
			c.known = append(c.known, len(c.lines))
		}
		c.lines = append(c.lines, lines[p])
	}
	c.want = g
	return c
}

// genClasses makes the lines of per-class statistics; prefix is "" or "items:".
func genClasses(r *rand.Rand, prefix string, fields []statField, full bool, put func(class uint32, field string, n uint64)) (lines []string, known []bool, order []uint32) {
	type ln struct {
		s     string
		class uint32
		known bool
		apply func()
	}
	n := pick(r, 0, 1, 2, 3, 5, 20, 63)
	seen := map[uint32]bool{}
	var blocks [][]ln
	for len(blocks) < n {
		class := uint32(len(blocks) + 1)
		if r.IntN(6) == 0 {
			class = randU32(r)
		}
		if seen[class] {
			class = r.Uint32()
		}
		if seen[class] {
			continue
		}
		seen[class] = true
		var b []ln
		for _, f := range fields {
			if !full && len(b) > 0 && r.IntN(5) == 0 {
				continue
			}
			v := f.value(r)
			b = append(b, ln{fmt.Sprintf("STAT %s%d:%s %d", prefix, class, f.wire, v), class, true, func() { put(class, f.field, v) }})
		}
		for k := r.IntN(4); k > 0; k-- {
			b = append(b, ln{fmt.Sprintf("STAT %s%d:%s %s", prefix, class, pick(r, unknownSub...), pick(r, "1", "0", "abc", "18446744073709551616", "1.5")), class, false, func() {}})
		}
		if r.IntN(2) == 0 {
			r.Shuffle(len(b), func(i, j int) { b[i], b[j] = b[j], b[i] })
		}
		for i := range b { // a class is reported by its first known field
			if b[i].known {
				b[0], b[i] = b[i], b[0]
				break
			}
		}
		blocks = append(blocks, b)
	}
	if r.IntN(3) == 0 {
		r.Shuffle(len(blocks), func(i, j int) { blocks[i], blocks[j] = blocks[j], blocks[i] })
	}
	var all []ln
	if r.IntN(3) == 0 { // interleaved
		for len(blocks) > 0 {
			i := r.IntN(len(blocks))
			all = append(all, blocks[i][0])
			if blocks[i] = blocks[i][1:]; len(blocks[i]) == 0 {
				blocks = append(blocks[:i], blocks[i+1:]...)
			}
		}
	} else {
		for _, b := range blocks {
			all = append(all, b...)
		}
	}
	listed := map[uint32]bool{}
	for _, l := range all {
		l.apply()
		if !listed[l.class] {
			listed[l.class] = true
			order = append(order, l.class)
		}
		lines = append(lines, l.s)
		known = append(known, l.known)
	}
	return
}

func genSlabs(r *rand.Rand, full bool) statsCase {
	c := statsCase{req: "stats slabs"}
	g := stats.SlabsStats{Slabs: map[uint32]stats.SingleSlabStats{}}
	lines, known, order := genClasses(r, "", slabFields, full, func(class uint32, field string, n uint64) {
		s := g.Slabs[class]
		set(reflect.ValueOf(&s).Elem(), field, n)
		g.Slabs[class] = s
	})
	g.SlabIDs = order
	for _, f := range slabGlobals {
		if !full && r.IntN(8) == 0 {
			continue
		}
		n := f.value(r)
		set(reflect.ValueOf(&g).Elem(), f.field, n)
		at := r.IntN(len(lines) + 1)
		if r.IntN(2) == 0 {
			at = len(lines)
		}
		lines = append(lines[:at], append([]string{fmt.Sprintf("STAT %s %d", f.wire, n)}, lines[at:]...)...)
		known = append(known[:at], append([]bool{true}, known[at:]...)...)
	}
	c.lines = lines
	for i, k := range known {
		if k {
			c.known = append(c.known, i)
		}
	}
	c.want = g
	return c
}

func genItems(r *rand.Rand, full bool) statsCase {
	c := statsCase{req: "stats items"}
	g := stats.SlabItemsStats{Slabs: map[uint32]stats.SingleSlabItemStats{}}
	lines, known, order := genClasses(r, "items:", itemFields, full, func(class uint32, field string, n uint64) {
		s := g.Slabs[class]
		set(reflect.ValueOf(&s).Elem(), field, n)
		g.Slabs[class] = s
	})
	g.SlabIDs = order
	c.lines = lines
	for i, k := range known {
		if k {
			c.known = append(c.known, i)
		}
	}
	c.want = g
	return c
}

func genStats(r *rand.Rand, kind int, full bool) statsCase {
	switch kind {
	case 0:
		return genGeneral(r)
	case 1:
		return genSlabs(r, full)
	}
	return genItems(r, full)
}

func callStats(cl *stats.Client, kind int) (any, error) {
	switch kind {
	case 0:
		return cl.GetGeneralStats()
	case 1:
		return cl.GetSlabsStats()
	}
	return cl.GetSlabItemsStats()
}

func sameStats(a, b any) bool {
	norm := func(x any) any {
		switch v := x.(type) {
		case stats.SlabsStats:
			if len(v.SlabIDs) == 0 {
				v.SlabIDs = nil
			}
			return v
		case stats.SlabItemsStats:
			if len(v.SlabIDs) == 0 {
				v.SlabIDs = nil
			}
			return v
		}
		return x
	}
	return reflect.DeepEqual(norm(a), norm(b))
}

func firstDiff(got, want any) string {
	g, w := fmt.Sprintf("%+v", got), fmt.Sprintf("%+v", want)
	i := 0
	for i < len(g) && i < len(w) && g[i] == w[i] {
		i++
	}
	cut := func(s string) string { return s[max(0, min(i-40, len(s))):min(len(s), i+80)] }
	return fmt.Sprintf("got ...%s... want ...%s...", cut(g), cut(w))
}

var badNumbers = []string{"abc", "-1", "1.5", "18446744073709551616", "99999999999999999999999", "0x10", "1e3", "1_000", "12a", "a12", "+7", "--", "NaN"}

// malform damages one line that carries a known field.
func malform(r *rand.Rand, c statsCase) (statsCase, string) {
	if len(c.known) == 0 {
		c.lines = append(c.lines, "")
		return c, "empty line"
	}
	i := c.known[r.IntN(len(c.known))]
	lines := append([]string(nil), c.lines...)
	f := strings.Fields(lines[i])
	var what string
	switch r.IntN(8) {
	case 0:
		lines[i] = strings.Join(f[:2], " ")
	case 1:
		lines[i] = pick(r, "", "garbage", "stat pid 5", "STATS pid 5", "VALUE x 0 1", "pid 5", "ENDX", "HD", "[1]", "STAT")
	case 2:
		if strings.Contains(f[1], ":") {
			p := strings.Split(f[1], ":")
			k := len(p) - 2
			p[k] = pick(r, "x", "-1", "4294967296", "", "1.5")
			lines[i] = f[0] + " " + strings.Join(p, ":") + " " + f[2]
			break
		}
		fallthrough
	default:
		bad := pick(r, badNumbers...)
		for _, s := range []string{"active_slabs", ":chunk_size", ":chunks_per_page", ":total_pages"} {
			if strings.HasSuffix(f[1], s) && r.IntN(2) == 0 {
				bad = pick(r, "4294967296", "18446744073709551615", "4294967297")
			}
		}
		lines[i] = f[0] + " " + f[1] + " " + bad
	}
	what = fmt.Sprintf("line %d %q for %q", i, lines[i], c.lines[i])
	c.lines = lines
	return c, what
}

func runC24(c *Ctx) {
	c.Rule("replies to the three statistics calls are generated from expected results: every known field over its range, classes in any order, unknown fields mixed in, fragmented reads and writes; then damaged on a known field or cut at every byte; distinct = distinct replies")
	one := func(t *T, kind int, sc statsCase, split, readMax int) {
		t.Desc("%s split=%d readmax=%d reply %.1500q", sc.req, split, readMax, sc.bytes("\r\n"))
		e := newStats(t, split, readMax, func(req string) statsReply {
			if req != sc.req {
				t.Fail("request", "the request was %q, want %q", req, sc.req)
			}
			return statsReply{data: sc.bytes("\r\n")}
		})
		for k := 0; k < 2; k++ {
			got, err := callStats(e.cl, kind)
			t.Tick()
			if err != nil {
				t.Fail("error", "%s failed on a well-formed reply: %v", sc.req, err)
				return
			}
			if !sameStats(got, sc.want) {
				t.Fail("wrong", "%s: %s", sc.req, firstDiff(got, sc.want))
				return
			}
		}
		t.Count("lines_decoded", int64(2*len(sc.lines)))
		t.Distinct(sc.req, fmt.Sprint(sc.lines))
		t.Sample("%s", t.getDesc())
	}
	c.Run("good", c.N(1500, 30000), func(t *T) {
		r := t.R
		kind := t.Idx % 3
		one(t, kind, genStats(r, kind, r.IntN(3) == 0), pick(r, 0, 0, 1, 3, 100), pick(r, 0, 0, 1, 7, 1000))
	})
	// every known field alone, at the ends of its range
	var single []func(t *T)
	addSingle := func(kind int, f statField) {
		top := uint64(math.MaxUint64)
		if f.bits == 32 {
			top = math.MaxUint32
		}
		for _, v := range []uint64{0, 1, 9, 10, top / 2, top - 1, top} {
			single = append(single, func(t *T) {
				sc := statsCase{req: []string{"stats", "stats slabs", "stats items"}[kind]}
				switch {
				case kind == 0:
					var g stats.GeneralStats
					set(reflect.ValueOf(&g).Elem(), f.field, v)
					sc.lines, sc.want = []string{fmt.Sprintf("STAT %s %d", f.wire, v)}, g
				case kind == 1:
					g := stats.SlabsStats{Slabs: map[uint32]stats.SingleSlabStats{}}
					if reflect.ValueOf(g).FieldByName(f.field).IsValid() {
						set(reflect.ValueOf(&g).Elem(), f.field, v)
						sc.lines = []string{fmt.Sprintf("STAT %s %d", f.wire, v)}
					} else {
						var s stats.SingleSlabStats
						set(reflect.ValueOf(&s).Elem(), f.field, v)
						g.SlabIDs, g.Slabs[7] = []uint32{7}, s
						sc.lines = []string{fmt.Sprintf("STAT 7:%s %d", f.wire, v)}
					}
					sc.want = g
				default:
					g := stats.SlabItemsStats{SlabIDs: []uint32{4294967295}, Slabs: map[uint32]stats.SingleSlabItemStats{}}
					var s stats.SingleSlabItemStats
					set(reflect.ValueOf(&s).Elem(), f.field, v)
					g.Slabs[4294967295] = s
					sc.lines, sc.want = []string{fmt.Sprintf("STAT items:4294967295:%s %d", f.wire, v)}, g
				}
				one(t, kind, sc, 0, 0)
			})
		}
	}
	for _, f := range generalFields {
		addSingle(0, f)
	}
	for _, f := range append(append([]statField(nil), slabGlobals...), slabFields...) {
		addSingle(1, f)
	}
	for _, f := range itemFields {
		addSingle(2, f)
	}
	c.Run("field", len(single), func(t *T) { single[t.Idx](t) })
	// every field with every bad number
	type badCase struct {
		kind int
		line string
	}
	var bads []badCase
	for _, b := range append([]string{"4294967296"}, badNumbers...) {
		for _, f := range generalFields {
			bads = append(bads, badCase{0, "STAT " + f.wire + " " + b})
		}
		for _, f := range slabGlobals {
			bads = append(bads, badCase{1, "STAT " + f.wire + " " + b})
		}
		for _, f := range slabFields {
			bads = append(bads, badCase{1, "STAT 3:" + f.wire + " " + b})
		}
		for _, f := range itemFields {
			bads = append(bads, badCase{2, "STAT items:3:" + f.wire + " " + b})
		}
	}
	c.Run("badnumber", len(bads), func(t *T) {
		b := bads[t.Idx]
		wide := true
		for _, s := range []string{"active_slabs", ":chunk_size", ":chunks_per_page", ":total_pages"} {
			if strings.HasSuffix(strings.Fields(b.line)[1], s) {
				wide = false
			}
		}
		if wide && strings.HasSuffix(b.line, " 4294967296") {
			return // in range
		}
		t.Desc("%s", b.line)
		e := newStats(t, 0, 0, func(string) statsReply { return statsReply{data: []byte(b.line + "\r\nEND\r\n")} })
		got, err := callStats(e.cl, b.kind)
		if err == nil {
			t.Fail("malformed-accepted", "%q was accepted as %+v", b.line, got)
		}
		t.Distinct(b.line)
	})
	c.Run("malformed", c.N(900, 20000), func(t *T) {
		r := t.R
		kind := t.Idx % 3
		sc, what := malform(r, genStats(r, kind, false))
		t.Desc("%s %s", sc.req, what)
		e := newStats(t, pick(r, 0, 1, 5), pick(r, 0, 3), func(string) statsReply {
			return statsReply{data: sc.bytes("\r\n"), close: true}
		})
		got, err := callStats(e.cl, kind)
		if err == nil {
			t.Fail("malformed-accepted", "%s was accepted: %.300s", what, fmt.Sprintf("%+v", got))
		}
		t.Distinct(what)
		t.Sample("%s: %v", t.getDesc(), err)
	})
	// cut at every byte
	for kind := 0; kind < 3; kind++ {
		cr := rand.New(rand.NewPCG(5, uint64(kind)))
		sc := genStats(cr, kind, true)
		for len(sc.lines) > 40 || len(sc.lines) < 2 {
			sc = genStats(cr, kind, true)
		}
		full := sc.bytes("\r\n")
		c.Run(fmt.Sprintf("cut%d", kind), len(full), func(t *T) {
			n := t.Idx
			how := t.R.IntN(2)
			t.Desc("%s cut after %d of %d bytes (%d), reply %.600q", sc.req, n, len(full), how, full)
			e := newStats(t, 0, pick(t.R, 0, 0, 3), func(string) statsReply {
				return statsReply{data: full[:n], close: how == 0, stall: how == 1}
			})
			got, err := callStats(e.cl, kind)
			switch {
			case err == nil && n < len(full)-2:
				t.Fail("truncated-accepted", "%s cut after %d of %d bytes was accepted: %.300s", sc.req, n, len(full), fmt.Sprintf("%+v", got))
			case err == nil && !sameStats(got, sc.want):
				t.Fail("wrong", "%s", firstDiff(got, sc.want))
			}
			t.Distinct(kind, n, how)
		})
	}
}

// --------------------------------------------------------------------------- C25

func runC25(c *Ctx) {
	c.Rule("sequences of 3..12 calls (three statistics calls and key dumps) on one client, each reply generated afresh with random numbers, some damaged in a line or value or replaced by an error line, some arriving with a pause in the middle; a call without error must return exactly what its own reply says; distinct = distinct sequences")
	c.Run("sequence", c.N(2400, 50000), func(t *T) {
		r := t.R
		type step struct {
			kind int
			sc   statsCase
			dump []stats.MetaDumpKey
			rep  statsReply
			bad  string
		}
		var steps []step
		var names []string
		for k := 3 + r.IntN(10); k > 0; k-- {
			s := step{kind: r.IntN(4)}
			if s.kind == 3 {
				var lines []string
				s.sc.req = "lru_crawler metadump all"
				s.dump, lines = genDump(r, r.IntN(12))
				s.sc.lines = lines
			} else {
				s.sc = genStats(r, s.kind, false)
				for len(s.sc.lines) > 60 {
					s.sc = genStats(r, s.kind, false)
				}
			}
			if r.IntN(3) == 0 {
				switch {
				case r.IntN(4) == 0:
					s.bad = pick(r, "ERROR", "SERVER_ERROR out of memory writing stats", "CLIENT_ERROR bad command line format", "BUSY currently processing crawler request")
					n := 0
					if r.IntN(2) == 0 && s.kind < 3 {
						n = r.IntN(len(s.sc.lines) + 1)
					}
					s.rep.data = []byte(strings.Join(append(append([]string(nil), s.sc.lines[:n]...), s.bad), "\r\n") + "\r\n")
				case s.kind == 3:
					lines := append([]string(nil), s.sc.lines...)
					line := pick(r, badDumpLines...)
					s.bad = fmt.Sprintf("line %q", line)
					at := r.IntN(len(lines) + 1)
					lines = append(lines[:at], append([]string{line}, lines[at:]...)...)
					s.rep.data = []byte(strings.Join(append(lines, "END"), "\r\n") + "\r\n")
				default:
					sc, what := malform(r, s.sc)
					s.bad = what
					s.rep.data = sc.bytes("\r\n")
				}
			} else {
				s.rep.data = s.sc.bytes("\r\n")
			}
			if r.IntN(3) == 0 && len(s.rep.data) > 2 {
				s.rep.pause = 1 + r.IntN(len(s.rep.data)-1)
			}
			if r.IntN(12) == 0 && len(s.rep.data) > 2 {
				s.rep.blip = 1 + r.IntN(len(s.rep.data)-1)
				s.bad += " times out in the middle"
			}
			steps = append(steps, s)
			b := ""
			if s.bad != "" {
				b = " (" + s.bad + ")"
			}
			names = append(names, s.sc.req+b)
		}
		t.Desc("calls %q", names)
		var cur atomic.Int64
		e := newStats(t, pick(r, 0, 0, 1, 50), pick(r, 0, 0, 5), func(req string) statsReply {
			s := steps[cur.Load()]
			if req != s.sc.req { // of a call that had given up already
				return statsReply{data: []byte("ERROR\r\n")}
			}
			return s.rep
		})
		failed := false
		for i, s := range steps {
			cur.Store(int64(i))
			var err error
			var diff string
			if s.kind == 3 {
				var got []stats.MetaDumpKey
				err = e.cl.MetaDumpAll(func(k stats.MetaDumpKey) { got = append(got, k) })
				if err == nil {
					diff = diffDump(got, s.dump)
				}
			} else {
				var got any
				got, err = callStats(e.cl, s.kind)
				if err == nil && !sameStats(got, s.sc.want) {
					diff = firstDiff(got, s.sc.want)
				}
			}
			t.Tick()
			if s.bad != "" {
				failed = true
				if err == nil {
					// accepting it is another property's matter; returning something else's data is ours
					if diff != "" && strings.Contains(s.bad, "ERROR") {
						t.Fail("not-its-own", "call %d (%s) answered %q returned no error: %s", i, s.sc.req, s.bad, diff)
					}
				} else {
					t.Count("failed_calls", 1)
				}
				continue
			}
			switch {
			case err == nil && diff != "":
				t.Fail("not-its-own", "call %d (%s), after %q: %s", i, s.sc.req, names[:i], diff)
			case err == nil && failed:
				t.Count("good_calls_after_failures", 1)
			case err == nil:
				t.Count("good_calls", 1)
			case !failed:
				t.Fail("error", "call %d (%s) failed on the well-formed reply %.2000q without an earlier failure: %v", i, s.sc.req, s.rep.data, err)
			default:
				t.Count("refused_after_failures", 1)
			}
			if t.failed.Load() {
				return
			}
		}
		t.Distinct(fmt.Sprint(names))
		t.Sample("%s", t.getDesc())
	})
}

// --------------------------------------------------------------------------- C26

const unreserved = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~"

// sub-delimiters and the like that an encoder may as well leave alone
const rawToo = "!$&'()*+,;:@/?\"<>^`{}|[]#\\"

// uriEncodeSome leaves more characters alone than memcached does.
func uriEncodeSome(r *rand.Rand, k string) string {
	var b strings.Builder
	for i := 0; i < len(k); i++ {
		if strings.IndexByte(unreserved, k[i]) >= 0 && r.IntN(20) > 0 || strings.IndexByte(rawToo, k[i]) >= 0 && r.IntN(2) == 0 {
			b.WriteByte(k[i])
		} else {
			fmt.Fprintf(&b, pick(r, "%%%02X", "%%%02X", "%%%02x"), k[i])
		}
	}
	return b.String()
}

// uriEncode encodes as memcached does.
func uriEncode(k string) string {
	var b strings.Builder
	for i := 0; i < len(k); i++ {
		if strings.IndexByte(unreserved, k[i]) >= 0 {
			b.WriteByte(k[i])
		} else {
			fmt.Fprintf(&b, "%%%02X", k[i])
		}
	}
	return b.String()
}

func genDump(r *rand.Rand, n int) (keys []stats.MetaDumpKey, lines []string) {
	for i := 0; i < n; i++ {
		kb := make([]byte, 1+r.IntN(pick(r, 1, 8, 30, 250)))
		mode := r.IntN(4)
		for j := range kb {
			switch mode {
			case 0:
				kb[j] = byte(r.IntN(256))
			case 1:
				kb[j] = "%+=& /:?#2F\r\n\x00"[r.IntN(14)]
			default:
				kb[j] = padChars[r.IntN(len(padChars))]
			}
		}
		k := stats.MetaDumpKey{Key: string(kb), Exp: pick(r, -1, -1, int64(randU64(r)), int64(randU32(r))), LA: pick(r, 1700000000, int64(randU64(r)>>1), 0),
			CAS: randU64(r), Fetch: r.IntN(2) == 0, Class: randU32(r), Size: randU32(r)}
		keys = append(keys, k)
		f := "no"
		if k.Fetch {
			f = "yes"
		}
		enc := uriEncode(k.Key)
		if r.IntN(3) == 0 {
			enc = uriEncodeSome(r, k.Key)
		}
		l := fmt.Sprintf("key=%s exp=%d la=%d cas=%d fetch=%s cls=%d size=%d", enc, k.Exp, k.LA, k.CAS, f, k.Class, k.Size)
		if r.IntN(8) == 0 {
			l += pick(r, " flags=0", " ext=1 flags=77", " x=abc")
		}
		lines = append(lines, l)
	}
	return
}

var badDumpLines = []string{"key", "key=%zz exp=-1 la=1 cas=1 fetch=no cls=1 size=1", "key=a%2 exp=-1 la=1 cas=1 fetch=no cls=1 size=1", "key=a exp=x la=1 cas=1 fetch=no cls=1 size=1",
	"key=a exp=-1 la=y cas=1 fetch=no cls=1 size=1", "key=a exp=-1 la=1 cas=-1 fetch=no cls=1 size=1", "key=a exp=-1 la=1 cas=18446744073709551616 fetch=no cls=1 size=1",
	"key=a exp=-1 la=1 cas=1 fetch=no cls=4294967296 size=1", "key=a exp=-1 la=1 cas=1 fetch=no cls=1 size=4294967296", "key=a exp=9223372036854775808 la=1 cas=1 fetch=no cls=1 size=1",
	"key=a exp=-1 la=1 cas=1 fetch=no cls=1 size=-5", "", "garbage", "key=a exp", "STAT pid 5", "ENDX", "EN", "HD"}

var dumpErrors = []string{"ERROR", "BUSY currently processing crawler request", "CLIENT_ERROR lru crawler disabled", "BADCLASS invalid class id", "SERVER_ERROR out of memory", "NOTSTARTED no items to crawl"}

func diffDump(got, want []stats.MetaDumpKey) string {
	for i := range got {
		if i >= len(want) {
			return fmt.Sprintf("%d keys instead of %d; extra %+v", len(got), len(want), got[i])
		}
		if got[i] != want[i] {
			return fmt.Sprintf("key %d: got %+v want %+v", i, got[i], want[i])
		}
	}
	if len(got) < len(want) {
		return fmt.Sprintf("%d keys instead of %d", len(got), len(want))
	}
	return ""
}

func runC26(c *Ctx) {
	c.Rule("dumps of 0..2000 keys of arbitrary bytes with full-range metadata, LF or CRLF line ends, fragmented; cut at every byte (closed, stalled); damaged lines and error lines at any position; callbacks are compared with what was sent, and nil is accepted only with the end marker; distinct = distinct dumps")
	c.Run("good", c.N(900, 20000), func(t *T) {
		r := t.R
		n := pick(r, 0, 1, 2, 5, 40, 40, 300, 2000)
		want, lines := genDump(r, n)
		eol := pick(r, "\r\n", "\n")
		data := []byte(strings.Join(lines, eol))
		if n > 0 {
			data = append(data, eol...)
		}
		data = append(data, "END\r\n"...)
		split, rm := pick(r, 0, 0, 1, 100), pick(r, 0, 0, 1, 5000)
		if len(data) > 20000 {
			split, rm = 0, pick(r, 0, 100)
		}
		t.Desc("%d keys eol %q split %d readmax %d: %.400q", n, eol, split, rm, data)
		e := newStats(t, split, rm, func(req string) statsReply {
			if req != "lru_crawler metadump all" {
				t.Fail("request", "request %q", req)
			}
			return statsReply{data: data}
		})
		for k := 0; k < 2; k++ {
			var got []stats.MetaDumpKey
			err := e.cl.MetaDumpAll(func(k stats.MetaDumpKey) { got = append(got, k) })
			t.Tick()
			if err != nil {
				t.Fail("error", "a complete dump of %d keys failed after %d callbacks: %v", n, len(got), err)
				return
			}
			if d := diffDump(got, want); d != "" {
				t.Fail("wrong", "%s", d)
				return
			}
		}
		t.Count("keys_dumped", int64(2*n))
		t.Distinct(string(data))
		t.Sample("%s", t.getDesc())
	})
	// each byte value as a key, and in the middle of one
	c.Run("bytes", 256, func(t *T) {
		b := byte(t.Idx)
		want := []stats.MetaDumpKey{{Key: string([]byte{b}), Exp: -1, LA: 1, CAS: 2, Fetch: true, Class: 3, Size: 4}, {Key: "a" + string([]byte{b}) + "z", Exp: -1}}
		data := fmt.Sprintf("key=%s exp=-1 la=1 cas=2 fetch=yes cls=3 size=4\nkey=%s exp=-1 la=0 cas=0 fetch=no cls=0 size=0\nEND\r\n", uriEncode(want[0].Key), uriEncode(want[1].Key))
		e := newStats(t, 0, 0, func(string) statsReply { return statsReply{data: []byte(data)} })
		var got []stats.MetaDumpKey
		err := e.cl.MetaDumpAll(func(k stats.MetaDumpKey) { got = append(got, k) })
		if d := diffDump(got, want); d != "" || err != nil {
			t.Fail("wrong", "byte %d: %v %s", b, err, d)
		}
		t.Distinct(b)
	})
	want, lines := genDump(rand.New(rand.NewPCG(3, 3)), 3)
	for i := range lines { // keep it short
		want[i].Key = "key:" + strconv.Itoa(i)
		f := "no"
		if want[i].Fetch {
			f = "yes"
		}
		lines[i] = fmt.Sprintf("key=%s exp=%d la=%d cas=%d fetch=%s cls=%d size=%d", uriEncode(want[i].Key), want[i].Exp, want[i].LA, want[i].CAS, f, want[i].Class, want[i].Size)
	}
	for k, eol := range []string{"\n", "\r\n"} {
		full := []byte(strings.Join(lines, eol) + eol + "END\r\n")
		c.Run(fmt.Sprintf("cut%d", k), 2*len(full), func(t *T) {
			n, stall := t.Idx/2, t.Idx%2 == 1
			t.Desc("dump cut after %d of %d bytes, stall=%v: %.500q", n, len(full), stall, full)
			e := newStats(t, 0, pick(t.R, 0, 0, 5), func(string) statsReply { return statsReply{data: full[:n], close: !stall, stall: stall} })
			var got []stats.MetaDumpKey
			err := e.cl.MetaDumpAll(func(k stats.MetaDumpKey) { got = append(got, k) })
			if err == nil && n < len(full)-2 {
				t.Fail("incomplete-accepted", "a dump cut after %d of %d bytes returned nil after %d of %d keys", n, len(full), len(got), len(want))
			}
			if len(got) > len(want) {
				t.Fail("wrong", "%d keys, %d sent", len(got), len(want))
			} else if d := diffDump(got, want[:len(got)]); d != "" {
				t.Fail("wrong", "cut after %d bytes: %s", n, d)
			}
			t.Distinct(n, stall, eol)
		})
	}
	c.Run("damaged", c.N(600, 10000), func(t *T) {
		r := t.R
		want, lines := genDump(r, r.IntN(10))
		at := r.IntN(len(lines) + 1)
		bad := pick(r, badDumpLines...)
		isErr := r.IntN(3) == 0
		if isErr {
			bad = pick(r, dumpErrors...)
		}
		all := append(append([]string(nil), lines[:at]...), bad)
		if !isErr {
			all = append(append(all, lines[at:]...), "END")
		}
		t.Desc("line %d of a dump is %q", at, bad)
		e := newStats(t, pick(r, 0, 3), 0, func(string) statsReply {
			return statsReply{data: []byte(strings.Join(all, "\n") + "\n"), close: r == nil, stall: true}
		})
		var got []stats.MetaDumpKey
		err := e.cl.MetaDumpAll(func(k stats.MetaDumpKey) { got = append(got, k) })
		if err == nil {
			t.Fail("damaged-accepted", "a dump with the line %q returned nil", bad)
		}
		if d := diffDump(got, want[:min(len(got), at)]); d != "" {
			t.Fail("wrong", "before the line %q: %s", bad, d)
		}
		t.Distinct(bad, at, fmt.Sprint(lines))
		t.Sample("%s: %v", t.getDesc(), err)
	})
	c.Run("refused", 8, func(t *T) {
		cl := stats.New("fake:1", stats.WithNetConnOptions(netconn.WithDialFunc(fake.New(fake.Options{Dial: func(int) error { return fake.ErrRefused }}).Dial)), stats.WithErrorLogger(func(error) {}))
		if err := cl.MetaDumpAll(func(stats.MetaDumpKey) { t.Fail("wrong", "a callback without a server") }); err == nil {
			t.Fail("incomplete-accepted", "a dump without a connection returned nil")
		}
		_ = cl.Close()
		t.Distinct(t.Idx)
	})
}

// statsDeadlines runs a few statistics calls over a connection whose deadlines are checked.
func statsDeadlines(t *T, rt, wt time.Duration, reads, writes *atomic.Int64) {
	r := t.R
	srv := fake.New(fake.Options{Hooks: func(int) memconn.Hooks {
		h := deadlineHooks(t, rt, wt, reads, writes)
		h.ReadLimit = func(n int, _ int64) int { return max(1, n/2) }
		return h
	}, RawServe: func(s *fake.Session) {
		var buf []byte
		tmp := make([]byte, 100)
		for {
			n, err := s.C.Read(tmp)
			if err != nil {
				return
			}
			buf = append(buf, tmp[:n]...)
			for strings.Contains(string(buf), "\r\n") {
				i := strings.Index(string(buf), "\r\n")
				buf = buf[i+2:]
				if _, err := s.C.Write([]byte("STAT pid 5\r\nEND\r\n")); err != nil {
					return
				}
			}
		}
	}})
	cl := stats.New("fake:1", stats.WithNetConnOptions(netconn.WithDialFunc(srv.Dial), netconn.WithReadTimeout(rt), netconn.WithWriteTimeout(wt)))
	for k := 0; k < 1+r.IntN(5); k++ {
		if g, err := cl.GetGeneralStats(); err != nil || g.PID != 5 {
			t.Fail("error", "statistics: %+v %v", g, err)
		}
	}
	_ = cl.Close()
	srv.Stop()
}
