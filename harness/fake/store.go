package fake

import (
	"strconv"
	"sync"
)

type item struct {
	val   []byte
	cas   uint64
	stale bool
	won   bool // the win token has been handed out (N / stale)
}

// Store is a small real memcached: meta get/set/delete with CAS, lease (N) and
// stale (I) semantics. It applies each command atomically.
type Store struct {
	mu    sync.Mutex
	items map[string]*item
	cas   uint64
}

// NewStore makes an empty store.
func NewStore() *Store { return &Store{items: map[string]*item{}} }

// Handle applies one command.
func (st *Store) Handle(_ *Session, c *Cmd) Reply {
	st.mu.Lock()
	defer st.mu.Unlock()
	switch c.Verb {
	case "version":
		return Reply{Data: []byte("VERSION 1.6.fake\r\n")}
	case "flush_all":
		st.items = map[string]*item{}
		return Reply{Data: []byte("OK\r\n")}
	case "mg":
		it := st.items[c.Key]
		h := Hit{HasCAS: c.C, NoValue: !c.V}
		if it == nil {
			if !c.HasN {
				return Reply{Data: []byte("EN\r\n")}
			}
			st.cas++
			it = &item{cas: st.cas, won: true}
			st.items[c.Key] = it
			h.W = true
		} else {
			if it.stale {
				h.X = true
			}
			if it.won {
				h.Z = true
			} else if it.stale {
				it.won = true
				h.W = true
			}
		}
		h.Value, h.CAS = it.val, it.cas
		return Reply{Data: h.Bytes()}
	case "ms":
		it := st.items[c.Key]
		if c.HasCAS {
			if it == nil {
				return Reply{Data: []byte("NF\r\n")}
			}
			if it.cas != c.CAS {
				return Reply{Data: []byte("EX\r\n")}
			}
		}
		st.cas++
		st.items[c.Key] = &item{val: c.Data, cas: st.cas}
		return Reply{Data: []byte("HD\r\n")}
	case "md":
		it := st.items[c.Key]
		if it == nil {
			return Reply{Data: []byte("NF\r\n")}
		}
		if c.HasCAS && it.cas != c.CAS {
			return Reply{Data: []byte("EX\r\n")}
		}
		if c.I {
			st.cas++
			it.cas = st.cas
			it.stale = true
			it.won = false
		} else {
			delete(st.items, c.Key)
		}
		return Reply{Data: []byte("HD\r\n")}
	}
	return Reply{Data: []byte("ERROR\r\n")}
}

// Itoa is a shorthand.
func Itoa(n int) string { return strconv.Itoa(n) }
