// Package fake is a strict, scriptable memcached stand-in: an independent parser of
// the meta protocol, a recording session layer and a small real store.
package fake

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"
	"sync/atomic"
)

// Cmd is one request as received.
type Cmd struct {
	Seq int64 // global arrival order over all connections
	// ReplySeq is drawn from the same order just before the reply is made.
	ReplySeq atomic.Int64
	Conn     int
	Pos      int // index on its connection

	Verb string // mg ms md version flush_all auth
	Key  string

	V, C bool // mg: value, cas requested
	N    uint64
	HasN bool

	CAS    uint64
	HasCAS bool
	TTL    uint64
	HasTTL bool
	I      bool

	Data []byte
}

func (c *Cmd) String() string {
	d := string(c.Data)
	if len(d) > 24 {
		d = fmt.Sprintf("%s...(%d bytes)", d[:24], len(c.Data))
	}
	return fmt.Sprintf("#%d conn%d[%d] %s %q v=%v c=%v N=%d/%v C=%d/%v T=%d/%v I=%v data=%q", c.Seq, c.Conn, c.Pos, c.Verb, c.Key, c.V, c.C, c.N, c.HasN, c.CAS, c.HasCAS, c.TTL, c.HasTTL, c.I, d)
}

const maxLine = 4096

// ParseError says why bytes are not a valid request.
type ParseError struct{ Msg string }

func (e *ParseError) Error() string { return e.Msg }

func bad(format string, a ...any) error { return &ParseError{fmt.Sprintf(format, a...)} }

func num(tok string, bits int) (uint64, error) {
	s := tok[1:]
	if s == "" || len(s) > 20 {
		return 0, bad("bad number in flag %q", tok)
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, bad("bad number in flag %q", tok)
		}
	}
	v, err := strconv.ParseUint(s, 10, bits)
	if err != nil {
		return 0, bad("number out of range in flag %q", tok)
	}
	return v, nil
}

func checkKey(k string) error {
	if len(k) < 1 || len(k) > 250 {
		return bad("key of length %d", len(k))
	}
	for i := 0; i < len(k); i++ {
		if k[i] <= 0x20 || k[i] >= 0x7f {
			return bad("key byte 0x%02x at %d", k[i], i)
		}
	}
	return nil
}

// Parse takes one request off buf. n==0 with a nil error means more bytes are needed.
// It accepts exactly well-formed requests: single spaces, CRLF line ends, known flags
// without repetition, exact data length.
func Parse(buf []byte) (cmd *Cmd, n int, err error) {
	i := bytes.IndexByte(buf, '\n')
	if i < 0 {
		if len(buf) > maxLine {
			return nil, 0, bad("request line longer than %d bytes", maxLine)
		}
		return nil, 0, nil
	}
	if i > maxLine {
		return nil, 0, bad("request line longer than %d bytes", maxLine)
	}
	if i == 0 || buf[i-1] != '\r' {
		return nil, 0, bad("line not ended by CRLF: %.80q", buf[:i+1])
	}
	line := string(buf[:i-1])
	n = i + 1
	if strings.ContainsAny(line, "\r\x00") {
		return nil, 0, bad("stray control byte in line %.80q", line)
	}
	tok := strings.Split(line, " ")
	for _, t := range tok {
		if t == "" {
			return nil, 0, bad("empty token in line %.80q", line)
		}
	}
	cmd = &Cmd{Verb: tok[0]}
	seen := map[byte]bool{}
	dup := func(f byte) error {
		if seen[f] {
			return bad("flag %c repeated in %.80q", f, line)
		}
		seen[f] = true
		return nil
	}
	switch cmd.Verb {
	case "version", "flush_all":
		if len(tok) != 1 {
			return nil, 0, bad("arguments to %s: %.80q", cmd.Verb, line)
		}
		return cmd, n, nil

	case "mg":
		if len(tok) < 2 {
			return nil, 0, bad("mg without key")
		}
		cmd.Key = tok[1]
		if err := checkKey(cmd.Key); err != nil {
			return nil, 0, err
		}
		for _, t := range tok[2:] {
			if err := dup(t[0]); err != nil {
				return nil, 0, err
			}
			switch {
			case t == "v":
				cmd.V = true
			case t == "c":
				cmd.C = true
			case t[0] == 'N':
				if cmd.N, err = num(t, 32); err != nil {
					return nil, 0, err
				}
				cmd.HasN = true
			default:
				return nil, 0, bad("unknown mg flag %q", t)
			}
		}
		return cmd, n, nil

	case "ms":
		if len(tok) < 3 {
			return nil, 0, bad("ms without key or length: %.80q", line)
		}
		cmd.Key = tok[1]
		if err := checkKey(cmd.Key); err != nil {
			return nil, 0, err
		}
		size, err := num(" "+tok[2], 31)
		if err != nil {
			return nil, 0, bad("bad data length %q", tok[2])
		}
		for _, t := range tok[3:] {
			if err := dup(t[0]); err != nil {
				return nil, 0, err
			}
			switch t[0] {
			case 'C':
				if cmd.CAS, err = num(t, 64); err != nil {
					return nil, 0, err
				}
				cmd.HasCAS = true
			case 'T':
				if cmd.TTL, err = num(t, 32); err != nil {
					return nil, 0, err
				}
				cmd.HasTTL = true
			default:
				return nil, 0, bad("unknown ms flag %q", t)
			}
		}
		need := n + int(size) + 2
		if len(buf) < need {
			return nil, 0, nil
		}
		if buf[need-2] != '\r' || buf[need-1] != '\n' {
			return nil, 0, bad("data block of %d bytes not ended by CRLF (%.80q)", size, line)
		}
		cmd.Data = append([]byte{}, buf[n:n+int(size)]...)
		return cmd, need, nil

	case "md":
		if len(tok) < 2 {
			return nil, 0, bad("md without key")
		}
		cmd.Key = tok[1]
		if err := checkKey(cmd.Key); err != nil {
			return nil, 0, err
		}
		for _, t := range tok[2:] {
			if err := dup(t[0]); err != nil {
				return nil, 0, err
			}
			switch {
			case t == "I":
				cmd.I = true
			case t[0] == 'C':
				if cmd.CAS, err = num(t, 64); err != nil {
					return nil, 0, err
				}
				cmd.HasCAS = true
			case t[0] == 'T':
				if cmd.TTL, err = num(t, 32); err != nil {
					return nil, 0, err
				}
				cmd.HasTTL = true
			default:
				return nil, 0, bad("unknown md flag %q", t)
			}
		}
		return cmd, n, nil

	case "set":
		if len(tok) != 5 || tok[1] != "memcached_auth" || tok[2] != "0" || tok[3] != "0" {
			return nil, 0, bad("unexpected set command %.80q", line)
		}
		size, err := num(" "+tok[4], 31)
		if err != nil {
			return nil, 0, bad("bad data length %q", tok[4])
		}
		need := n + int(size) + 2
		if len(buf) < need {
			return nil, 0, nil
		}
		if buf[need-2] != '\r' || buf[need-1] != '\n' {
			return nil, 0, bad("auth block of %d bytes not ended by CRLF", size)
		}
		cmd.Verb = "auth"
		cmd.Data = append([]byte{}, buf[n:n+int(size)]...)
		return cmd, need, nil
	}
	return nil, 0, bad("unknown command line %.80q", line)
}

// Hit is a structured mg reply with a value.
type Hit struct {
	Value   []byte
	CAS     uint64
	HasCAS  bool
	W, X, Z bool
	NoValue bool // HD form
}

// Bytes encodes it as memcached does.
func (h Hit) Bytes() []byte {
	var b []byte
	if h.NoValue {
		b = append(b, "HD"...)
	} else {
		b = append(b, "VA "...)
		b = strconv.AppendInt(b, int64(len(h.Value)), 10)
	}
	if h.HasCAS {
		b = append(b, " c"...)
		b = strconv.AppendUint(b, h.CAS, 10)
	}
	if h.W {
		b = append(b, " W"...)
	}
	if h.X {
		b = append(b, " X"...)
	}
	if h.Z {
		b = append(b, " Z"...)
	}
	b = append(b, "\r\n"...)
	if !h.NoValue {
		b = append(b, h.Value...)
		b = append(b, "\r\n"...)
	}
	return b
}
