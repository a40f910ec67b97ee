package fake

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verifharness/memconn"
)

// Reply says what the server does for one command.
type Reply struct {
	Data  []byte
	Close bool // after writing Data
	Reset bool // after writing Data
	Stall bool // after writing Data: never answer again, but keep reading
	Drop  bool // do not answer this command and go on
	Blip  bool // before writing Data: be silent until the client's read has expired, then go on
}

// Session is one accepted connection.
type Session struct {
	ID  int
	Srv *Server
	C   net.Conn
	// M and Client are both ends when the connection is in memory.
	M      *memconn.Conn
	Client *memconn.Conn

	mu      sync.Mutex
	cond    *sync.Cond
	cmds    []*Cmd
	queue   []*Cmd
	rdDone  bool
	stalled bool
	wrote   int64

	// Aux is free for handlers (used by one session's replier goroutine only).
	Aux any

	received atomic.Int64
	replied  atomic.Int64
}

// Cmds returns the commands received so far.
func (s *Session) Cmds() []*Cmd {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]*Cmd(nil), s.cmds...)
}

// Received and Replied count commands parsed and replies begun.
func (s *Session) Received() int64 { return s.received.Load() }
func (s *Session) Replied() int64  { return s.replied.Load() }

// Options configure a server.
type Options struct {
	Handler func(s *Session, c *Cmd) Reply
	// OnCmd runs on the reading goroutine as soon as a command is parsed.
	OnCmd func(s *Session, c *Cmd)
	// OnProtoErr runs when a request is malformed; the session reads no further.
	OnProtoErr func(s *Session, err error)
	// OnConn runs when a session starts, before any byte is read.
	OnConn func(s *Session)
	// Split returns the sizes in which reply bytes are written (nil: whole).
	Split func(n int) int
	// Coalesce says whether to hold a reply back to join the next ones.
	Coalesce func() bool
	// Strict: a reply held back by Coalesce waits for the next one even when idle.
	Strict bool
	// Hooks for the client end of connection id.
	Hooks func(id int) memconn.Hooks
	// C2S and S2C are buffer capacities (default 256 KiB).
	C2S, S2C int
	// Dial decides the fate of the n-th dial (0-based) before a connection exists.
	Dial func(n int) error
	// NoLog leaves commands unrecorded and uses no state shared between sessions.
	NoLog bool
	// Raw: do not parse requests; RawServe owns the server end.
	RawServe func(s *Session)
	// ReadPause, if set, runs before every read of the server.
	ReadPause func(s *Session)
}

// Server is the stand-in.
type Server struct {
	Opt Options

	seq   atomic.Int64
	dials atomic.Int64

	mu        sync.Mutex
	sessions  []*Session
	protoErrs []string
	open      int
	maxOpen   int
	ln        net.Listener
	tcpConns  []net.Conn
	stopped   bool
	wg        sync.WaitGroup
}

// New makes a server.
func New(o Options) *Server {
	if o.C2S == 0 {
		o.C2S = 256 << 10
	}
	if o.S2C == 0 {
		o.S2C = 256 << 10
	}
	return &Server{Opt: o}
}

// NextSeq draws from the order shared with command arrivals.
func (srv *Server) NextSeq() int64 { return srv.seq.Add(1) }

// Dials is the number of dial attempts so far.
func (srv *Server) Dials() int64 { return srv.dials.Load() }

// Sessions returns all sessions so far.
func (srv *Server) Sessions() []*Session {
	srv.mu.Lock()
	defer srv.mu.Unlock()
	return append([]*Session(nil), srv.sessions...)
}

// Open is the number of client-side connections not closed by the client; MaxOpen its peak.
func (srv *Server) Open() int    { srv.mu.Lock(); defer srv.mu.Unlock(); return srv.open }
func (srv *Server) MaxOpen() int { srv.mu.Lock(); defer srv.mu.Unlock(); return srv.maxOpen }

// ProtoErrs lists malformed requests received.
func (srv *Server) ProtoErrs() []string {
	srv.mu.Lock()
	defer srv.mu.Unlock()
	return append([]string(nil), srv.protoErrs...)
}

// ErrRefused makes Options.Dial refuse; the client gets one of refusals.
var ErrRefused = errors.New("fake: connection refused")

// refusals are the errors a dial may fail with; none of them may matter to the client.
var refusals = []error{
	ErrRefused,
	&net.OpError{Op: "dial", Net: "tcp", Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)},
	&net.OpError{Op: "dial", Net: "tcp", Err: &net.DNSError{Err: "no such host", Name: "cache", IsNotFound: true}},
	&net.OpError{Op: "dial", Net: "tcp", Err: &net.DNSError{Err: "server misbehaving", Name: "cache", IsTemporary: true}},
	&net.OpError{Op: "dial", Net: "tcp", Err: os.ErrDeadlineExceeded},
	&net.OpError{Op: "dial", Net: "tcp", Err: &net.AddrError{Err: "missing port in address", Addr: "cache"}},
	&net.OpError{Op: "dial", Net: "tcp", Err: os.NewSyscallError("socket", syscall.EMFILE)},
	&net.OpError{Op: "dial", Net: "tcp", Err: os.NewSyscallError("connect", syscall.EHOSTUNREACH)},
	&net.OpError{Op: "dial", Net: "tcp", Err: os.NewSyscallError("connect", syscall.EACCES)},
	syscall.ECONNREFUSED,
	io.EOF,
	io.ErrUnexpectedEOF,
	net.ErrClosed,
	context.Canceled,
	context.DeadlineExceeded,
	os.ErrPermission,
	errors.New(""),
}

// Dial is a dial function for the client.
func (srv *Server) Dial(_, _ string, _ time.Duration) (net.Conn, error) {
	n := int(srv.dials.Add(1)) - 1
	if srv.Opt.Dial != nil {
		if err := srv.Opt.Dial(n); err == ErrRefused {
			return nil, refusals[n*7%len(refusals)]
		} else if err != nil {
			return nil, err
		}
	}
	srv.mu.Lock()
	if srv.stopped {
		srv.mu.Unlock()
		return nil, ErrRefused
	}
	id := len(srv.sessions)
	var hooks memconn.Hooks
	if srv.Opt.Hooks != nil {
		hooks = srv.Opt.Hooks(id)
	}
	cl, se := memconn.Pipe(id, srv.Opt.C2S, srv.Opt.S2C, hooks)
	s := &Session{ID: id, Srv: srv, C: se, M: se, Client: cl}
	s.cond = sync.NewCond(&s.mu)
	srv.sessions = append(srv.sessions, s)
	srv.open++
	if srv.open > srv.maxOpen {
		srv.maxOpen = srv.open
	}
	srv.wg.Add(1)
	srv.mu.Unlock()
	cl.OnClose(func() {
		srv.mu.Lock()
		srv.open--
		srv.mu.Unlock()
	})
	if srv.Opt.OnConn != nil {
		srv.Opt.OnConn(s)
	}
	go srv.run(s)
	return cl, nil
}

// ListenTCP serves on a loopback port and returns its address.
func (srv *Server) ListenTCP() (string, error) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return "", err
	}
	srv.mu.Lock()
	srv.ln = ln
	srv.mu.Unlock()
	srv.wg.Add(1)
	go func() {
		defer srv.wg.Done()
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			srv.mu.Lock()
			if srv.stopped {
				srv.mu.Unlock()
				_ = c.Close()
				return
			}
			s := &Session{ID: len(srv.sessions), Srv: srv, C: c}
			s.cond = sync.NewCond(&s.mu)
			srv.sessions = append(srv.sessions, s)
			srv.tcpConns = append(srv.tcpConns, c)
			srv.wg.Add(1)
			srv.mu.Unlock()
			if srv.Opt.OnConn != nil {
				srv.Opt.OnConn(s)
			}
			go srv.run(s)
		}
	}()
	return ln.Addr().String(), nil
}

func (srv *Server) run(s *Session) {
	defer srv.wg.Done()
	if srv.Opt.RawServe != nil {
		srv.Opt.RawServe(s)
		_ = s.C.Close()
		return
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		s.replier()
	}()
	s.reader()
	<-done
	_ = s.C.Close()
}

func (s *Session) reader() {
	defer func() {
		s.mu.Lock()
		s.rdDone = true
		s.mu.Unlock()
		s.cond.Broadcast()
	}()
	buf := make([]byte, 0, 64<<10)
	tmp := make([]byte, 64<<10)
	pos := 0
	for {
		if s.Srv.Opt.ReadPause != nil {
			s.Srv.Opt.ReadPause(s)
		}
		n, err := s.C.Read(tmp)
		buf = append(buf, tmp[:n]...)
		off := 0
		for off < len(buf) {
			cmd, k, perr := Parse(buf[off:])
			if perr != nil {
				s.Srv.mu.Lock()
				s.Srv.protoErrs = append(s.Srv.protoErrs, fmt.Sprintf("conn%d: %v", s.ID, perr))
				s.Srv.mu.Unlock()
				if f := s.Srv.Opt.OnProtoErr; f != nil {
					f(s, perr)
				}
				s.mu.Lock()
				s.queue = append(s.queue, nil)
				s.mu.Unlock()
				s.cond.Broadcast()
				return
			}
			if k == 0 {
				break
			}
			off += k
			cmd.Conn, cmd.Pos = s.ID, pos
			pos++
			if !s.Srv.Opt.NoLog {
				cmd.Seq = s.Srv.seq.Add(1)
			}
			s.received.Add(1)
			if s.Srv.Opt.OnCmd != nil {
				s.Srv.Opt.OnCmd(s, cmd)
			}
			s.mu.Lock()
			if !s.Srv.Opt.NoLog {
				s.cmds = append(s.cmds, cmd)
			}
			s.queue = append(s.queue, cmd)
			s.mu.Unlock()
			s.cond.Broadcast()
		}
		buf = append(buf[:0], buf[off:]...)
		if err != nil {
			return
		}
	}
}

func (s *Session) write(p []byte) error {
	for len(p) > 0 {
		n := len(p)
		if s.Srv.Opt.Split != nil {
			if k := s.Srv.Opt.Split(n); k > 0 && k < n {
				n = k
			}
		}
		if _, err := s.C.Write(p[:n]); err != nil {
			return err
		}
		p = p[n:]
		if len(p) > 0 {
			runtime.Gosched()
		}
	}
	return nil
}

func (s *Session) replier() {
	var out []byte
	for {
		s.mu.Lock()
		for len(s.queue) == 0 && !s.rdDone {
			if len(out) > 0 && !s.Srv.Opt.Strict {
				break
			}
			s.cond.Wait()
		}
		if len(s.queue) == 0 {
			done := s.rdDone
			s.mu.Unlock()
			if len(out) > 0 {
				_ = s.write(out)
				out = out[:0]
			}
			if done {
				return
			}
			continue
		}
		cmd := s.queue[0]
		s.queue = s.queue[1:]
		stalled := s.stalled
		s.mu.Unlock()
		if cmd == nil { // malformed request
			_ = s.write(out)
			_ = s.C.Close()
			return
		}
		if stalled {
			continue
		}
		r := s.Srv.Opt.Handler(s, cmd)
		if r.Drop {
			continue
		}
		if r.Blip {
			_ = s.write(out)
			out = out[:0]
			s.BlipReads()
		}
		if !s.Srv.Opt.NoLog {
			cmd.ReplySeq.Store(s.Srv.seq.Add(1))
		}
		if len(r.Data) > 0 {
			s.replied.Add(1)
		}
		out = append(out, r.Data...)
		hold := s.Srv.Opt.Coalesce != nil && s.Srv.Opt.Coalesce() && !(r.Close || r.Reset || r.Stall)
		if !hold {
			_ = s.write(out)
			out = out[:0]
		}
		switch {
		case r.Close:
			_ = s.C.Close()
		case r.Reset:
			if s.M != nil {
				s.M.Reset()
			} else {
				_ = s.C.Close()
			}
		case r.Stall:
			s.Stall()
		}
	}
}

// Inject sends bytes that are no reply of the handler.
func (s *Session) Inject(p []byte) { _ = s.write(p) }

// Stall makes the session silent for ever (virtual timeouts apply to the client).
func (s *Session) Stall() {
	s.mu.Lock()
	s.stalled = true
	s.mu.Unlock()
	if s.M != nil {
		s.M.StallPeerReads()
	}
}

// BlipReads stalls until a read of the client has expired (or a connection end is closed),
// then takes the stall back.
func (s *Session) BlipReads() {
	if s.M == nil {
		return
	}
	r0, _ := s.Client.Expired()
	s.M.StallPeerReads()
	for i := 0; !s.M.Closed() && !s.Client.Closed(); i++ {
		if r, _ := s.Client.Expired(); r > r0 {
			break
		}
		time.Sleep(50 * time.Microsecond)
	}
	s.M.ResumePeerReads()
}

// BlipWrites reads nothing until a write of the client has expired, a connection end is
// closed, or the client has not been blocked in a write for a while; then reading goes on.
func (s *Session) BlipWrites() (expired bool) {
	if s.M == nil {
		return false
	}
	_, w0 := s.Client.Expired()
	s.M.StallPeerWrites()
	defer s.M.ResumePeerWrites()
	for idle := 0; idle < 100 && !s.M.Closed() && !s.Client.Closed(); idle++ {
		if _, w := s.Client.Expired(); w > w0 {
			return true
		}
		time.Sleep(50 * time.Microsecond)
	}
	return false
}

// KillAll closes (or resets) every live connection from the server side.
func (srv *Server) KillAll(reset bool) {
	for _, s := range srv.Sessions() {
		if s.M != nil {
			if reset {
				s.M.Reset()
			} else {
				_ = s.M.Close()
			}
		} else {
			_ = s.C.Close()
		}
	}
}

// Stop ends everything and waits for the session goroutines.
func (srv *Server) Stop() {
	srv.mu.Lock()
	srv.stopped = true
	ln := srv.ln
	tcp := srv.tcpConns
	srv.mu.Unlock()
	if ln != nil {
		_ = ln.Close()
	}
	for _, c := range tcp {
		_ = c.Close()
	}
	for _, s := range srv.Sessions() {
		if s.M != nil {
			_ = s.M.Close()
		}
		s.cond.Broadcast()
	}
	srv.wg.Wait()
}
