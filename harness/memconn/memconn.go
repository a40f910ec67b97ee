// Package memconn is an in-memory full-duplex net.Conn with bounded buffers,
// deadlines, controllable fragmentation and fault injection.
//
// Stalls use virtual time: when an end is told that its peer has stalled, a
// blocked Read or Write fails with a timeout as soon as a deadline is set, and
// blocks for ever when none is set. Timeouts therefore never depend on how fast
// the machine is: a workload configures timeouts of an hour, and only a declared
// stall lets one expire.
package memconn

import (
	"io"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

type half struct {
	mu   sync.Mutex
	cond *sync.Cond

	buf []byte
	off int
	cap int

	eof   bool  // writer has closed: readers drain, then EOF
	rdErr error // readers fail at once
	wrErr error // writers fail at once

	rdl, wdl     time.Time
	rtmr, wtmr   *time.Timer
	rstall       bool // virtual stall for the reader
	wstall       bool // virtual stall for the writer
	total        int64
	failAfter    int64 // writer fails once total reaches this (-1: never)
	failErr      error
	cutAfter     int64 // reader sees cutErr (or EOF) after this many bytes (-1: never)
	cutErr       error
	read         int64
	failOnce     bool // the write failure passes: later writes work
	cutOnce      bool
	readersBlock bool
	writersBlock bool
}

func newHalf(capacity int) *half {
	h := &half{cap: capacity, failAfter: -1, cutAfter: -1}
	h.cond = sync.NewCond(&h.mu)
	return h
}

func (h *half) avail() int { return len(h.buf) - h.off }

func expired(t time.Time) bool { return !t.IsZero() && !time.Now().Before(t) }

func (h *half) doRead(p []byte, limit func(avail int, off int64) int) (int, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	for {
		if h.rdErr != nil {
			return 0, h.rdErr
		}
		if h.cutAfter >= 0 && h.read >= h.cutAfter {
			if h.cutOnce {
				h.cutAfter = -1
			}
			if h.cutErr != nil {
				return 0, h.cutErr
			}
			return 0, io.EOF
		}
		if expired(h.rdl) {
			return 0, os.ErrDeadlineExceeded
		}
		if len(p) == 0 {
			return 0, nil
		}
		if n := h.avail(); n > 0 {
			if n > len(p) {
				n = len(p)
			}
			if limit != nil {
				if l := limit(n, h.read); l < n && l > 0 {
					n = l
				}
			}
			if h.cutAfter >= 0 && int64(n) > h.cutAfter-h.read {
				n = int(h.cutAfter - h.read)
			}
			copy(p, h.buf[h.off:h.off+n])
			h.off += n
			h.read += int64(n)
			if h.off == len(h.buf) {
				h.buf = h.buf[:0]
				h.off = 0
			}
			h.cond.Broadcast()
			return n, nil
		}
		if h.eof {
			return 0, io.EOF
		}
		if h.rstall && !h.rdl.IsZero() {
			return 0, os.ErrDeadlineExceeded
		}
		h.readersBlock = true
		h.cond.Wait()
		h.readersBlock = false
	}
}

func (h *half) doWrite(p []byte) (int, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	n := 0
	for {
		if h.wrErr != nil {
			return n, h.wrErr
		}
		if h.failAfter >= 0 && h.total >= h.failAfter && (!h.failOnce || n > 0 || len(p) > 0) {
			if h.failOnce {
				h.failAfter = -1
			}
			return n, h.failErr
		}
		if expired(h.wdl) {
			return n, os.ErrDeadlineExceeded
		}
		if n == len(p) {
			return n, nil
		}
		if space := h.cap - h.avail(); space > 0 {
			k := len(p) - n
			if k > space {
				k = space
			}
			if h.failAfter >= 0 && int64(k) > h.failAfter-h.total {
				k = int(h.failAfter - h.total)
			}
			if h.off > 0 && len(h.buf)+k > cap(h.buf) {
				h.buf = append(h.buf[:0], h.buf[h.off:]...)
				h.off = 0
			}
			h.buf = append(h.buf, p[n:n+k]...)
			h.total += int64(k)
			n += k
			h.cond.Broadcast()
			continue
		}
		if h.wstall && !h.wdl.IsZero() {
			return n, os.ErrDeadlineExceeded
		}
		h.writersBlock = true
		h.cond.Wait()
		h.writersBlock = false
	}
}

func (h *half) with(f func()) {
	h.mu.Lock()
	f()
	h.mu.Unlock()
	h.cond.Broadcast()
}

func (h *half) setReadDeadline(t time.Time) {
	h.with(func() { h.rdl = t; h.rtmr = h.arm(h.rtmr, t) })
}

func (h *half) setWriteDeadline(t time.Time) {
	h.with(func() { h.wdl = t; h.wtmr = h.arm(h.wtmr, t) })
}

// arm wakes waiters at t when t is near; far deadlines (virtual ones) need no timer.
func (h *half) arm(old *time.Timer, t time.Time) *time.Timer {
	if old != nil {
		old.Stop()
	}
	if t.IsZero() {
		return nil
	}
	d := time.Until(t)
	if d > 10*time.Minute {
		return nil
	}
	if d < 0 {
		d = 0
	}
	return time.AfterFunc(d+time.Millisecond, func() { h.cond.Broadcast() })
}

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

// Hooks observe and disturb the client end. All are optional. They run on the
// goroutine making the call, outside the connection's locks.
type Hooks struct {
	BeforeRead  func(c *Conn)
	BeforeWrite func(c *Conn, p []byte)
	BeforeClose func(c *Conn)
	OnReadDl    func(c *Conn, t time.Time)
	OnWriteDl   func(c *Conn, t time.Time)
	ReadLimit   func(avail int, off int64) int
}

// Conn is one end.
type Conn struct {
	ID    int
	in    *half
	out   *half
	h     Hooks
	local addr
	rem   addr

	mu      sync.Mutex
	closed  atomic.Bool // no lock: reading it must not order the client's goroutines
	rdExp   atomic.Int64
	wrExp   atomic.Int64
	closeCh chan struct{}
	onClose []func()
}

// Pipe returns both ends; c2s and s2c are the buffer capacities.
func Pipe(id int, c2s, s2c int, hooks Hooks) (client, server *Conn) {
	a, b := newHalf(c2s), newHalf(s2c)
	client = &Conn{ID: id, in: b, out: a, h: hooks, local: "client:1", rem: "server:1", closeCh: make(chan struct{})}
	server = &Conn{ID: id, in: a, out: b, local: "server:1", rem: "client:1", closeCh: make(chan struct{})}
	return client, server
}

func (c *Conn) Read(p []byte) (int, error) {
	if c.h.BeforeRead != nil {
		c.h.BeforeRead(c)
	}
	n, err := c.in.doRead(p, c.h.ReadLimit)
	if err == os.ErrDeadlineExceeded {
		c.rdExp.Add(1)
	}
	return n, err
}

func (c *Conn) Write(p []byte) (int, error) {
	if c.h.BeforeWrite != nil {
		c.h.BeforeWrite(c, p)
	}
	n, err := c.out.doWrite(p)
	if err == os.ErrDeadlineExceeded {
		c.wrExp.Add(1)
	}
	return n, err
}

// Expired counts the reads and writes of this end that ended at their deadline.
func (c *Conn) Expired() (reads, writes int64) { return c.rdExp.Load(), c.wrExp.Load() }

// Close closes this end: the peer drains what was written, then sees EOF, and its
// writes fail.
func (c *Conn) Close() error {
	if c.h.BeforeClose != nil {
		c.h.BeforeClose(c)
	}
	c.mu.Lock()
	if c.closed.Load() {
		c.mu.Unlock()
		return net.ErrClosed
	}
	c.closed.Store(true)
	close(c.closeCh)
	fs := c.onClose
	c.mu.Unlock()
	c.in.with(func() { c.in.rdErr = net.ErrClosed; c.in.wrErr = syscall.EPIPE })
	c.out.with(func() { c.out.wrErr = net.ErrClosed; c.out.eof = true })
	for _, f := range fs {
		f()
	}
	return nil
}

// Reset closes this end abruptly: both sides of the peer fail at once, unread data is lost.
func (c *Conn) Reset() {
	c.in.with(func() {
		if c.in.wrErr == nil {
			c.in.wrErr = syscall.ECONNRESET
		}
	})
	c.out.with(func() {
		if c.out.rdErr == nil {
			c.out.rdErr = syscall.ECONNRESET
		}
	})
	_ = c.Close()
}

// OnClose registers f to run when this end is closed.
func (c *Conn) OnClose(f func()) {
	c.mu.Lock()
	if c.closed.Load() {
		c.mu.Unlock()
		f()
		return
	}
	c.onClose = append(c.onClose, f)
	c.mu.Unlock()
}

// Closed reports whether this end was closed by its owner.
func (c *Conn) Closed() bool {
	return c.closed.Load()
}

// Done is closed when this end is closed.
func (c *Conn) Done() <-chan struct{} { return c.closeCh }

// StallPeerReads: from the peer's point of view this end never sends again.
func (c *Conn) StallPeerReads() { c.out.with(func() { c.out.rstall = true }) }

// ResumePeerReads takes StallPeerReads back.
func (c *Conn) ResumePeerReads() { c.out.with(func() { c.out.rstall = false }) }

// ResumePeerWrites takes StallPeerWrites back.
func (c *Conn) ResumePeerWrites() { c.in.with(func() { c.in.wstall = false }) }

// StallPeerWrites: from the peer's point of view this end never reads again.
func (c *Conn) StallPeerWrites() { c.in.with(func() { c.in.wstall = true }) }

// ShrinkPeerWrites limits how many unread bytes the peer may have outstanding towards this end.
func (c *Conn) ShrinkPeerWrites(n int) { c.in.with(func() { c.in.cap = n }) }

// FailWritesAfter makes this end's writes fail with err once n bytes in total were accepted.
func (c *Conn) FailWritesAfter(n int64, err error) {
	c.out.with(func() { c.out.failAfter, c.out.failErr = n, err })
}

// CutReadsAfter makes this end's reads fail with err (nil: EOF) after n bytes in total.
func (c *Conn) CutReadsAfter(n int64, err error) {
	c.in.with(func() { c.in.cutAfter, c.in.cutErr = n, err })
}

// FailWriteOnceAfter makes one of this end's writes fail with err after n bytes in total; the
// connection itself stays as it is. FailReadOnceAfter does the same for a read.
func (c *Conn) FailWriteOnceAfter(n int64, err error) {
	c.out.with(func() { c.out.failAfter, c.out.failErr, c.out.failOnce = n, err, true })
}
func (c *Conn) FailReadOnceAfter(n int64, err error) {
	c.in.with(func() { c.in.cutAfter, c.in.cutErr, c.in.cutOnce = n, err, true })
}

// BytesIn is the number of bytes this end has read; BytesOut the number accepted from it.
func (c *Conn) BytesIn() int64  { c.in.mu.Lock(); defer c.in.mu.Unlock(); return c.in.read }
func (c *Conn) BytesOut() int64 { c.out.mu.Lock(); defer c.out.mu.Unlock(); return c.out.total }

// ReadBlocked / WriteBlocked report whether this end is blocked in a call.
func (c *Conn) ReadBlocked() bool {
	c.in.mu.Lock()
	defer c.in.mu.Unlock()
	return c.in.readersBlock
}
func (c *Conn) WriteBlocked() bool {
	c.out.mu.Lock()
	defer c.out.mu.Unlock()
	return c.out.writersBlock
}

func (c *Conn) LocalAddr() net.Addr  { return c.local }
func (c *Conn) RemoteAddr() net.Addr { return c.rem }

func (c *Conn) SetDeadline(t time.Time) error {
	if err := c.SetReadDeadline(t); err != nil {
		return err
	}
	return c.SetWriteDeadline(t)
}

func (c *Conn) SetReadDeadline(t time.Time) error {
	if c.h.OnReadDl != nil {
		c.h.OnReadDl(c, t)
	}
	if c.Closed() {
		return net.ErrClosed
	}
	c.in.setReadDeadline(t)
	return nil
}

func (c *Conn) SetWriteDeadline(t time.Time) error {
	if c.h.OnWriteDl != nil {
		c.h.OnWriteDl(c, t)
	}
	if c.Closed() {
		return net.ErrClosed
	}
	c.out.setWriteDeadline(t)
	return nil
}
