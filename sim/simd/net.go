package main

import (
	"errors"
	"io"
	"net"
	"os"
	"sync"
	"syscall"
	"time"

	"verif/simrt"
)

// The simulated network: a connection is two independent directions of timed
// segments. A segment is delivered (becomes readable) at its own instant;
// segment boundaries are the fragmentation the reader sees.

type seg struct {
	at   time.Time
	data []byte
	fin  bool
	rst  bool
}

type half struct {
	mu       sync.Mutex
	segs     []seg
	last     time.Time // delivery time of the newest segment: a stream never reorders
	buffered int
	window   int // 0: unlimited
	rclosed  bool
	wclosed  bool
	dead     bool // reset
	rdl, wdl time.Time
	rnotify  chan struct{}
	wnotify  chan struct{}
}

func newHalf(window int) *half {
	return &half{window: window, rnotify: make(chan struct{}, 1), wnotify: make(chan struct{}, 1)}
}

func poke(c chan struct{}) {
	select {
	case c <- struct{}{}:
	default:
	}
}

func (h *half) read(b []byte) (int, error) {
	for {
		h.mu.Lock()
		now := time.Now()
		if h.rclosed {
			h.mu.Unlock()
			return 0, net.ErrClosed
		}
		if !h.rdl.IsZero() && !now.Before(h.rdl) {
			h.mu.Unlock()
			return 0, os.ErrDeadlineExceeded
		}
		wait := time.Duration(-1)
		if len(h.segs) > 0 {
			s := &h.segs[0]
			if d := s.at.Sub(now); d > 0 {
				wait = d
			} else if s.rst {
				h.mu.Unlock()
				return 0, syscall.ECONNRESET
			} else if s.fin {
				h.mu.Unlock()
				return 0, io.EOF
			} else {
				n := copy(b, s.data)
				s.data = s.data[n:]
				if len(s.data) == 0 {
					h.segs = h.segs[1:]
				}
				h.buffered -= n
				h.mu.Unlock()
				poke(h.wnotify)
				return n, nil
			}
		}
		if !h.rdl.IsZero() {
			if d := h.rdl.Sub(now); wait < 0 || d < wait {
				wait = d
			}
		}
		h.mu.Unlock()
		h.wait(h.rnotify, wait)
	}
}

func (h *half) wait(c chan struct{}, d time.Duration) {
	if d < 0 {
		<-c
		return
	}
	t := time.NewTimer(d)
	select {
	case <-c:
	case <-t.C:
	}
	t.Stop()
}

// write queues data as fragments, blocking while the window is full.
func (h *half) write(b []byte, delay time.Duration, frag func() int) (int, error) {
	n := 0
	for len(b) > 0 {
		h.mu.Lock()
		if h.wclosed {
			h.mu.Unlock()
			return n, net.ErrClosed
		}
		if h.dead || h.rclosed {
			h.mu.Unlock()
			return n, syscall.EPIPE
		}
		now := time.Now()
		if !h.wdl.IsZero() && !now.Before(h.wdl) {
			h.mu.Unlock()
			return n, os.ErrDeadlineExceeded
		}
		k := len(b)
		if frag != nil {
			if f := frag(); f > 0 && f < k {
				k = f
			}
		}
		if h.window > 0 && h.buffered > 0 && h.buffered+k > h.window {
			d := time.Duration(-1)
			if !h.wdl.IsZero() {
				d = h.wdl.Sub(now)
			}
			h.mu.Unlock()
			h.wait(h.wnotify, d)
			continue
		}
		at := now.Add(delay)
		if at.Before(h.last) {
			at = h.last
		}
		h.last = at
		h.segs = append(h.segs, seg{at: at, data: append([]byte(nil), b[:k]...)})
		h.buffered += k
		n += k
		b = b[k:]
		h.mu.Unlock()
		poke(h.rnotify)
	}
	return n, nil
}

// end closes the direction from the writing side: FIN, or RST (optionally
// discarding what was not read yet).
func (h *half) end(rst, discard bool, delay time.Duration) {
	h.mu.Lock()
	if !h.wclosed {
		h.wclosed = true
		if discard {
			h.segs = nil
			h.buffered = 0
		}
		at := time.Now().Add(delay)
		if at.Before(h.last) && !discard {
			at = h.last
		}
		h.last = at
		h.segs = append(h.segs, seg{at: at, fin: !rst, rst: rst})
	}
	h.mu.Unlock()
	poke(h.rnotify)
	poke(h.wnotify)
}

func (h *half) closeRead() {
	h.mu.Lock()
	h.rclosed = true
	h.mu.Unlock()
	poke(h.rnotify)
	poke(h.wnotify)
}

// conn is the client's end.
type conn struct {
	in, out *half // in: master to client
	ended   closeMark
	wdelay  time.Duration
	failW   bool // the client's writes fail
	id      int
	reads   int // calls of Read (under in.mu)
}

type closeMark struct {
	mu   sync.Mutex
	done bool
	seq  uint64
	at   time.Time
	n    int
}

var errBroken = errors.New("write: broken pipe (injected)")

func (c *conn) Read(b []byte) (int, error) {
	c.in.mu.Lock()
	c.reads++
	c.in.mu.Unlock()
	n, err := c.in.read(b)
	return n, opErr("read", err)
}

func (c *conn) Write(b []byte) (int, error) {
	if c.failW {
		return 0, opErr("write", errBroken)
	}
	n, err := c.out.write(b, c.wdelay, nil)
	return n, opErr("write", err)
}

func opErr(op string, err error) error {
	if err == nil || err == io.EOF {
		return err
	}
	return &net.OpError{Op: op, Net: "sim", Addr: simAddr("master"), Err: err}
}

func (c *conn) Close() error {
	c.ended.mu.Lock()
	first := !c.ended.done
	c.ended.n++
	if first {
		c.ended.done = true
		c.ended.seq = simrt.Steps()
		c.ended.at = time.Now()
	}
	c.ended.mu.Unlock()
	if !first {
		return opErr("close", net.ErrClosed)
	}
	c.out.end(false, false, c.wdelay)
	c.in.closeRead()
	return nil
}

func (c *conn) closed() bool {
	c.ended.mu.Lock()
	defer c.ended.mu.Unlock()
	return c.ended.done
}

type simAddr string

func (a simAddr) Network() string { return "sim" }
func (a simAddr) String() string  { return string(a) }

func (c *conn) LocalAddr() net.Addr  { return simAddr("replica") }
func (c *conn) RemoteAddr() net.Addr { return simAddr("master") }
func (c *conn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}
func (c *conn) SetReadDeadline(t time.Time) error {
	c.in.mu.Lock()
	c.in.rdl = t
	c.in.mu.Unlock()
	poke(c.in.rnotify)
	return nil
}
func (c *conn) SetWriteDeadline(t time.Time) error {
	c.out.mu.Lock()
	c.out.wdl = t
	c.out.mu.Unlock()
	poke(c.out.wnotify)
	return nil
}
