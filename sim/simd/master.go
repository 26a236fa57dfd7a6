package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"io"
	"net"
	"strings"
	"time"

	"verif/model"
)

// The simulated master: speaks the server side of the protocol over the
// simulated network and serves the plan's binlog, injecting the attempt's faults.

type cmd struct {
	Code   byte
	SQL    string
	Pos    uint32
	Flags  uint16
	Server uint32
	File   string
	Raw    []byte
	Conn   int // which connection of the attempt
}

type sconn struct {
	r        *run
	at       *Attempt
	ar       *attemptRun
	c        *conn
	seq      byte
	rng      *model.Rng
	rbuf     []byte
	aware    bool
	out      []byte // coalesced packets
	outN     int
	draining bool // what the client sends no longer numbers the packets
}

type timeoutErr struct{ msg string }

func (e timeoutErr) Error() string   { return e.msg }
func (e timeoutErr) Timeout() bool   { return true }
func (e timeoutErr) Temporary() bool { return true }

var errDial = errors.New("connect: connection refused (injected)")

// dial is what the driver calls.
func (r *run) dial(ctx context.Context, addr string) (net.Conn, error) {
	var ss *session
	r.mu.Lock()
	for _, s := range r.sessions {
		if s.name == addr {
			ss = s
		}
	}
	r.mu.Unlock()
	if ss == nil {
		panic("dial of " + addr)
	}
	ar := ss.current()
	at := ar.at
	r.stage(ar, "dial")
	wait := time.Duration(at.DialDelay) * time.Microsecond
	for i := range at.Faults {
		f := &at.Faults[i]
		if f.K != "dial" {
			continue
		}
		switch f.Mode {
		case "hang":
			r.fired(ar, f)
			<-ctx.Done()
			return nil, &net.OpError{Op: "dial", Net: "sim", Err: ctx.Err()}
		case "temp":
			r.fired(ar, f)
			r.stop(ar, "dial", 0)
			return nil, timeoutErr{"dial tcp: i/o timeout (injected)"}
		default:
			r.fired(ar, f)
			r.stop(ar, "dial", 0)
			return nil, &net.OpError{Op: "dial", Net: "sim", Err: errDial}
		}
	}
	if wait > 0 {
		t := time.NewTimer(wait)
		select {
		case <-t.C:
		case <-ctx.Done():
			t.Stop()
			return nil, &net.OpError{Op: "dial", Net: "sim", Err: ctx.Err()}
		}
	}
	if err := ctx.Err(); err != nil {
		return nil, &net.OpError{Op: "dial", Net: "sim", Err: err}
	}
	c := &conn{in: newHalf(at.Win), out: newHalf(0), wdelay: time.Duration(at.Delay) * time.Microsecond}
	for i := range at.Faults {
		if at.Faults[i].K == "wfail" && at.Faults[i].Stage == "" {
			r.fired(ar, &at.Faults[i])
			r.stop(ar, "wfail", 0)
			c.failW = true
		}
	}
	r.mu.Lock()
	c.id = len(ar.conns)
	ar.conns = append(ar.conns, c)
	r.mu.Unlock()
	s := &sconn{r: r, at: at, ar: ar, c: c, rng: model.NewRng(r.p.NetSeed, uint64(ar.no), uint64(c.id))}
	go s.serve()
	return c, nil
}

// set updates what the run knows about the attempt.
func (s *sconn) set(f func()) {
	s.r.mu.Lock()
	f()
	s.r.mu.Unlock()
}

func (s *sconn) rec(c cmd) {
	c.Conn = s.c.id
	s.set(func() { s.ar.cmds = append(s.ar.cmds, c) })
}

func (s *sconn) delay() time.Duration {
	d := s.at.Delay
	if d == 0 {
		return 0
	}
	return time.Duration(s.rng.Range(d/2, d+d/2)) * time.Microsecond
}

func (s *sconn) frag() int {
	f := s.at.Frag
	if f == 0 {
		return 0
	}
	if least := s.r.logBytes / 4000; f < least { // long logs in longer pieces, or a run has no end
		f = least
	}
	if f == 1 {
		return 1
	}
	if s.rng.N(8) == 0 {
		return 1 + s.rng.N(4)
	}
	return 1 + s.rng.N(2*f)
}

func (s *sconn) flush() error {
	if len(s.out) == 0 {
		return nil
	}
	b := s.out
	s.out = nil
	s.outN = 0
	_, err := s.c.in.write(b, s.delay(), s.frag)
	s.r.touch()
	return err
}

func frame(seq *byte, p []byte) []byte {
	var out []byte
	for {
		n := len(p)
		if n > 0xffffff {
			n = 0xffffff
		}
		out = append(out, byte(n), byte(n>>8), byte(n>>16), *seq)
		*seq++
		out = append(out, p[:n]...)
		p = p[n:]
		if n < 0xffffff {
			return out
		}
	}
}

func (s *sconn) pkt(p []byte) error {
	s.out = append(s.out, frame(&s.seq, p)...)
	s.outN++
	if s.at.Batch > 1 && s.outN < s.at.Batch {
		return nil
	}
	return s.flush()
}

func (s *sconn) pktNow(p []byte) error {
	s.out = append(s.out, frame(&s.seq, p)...)
	return s.flush()
}

func (s *sconn) read(n int) ([]byte, error) {
	for len(s.rbuf) < n {
		b := make([]byte, 4096)
		k, err := s.c.out.read(b)
		if err != nil {
			return nil, err
		}
		s.rbuf = append(s.rbuf, b[:k]...)
	}
	b := s.rbuf[:n]
	s.rbuf = s.rbuf[n:]
	return b, nil
}

func (s *sconn) readPkt() ([]byte, error) {
	h, err := s.read(4)
	if err != nil {
		return nil, err
	}
	n := int(h[0]) | int(h[1])<<8 | int(h[2])<<16
	if !s.draining {
		s.seq = h[3] + 1
	}
	return s.read(n)
}

func errPkt(code int, msg string, state bool) []byte {
	b := []byte{0xff, byte(code), byte(code >> 8)}
	if state {
		b = append(b, "#HY000"...)
	}
	return append(b, msg...)
}

var okPkt = []byte{0, 0, 0, 2, 0, 0, 0}
var eofPkt = []byte{0xfe, 0, 0, 2, 0}

// stageFault injects a fault of a stage before the dump; true if the connection is over.
func (s *sconn) stageFault(stage string) bool {
	s.r.stage(s.ar, stage)
	for i := range s.at.Faults {
		f := &s.at.Faults[i]
		if f.Stage != stage {
			continue
		}
		switch f.K {
		case "serr":
			s.r.fired(s.ar, f)
			s.r.stop(s.ar, "serr", s.delay())
			s.pktNow(errPkt(f.Code, f.Msg, f.State))
			if !f.Cont {
				s.finish(false, false)
			}
			return true
		case "sclose":
			s.r.fired(s.ar, f)
			s.r.stop(s.ar, "close", 0)
			s.finish(false, false)
			return true
		case "sreset":
			s.r.fired(s.ar, f)
			s.r.stop(s.ar, "reset", 0)
			s.finish(true, f.Disc)
			return true
		case "sstall":
			s.r.fired(s.ar, f)
			return true
		case "sslow":
			s.r.fired(s.ar, f)
			time.Sleep(time.Duration(f.N) * time.Microsecond)
		}
	}
	return false
}

func (s *sconn) finish(rst, discard bool) {
	s.flush()
	s.c.in.end(rst, discard, s.delay())
}

func (s *sconn) serve() {
	over := s.stageFault("greet")
	if over {
		s.drain()
		return
	}
	g := []byte{10}
	g = append(g, s.r.p.Hist.Version...)
	g = append(g, 0, 7, 0, 0, 0)
	g = append(g, "abcdefgh"...)
	g = append(g, 0, 0xff, 0xf7, 33, 2, 0, 0xff, 0x81, 21)
	g = append(g, make([]byte, 10)...)
	g = append(g, "ijklmnopqrst\x00"...)
	g = append(g, "mysql_native_password\x00"...)
	s.pktNow(g)
	if _, err := s.readPkt(); err != nil {
		s.finish(false, false)
		return
	}
	if s.stageFault("auth") {
		s.drain()
		return
	}
	s.pktNow(okPkt)
	for {
		b, err := s.readPkt()
		if err != nil || len(b) == 0 {
			s.finish(false, false)
			return
		}
		c := cmd{Code: b[0], Raw: append([]byte(nil), b...)}
		switch b[0] {
		case 1: // COM_QUIT
			s.rec(c)
			s.finish(false, false)
			return
		case 3: // COM_QUERY
			c.SQL = string(b[1:])
			s.rec(c)
			if s.query(c.SQL) {
				s.drain()
				return
			}
		case 14: // COM_PING
			s.rec(c)
			s.pktNow(okPkt)
		case 18: // COM_BINLOG_DUMP
			if len(b) >= 11 {
				c.Pos = binary.LittleEndian.Uint32(b[1:])
				c.Flags = binary.LittleEndian.Uint16(b[5:])
				c.Server = binary.LittleEndian.Uint32(b[7:])
				c.File = string(b[11:])
			}
			s.rec(c)
			if s.stageFault("dump") {
				s.drain()
				return
			}
			s.draining = true
			go s.drain()
			s.dump(c)
			return
		default:
			s.rec(c)
			s.pktNow(errPkt(1047, "Unknown command", true))
		}
	}
}

// drain reads and records what the client still sends until it closes.
func (s *sconn) drain() {
	for {
		b, err := s.readPkt()
		if err != nil {
			return
		}
		c := cmd{Raw: append([]byte(nil), b...)}
		if len(b) > 0 {
			c.Code = b[0]
		}
		s.set(func() { s.ar.late = append(s.ar.late, c) })
	}
}

func (s *sconn) query(sql string) bool {
	l := strings.ToLower(sql)
	switch {
	case strings.Contains(l, "max_allowed_packet"):
		if s.stageFault("maxap") {
			return true
		}
		s.pktNow([]byte{1})
		col := []byte("\x03def\x00\x00\x00\x14@@max_allowed_packet\x00\x0c\x3f\x00\x15\x00\x00\x00\x08\xa0\x00\x00\x00\x00")
		s.pktNow(col)
		s.pktNow(eofPkt)
		v := s.r.p.MaxAP
		if v == "" {
			v = "67108864"
		}
		s.pktNow(append([]byte{byte(len(v))}, v...))
		s.pktNow(eofPkt)
	case strings.HasPrefix(strings.TrimSpace(l), "set") && strings.Contains(l, "master_binlog_checksum"):
		if s.stageFault("set") {
			return true
		}
		s.aware = true
		s.pktNow(okPkt)
	case strings.HasPrefix(strings.TrimSpace(l), "set"):
		if s.stageFault("param") {
			return true
		}
		s.pktNow(okPkt)
	default:
		s.pktNow(errPkt(1064, "You have an error in your SQL syntax", true))
	}
	return false
}

type dpkt struct {
	b  []byte // event with checksum
	ev *model.Ev
	// for artificial ones
	fde    bool
	rotate bool
}

// packets lists what the master sends for a dump from there.
func (s *sconn) packets(fi, ei int, off int64) []dpkt {
	return dumpPackets(s.r.log, fi, ei, off)
}

func dumpPackets(l *model.Log, fi, ei int, off int64) []dpkt {
	var out []dpkt
	h := l.H
	alg := l.Files[len(l.Files)-1].CRC // the value of @@global.binlog_checksum when the replica announced itself
	first := true
	for ; fi < len(l.Files); fi++ {
		f := l.Files[fi]
		pos := uint64(f.Target)
		if first {
			pos = uint64(off)
		}
		out = append(out, dpkt{b: model.Finish(l.Rotate(f.Name, pos), alg), rotate: true})
		alg = f.CRC
		fde := append([]byte(nil), f.Evs[0].Raw...)
		if pos > 4 {
			binary.LittleEndian.PutUint32(fde[13:], 0)
			binary.LittleEndian.PutUint32(fde[19+52:], 0)
		}
		out = append(out, dpkt{b: model.Finish(fde, true), ev: f.Evs[0], fde: true})
		if ei == 0 {
			ei = 1
		}
		for _, ev := range f.Evs[ei:] {
			out = append(out, dpkt{b: model.Finish(ev.Raw, f.CRC), ev: ev})
		}
		ei = 0
		first = false
	}
	_ = h
	return out
}

func (s *sconn) dump(c cmd) {
	r := s.r
	l := r.log
	fi, ei, ok := l.Find(c.File, int64(c.Pos))
	if ok && !s.aware {
		for _, f := range l.Files[fi:] {
			if f.CRC {
				s.r.note("unaware")
				r.stop(s.ar, "unaware", 0)
				s.pktNow(errPkt(1236, "Slave can not handle replication events with the checksum that master is configured to log", true))
				s.finish(false, false)
				return
			}
		}
	}
	if !ok {
		s.r.note("badpos")
		r.stop(s.ar, "badpos", 0)
		msg := "Client requested master to start replication from impossible position"
		s.set(func() { s.ar.errMsgs = append(s.ar.errMsgs, msg) })
		s.pktNow(errPkt(1236, msg, true))
		s.finish(false, false)
		return
	}
	list := s.packets(fi, ei, int64(c.Pos))
	s.set(func() {
		s.ar.dumped = true
		s.ar.npkts = len(list)
	})
	type placed struct {
		at int
		f  *Fault
	}
	var fs []placed
	for i := range s.at.Faults {
		f := &s.at.Faults[i]
		if f.Stage != "" || f.K == "dial" {
			continue
		}
		at := f.At % (len(list) + 1)
		if f.K == "cut" {
			for at < len(list) && !cuttable(list[at], f.Mode) {
				at++
			}
			if at >= len(list) {
				continue
			}
		}
		if f.K == "dec" {
			for at < len(list) && garble(f, list, at) == nil {
				at++
			}
			if at >= len(list) {
				continue
			}
		}
		fs = append(fs, placed{at, f})
	}
	cat := -1
	if s.at.Cancel != nil && s.at.Cancel.At == "packet" {
		cat = s.at.Cancel.N % (len(list) + 1)
	}
	quiet := -1
	if s.at.Quiet > 0 && !r.readTimeoutPossible(s.ar) {
		quiet = s.at.QuietAt % (len(list) + 1)
		for i := range s.at.Faults {
			if s.at.Faults[i].latent() {
				quiet = -1 // Stream can only notice it when the quiet is over
			}
		}
	}
	for i := 0; i <= len(list); i++ {
		if i == quiet {
			s.flush()
			s.quiet()
		}
		if i == cat {
			s.flush()
			r.cancelAfter(s.ar, s.at.Cancel.D)
		}
		skip := false
		for j := range fs {
			if fs[j].at != i || fs[j].f == nil {
				continue
			}
			f := fs[j].f
			fs[j].f = nil
			over, sk := s.fault(f, list, i)
			if over {
				return
			}
			skip = skip || sk
		}
		if i == len(list) {
			break
		}
		if s.at.Gap > 0 {
			if s.flush() != nil {
				s.finish(false, false)
				return
			}
			g := s.at.Gap
			switch s.rng.N(8) {
			case 0:
				g *= 5
			case 1, 2:
				g = 0
			}
			time.Sleep(time.Duration(s.rng.N(g+1)) * time.Microsecond)
		}
		if skip {
			continue
		}
		if s.pkt(append([]byte{0}, list[i].b...)) != nil {
			s.finish(false, false)
			return
		}
		s.set(func() { s.ar.pktsSent++ })
	}
	if s.flush() != nil {
		s.finish(false, false)
		return
	}
	s.set(func() { s.ar.allSent = true })
	// blocking dump: wait for more events that never come
	if c.Flags&1 != 0 {
		s.set(func() { s.ar.eofs++ })
		r.stop(s.ar, "eof", s.delay())
		s.pktNow(eofPkt)
		return
	}
	if s.at.EndEOF {
		<-s.ar.wantEOF
		s.set(func() { s.ar.eofs++ })
		r.stop(s.ar, "eof", s.delay())
		s.pktNow(eofPkt)
	}
}

// quiet is a master that has nothing to say for a long time.
func (s *sconn) quiet() {
	r := s.r
	r.note("quiet")
	s.set(func() { s.ar.quiet = true })
	defer s.set(func() { s.ar.quiet = false })
	for d := 0; d < s.at.Quiet; d += 20 {
		time.Sleep(20 * time.Second)
		r.mu.Lock()
		over := s.ar.returned
		if len(s.ar.stops) == 0 {
			r.last = time.Now()
		}
		r.mu.Unlock()
		if over {
			return
		}
	}
}

func cuttable(p dpkt, mode string) bool {
	if p.fde && mode == "fde" {
		return true
	}
	if p.ev == nil || p.fde || p.ev.Virtual {
		return false
	}
	switch p.ev.Raw[4] {
	case 23, 24, 25, 30, 31, 32:
		return mode == "rows" && p.ev.LastRow > 1
	case model.EvTableMap:
		return mode == "tm"
	case model.EvQuery:
		return mode == "query"
	case model.EvRotate:
		return mode == "rotate"
	}
	return false
}

// fault injects f before packet i: over ends the dump, skip drops packet i.
func (s *sconn) fault(f *Fault, list []dpkt, i int) (over, skip bool) {
	r := s.r
	var cur dpkt
	crc := r.log.Files[len(r.log.Files)-1].CRC
	pos := uint32(0)
	if i < len(list) {
		cur = list[i]
	} else if len(list) > 0 {
		cur = list[len(list)-1]
	}
	for j := i; j >= 0; j-- {
		if j < len(list) && list[j].ev != nil {
			crc = r.log.Files[list[j].ev.File].CRC
			pos = list[j].ev.Start
			break
		}
	}
	r.fired(s.ar, f)
	d := s.delay()
	switch f.K {
	case "close", "reset":
		if f.N > 0 && i < len(list) {
			b := frame(&s.seq, append([]byte{0}, cur.b...))
			n := f.N % len(b)
			s.out = append(s.out, b[:n]...)
		}
		s.flush()
		r.stop(s.ar, f.K, d)
		s.c.in.end(f.K == "reset", f.Disc, d)
		return true, false
	case "seq":
		s.flush()
		r.stop(s.ar, f.K, d)
		s.seq += byte(1 + f.N%254)
		s.pktNow(append([]byte{0}, cur.b...))
		return !f.Cont, true
	case "zero":
		s.flush()
		r.stop(s.ar, f.K, d)
		s.out = append(s.out, 0, 0, 0, s.seq)
		s.seq++
		s.flush()
		return !f.Cont, false
	case "err":
		s.flush()
		s.set(func() { s.ar.errMsgs = append(s.ar.errMsgs, f.Msg) })
		r.stop(s.ar, f.K, d)
		s.pktNow(errPkt(f.Code, f.Msg, f.State))
		if f.Mode == "close" {
			s.finish(false, false)
		}
		return !f.Cont, false
	case "shorterr":
		s.flush()
		r.stop(s.ar, f.K, d)
		b := errPkt(f.Code, f.Msg, true)
		s.pktNow(b[:1+f.N%9])
		return !f.Cont, false
	case "eof":
		s.flush()
		s.set(func() { s.ar.eofs++ })
		r.stop(s.ar, f.K, d)
		b := eofPkt
		if f.N%4 == 1 {
			b = b[:1]
		}
		s.pktNow(b)
		if f.Mode == "close" {
			s.finish(false, false)
		}
		return !f.Cont, false
	case "stall":
		s.flush()
		return true, false
	case "pause":
		s.flush()
		time.Sleep(time.Duration(f.N) * time.Microsecond)
		return false, false
	case "event": // an event the streamer does not support
		s.flush()
		s.set(func() { s.ar.mustErr = true })
		r.stop(s.ar, f.K, d)
		raw := model.RawEvent(r.p.Hist.TS0, f.Type, r.p.Hist.ServerID, 0, pos, 0, f.Body)
		s.pktNow(append([]byte{0}, model.Finish(raw, crc)...))
		return !f.Cont, false
	case "bad": // fails the validity gate
		s.flush()
		b := badBytes(f, cur.b)
		if b == nil {
			return false, false
		}
		s.set(func() { s.ar.mustErr = true })
		r.stop(s.ar, f.K, d)
		s.pktNow(append([]byte{0}, b...))
		return !f.Cont, true
	case "cut": // passes the gate, cannot be decoded
		s.flush()
		b := cutBytes(f, cur, crc)
		if b == nil {
			return false, false
		}
		s.set(func() { s.ar.mustErr = true })
		r.stop(s.ar, f.K, d)
		s.pktNow(append([]byte{0}, b...))
		return !f.Cont, true
	case "dec": // well-framed, and decodes to nothing
		s.flush()
		b := garble(f, list, i)
		if b == nil {
			return false, false
		}
		s.set(func() { s.ar.mustErr = true })
		r.stop(s.ar, f.K, d)
		r.note("undecodable " + f.Mode)
		if f.Mode == "short" {
			s.pktNow(append([]byte{0}, b...))
			return !f.Cont, true
		}
		s.pktNow(append([]byte{0}, model.Finish(b, crc)...))
		return !f.Cont && f.Mode != "tmtype" && f.Mode != "tmmeta", true
	case "unk": // rows of a table nobody announced
		s.flush()
		s.set(func() { s.ar.mustErr = true })
		r.stop(s.ar, f.K, d)
		w := 6
		if r.p.Hist.ID4 {
			w = 4
		}
		body := make([]byte, w)
		for k := range body {
			body[k] = 0xf7
		}
		body = append(body, 1, 0)
		body = append(body, 1, 1, 0, 5)
		raw := model.RawEvent(r.p.Hist.TS0, 23+f.Type%3, r.p.Hist.ServerID, 0, pos, 0, body)
		s.pktNow(append([]byte{0}, model.Finish(raw, crc)...))
		return !f.Cont, false
	case "fdever": // format description of another version
		if f.Mode == "alg" && (i >= len(list) || list[i].fde || list[i].b[4] == 15) {
			return false, false // what follows must need the checksum algorithm
		}
		s.flush()
		s.set(func() { s.ar.mustErr = true })
		r.stop(s.ar, f.K, d)
		raw := r.p.Hist.FDE(r.p.Hist.TS0, 0, 0, crc)
		if f.Mode == "alg" {
			raw[len(raw)-1] = byte(2 + f.N%252)
			s.pktNow(append([]byte{0}, model.Finish(raw, true)...))
			return false, false
		}
		if f.Mode == "hdr" {
			raw[19+2+50+4] = byte(f.N % 19)
		} else {
			binary.LittleEndian.PutUint16(raw[19:], uint16(f.N%4))
		}
		s.pktNow(append([]byte{0}, model.Finish(raw, true)...))
		return !f.Cont, false
	}
	panic("unknown fault " + f.K)
}

// badBytes builds a buffer the validity gate must refuse.
func badBytes(f *Fault, good []byte) []byte {
	var b []byte
	switch f.Mode {
	case "trunc":
		b = append(b, good[:f.N%len(good)]...)
	case "ext":
		b = append(append(b, good...), make([]byte, 1+f.N%40)...)
		copy(b[len(good):], f.Body)
	case "size":
		b = append(b, good...)
		binary.LittleEndian.PutUint32(b[9:], uint32(len(b))+uint32(int32(f.N)))
	case "rand":
		b = append(b, f.Body...)
	}
	if gateAccepts(b) {
		return nil
	}
	return b
}

// gateAccepts is the model of the validity test.
func gateAccepts(b []byte) bool {
	return len(b) >= 19 && uint64(binary.LittleEndian.Uint32(b[9:])) == uint64(len(b))
}

func cutBytes(f *Fault, p dpkt, crc bool) []byte {
	raw := p.ev.Raw
	n := 0
	switch f.Mode {
	case "fde":
		// not even the fixed part
		return model.Finish(bytes.Clone(raw[:19+f.N%53]), true)
	case "rows":
		n = 1 + f.N%(p.ev.LastRow-1)
	case "tm":
		n = 1 + p.ev.Tail + f.N%(len(raw)-19-p.ev.Tail)
		if n > len(raw)-19 {
			n = len(raw) - 19
		}
	case "query":
		// keep less than the announced status variables and database name
		keep := 19 + f.N%13
		n = len(raw) - keep
	case "rotate":
		n = len(raw) - 19 - f.N%8
	}
	if n <= 0 || n > len(raw)-19 {
		return nil
	}
	return model.Finish(bytes.Clone(raw[:len(raw)-n]), crc)
}

// badJSON are values that no JSON document encodes to.
var badJSON = [][]byte{
	{0x42, 1, 2, 3}, {4, 7}, {12, 32, 'a'}, {2, 1, 0, 4, 0}, {0, 1, 0, 100, 0, 1}, {5}, {6, 1}, {7, 1, 2, 3},
	{9, 1, 2, 3, 4, 5, 6}, {11, 1, 2}, {2, 1, 0, 7, 0, 12, 255, 255}, {2, 1, 0, 7, 0, 2, 0, 0}, {3, 1, 0, 0, 0, 9, 0, 0},
	{0, 1, 0, 11, 0, 200, 0, 1, 0, 4, 0}, {2, 1, 0, 7, 0, 99, 0, 0}, {13, 0}, {1, 255, 255, 255, 255, 8, 0, 0, 0},
	{2, 2, 0, 10, 0, 4, 1, 0, 4, 9, 0}, {12, 0xff, 0xff, 0xff, 0xff, 0x0f, 'a'},
}

// garble makes list[i] an event that cannot be decoded; nil if it is not of the right kind.
func garble(f *Fault, list []dpkt, i int) []byte {
	if i >= len(list) || list[i].ev == nil || list[i].fde || list[i].ev.Virtual {
		return nil
	}
	ev := list[i].ev
	raw := bytes.Clone(ev.Raw)
	huge := func(at, n int) []byte { // another column count
		c := [][]byte{
			{0xfe, 0, 0, byte(f.N), 1, 0, 0, 0, 0}, {0xfe, 0, 0, 0, 0, byte(f.N), 0, 0, 1}, {0xfe, 255, 255, 255, 255, 255, 255, 255, 255},
			{0xfe, 0, 0, 0, 0, 0, 0, 0, 0x80}, {0xfd, 255, 255, 255}, {0xfe, 1, 0, 0, 0, 1, 0, 0, 0},
		}[f.N%6]
		return append(append(raw[:at:at], c...), ev.Raw[at+len(model.LenEnc(n)):]...)
	}
	if len(raw) > 1<<20 {
		return nil
	}
	if f.Mode == "short" { // no room for the checksum
		b := list[i].b
		if len(b) != len(raw)+4 || ev.Raw[4] == 16 && f.N%2 == 0 {
			return nil
		}
		b = bytes.Clone(b[:19+f.N%4])
		binary.LittleEndian.PutUint32(b[9:], uint32(len(b)))
		return b
	}
	if m := ev.Map; m != nil && strings.HasPrefix(f.Mode, "tm") {
		var rows *model.Ev
		for _, p := range list[i+1:] {
			if p.ev == nil || p.fde || p.ev.Virtual {
				return nil
			}
			if p.ev.Map != nil {
				if p.ev.Map.ID == m.ID {
					return nil
				}
				continue
			}
			if p.ev.ColAt == 0 {
				return nil
			}
			if len(p.ev.Cols) == len(m.Cols) && bytes.Equal(p.ev.Raw[19:19+4], ev.Raw[19:19+4]) {
				rows = p.ev
				break
			}
		}
		if rows == nil || len(rows.Full) == 0 {
			return nil
		}
		at := 19 + m.W + 2 + 1 + len(m.DB) + 1 + 1 + len(m.Name) + 1
		n := len(m.Cols)
		if f.Mode == "tmcount" {
			return huge(at, n)
		}
		at += len(model.LenEnc(n))
		if f.Mode == "tmtype" {
			raw[at+rows.Full[f.N%len(rows.Full)]] = []byte{100, 180, 199, 220}[f.N%4]
			return raw
		}
		var cs []int
		for _, c := range rows.Full {
			switch t, _ := m.Cols[c].Wire(); {
			case t == 252, t == 245, t == 255, m.Cols[c].K == "enum":
				cs = append(cs, c)
			}
		}
		if len(cs) == 0 {
			return nil
		}
		c := cs[f.N%len(cs)]
		at += n
		ml := 0
		for k := range m.Cols {
			_, mm := m.Cols[k].Wire()
			ml += len(mm)
		}
		at += len(model.LenEnc(ml))
		for k := 0; k < c; k++ {
			_, mm := m.Cols[k].Wire()
			at += len(mm)
		}
		if m.Cols[c].K == "enum" {
			raw[at+1] = []byte{0, 3, 4, 8, 200}[f.N%5]
		} else {
			raw[at] = []byte{0, 5, 8, 255}[f.N%4]
		}
		return raw
	}
	if ev.ColAt == 0 || strings.HasPrefix(f.Mode, "tm") {
		return nil
	}
	n := len(ev.Cols)
	if f.Mode == "count" {
		return huge(ev.ColAt, n)
	}
	var cell []byte
	col := n
	images := 1
	if ev.Raw[4] == 24 || ev.Raw[4] == 31 {
		images = 2
	}
	switch f.Mode {
	case "extra": // one column more than the table has
		n++
		cell = make([]byte, 1+f.N%12)
	case "nodata": // rows of nothing
		col = -1
		cell = make([]byte, 1+f.N%5)
		images = 1
	case "json":
		var cs []int
		for c := range ev.Cols {
			if ev.Cols[c].K == "json" {
				cs = append(cs, c)
			}
		}
		if len(cs) == 0 {
			return nil
		}
		col = cs[f.N%len(cs)]
		d := badJSON[f.N%len(badJSON)]
		cell = binary.LittleEndian.AppendUint32(nil, uint32(len(d)))
		cell = append(cell, d...)
	default:
		return nil
	}
	bm := make([]byte, (n+7)/8)
	if col >= 0 {
		bm[col/8] |= 1 << uint(col%8)
	}
	raw = append(raw[:ev.ColAt], model.LenEnc(n)...)
	raw = append(raw, bm...)
	if ev.Raw[4] == 24 || ev.Raw[4] == 31 {
		raw = append(raw, bm...)
	}
	for k := 0; k < images; k++ {
		if col >= 0 {
			raw = append(raw, 0)
		}
		raw = append(raw, cell...)
	}
	return raw
}

var _ = io.EOF
