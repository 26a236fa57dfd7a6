package main

import (
	"context"
	"errors"
	"fmt"
	"net"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	golog "github.com/Breeze0806/go/log"
	"github.com/Breeze0806/gobinlog"
	"github.com/Breeze0806/mysql"

	"verif/model"
	"verif/simrt"
)

// Violation of properties found in a run.
type Violation struct {
	Props []string `json:"props"`
	Key   string   `json:"key"`
	Msg   string   `json:"msg"`
}

// Outcome of a run.
type Outcome struct {
	Viol    []Violation
	Hash    uint64
	ObsHash uint64
	Res     simrt.Result
	SimTime time.Duration
	Faults  map[string]int
	Probes  map[string]int
	Trace   []string
	Harness string // trouble of the harness itself
	Txs     int
}

type run struct {
	p   *Plan
	log *model.Log

	logBytes int // size of its events
	loc      *time.Location

	mu       sync.Mutex
	viol     []Violation
	faults   map[string]int
	probes   map[string]int
	trace    []string
	last     time.Time // last activity
	start    time.Time
	attempts []*attemptRun
	sessions []*session
	obs      uint64
	consumer chan *gobinlog.Transaction
	consDone chan struct{}
	leaked   map[string]bool
	finished bool
}

type attemptRun struct {
	r         *run
	ss        *session
	at        *Attempt
	idx       int
	no        int // of all attempts of the run
	final     bool
	conns     []*conn
	cmds      []cmd
	late      []cmd
	odd       *model.Position // asks for this
	dumped    bool
	npkts     int
	pktsSent  int
	allSent   bool
	eofs      int
	errMsgs   []string
	mustErr   bool
	stops     []string
	stopAt    time.Time
	wantEOF   chan struct{}
	eofOpen   bool
	cancel    context.CancelFunc
	ctx       context.Context
	cancelled bool // asked for by the caller (or the deadline passed)

	returned  bool
	before    int // accepted before the attempt
	calls     int
	mcalls    int
	hErrHit   bool
	mErrHit   bool
	misHit    bool
	inHandler int
	inMapper  int
	quiet     bool // the master is silent for long
	idleSince time.Time
	serr      error

	returnedAt      time.Time
	lasted          time.Duration
	cancelledBefore bool
	errs            []error
}

// session is a streamer and what it must deliver.
type session struct {
	r        *run
	s        *gobinlog.Streamer
	m        *mapper
	name     string // of its master, and in messages
	cur      *attemptRun
	kept     []kept
	start    model.Position
	base     int
	accepted int
	resume   bool
	broken   bool
	inUse    int
}

type kept struct {
	tran *gobinlog.Transaction
	snap string
	idx  int

	heads []string
}

var active *run

func init() {
	mysql.RegisterDialContext("sim", func(ctx context.Context, addr string) (net.Conn, error) {
		return active.dial(ctx, addr)
	})
}

const maxIdle = 10 * time.Minute

func (r *run) violate(key string, props []string, format string, args ...interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.viol) > 20 {
		return
	}
	r.viol = append(r.viol, Violation{props, key, fmt.Sprintf(format, args...)})
	r.tracef("VIOLATION %v %s", props, key)
}

// tracef is called with r.mu held.
func (r *run) tracef(format string, args ...interface{}) {
	if tracing {
		r.trace = append(r.trace, fmt.Sprintf("%12v step %-7d ", time.Since(r.start), simrt.Steps())+fmt.Sprintf(format, args...))
	}
}

func (r *run) ev(format string, args ...interface{}) {
	if tracing {
		r.mu.Lock()
		r.tracef(format, args...)
		r.mu.Unlock()
	}
}

func (r *run) touch() {
	r.mu.Lock()
	r.last = time.Now()
	r.mu.Unlock()
}

func (r *run) note(k string) {
	r.mu.Lock()
	r.probes[k]++
	r.mu.Unlock()
}

func (r *run) mix(v uint64) {
	r.obs = (r.obs ^ v) * 0x100000001b3
}

func (r *run) fired(ar *attemptRun, f *Fault) {
	k := f.K
	if f.Stage != "" {
		k += "@" + f.Stage
	}
	if f.Mode != "" && f.Mode != "close" {
		k += ":" + f.Mode
	}
	r.mu.Lock()
	r.faults[k]++
	r.tracef("fault %s at=%d n=%d type=%d", k, f.At, f.N, f.Type)
	r.mu.Unlock()
	if c := ar.at.Cancel; c != nil && c.At == "fault" {
		r.cancelAfter(ar, c.D)
	}
}

// stop records that something that ends the attempt was delivered.
func (r *run) stop(ar *attemptRun, why string, after time.Duration) {
	r.mu.Lock()
	ar.stops = append(ar.stops, why)
	at := time.Now().Add(after)
	if ar.stopAt.IsZero() {
		ar.stopAt = at
	}
	r.last = at
	r.tracef("stop cause: %s", why)
	r.mu.Unlock()
}

func (r *run) stage(ar *attemptRun, s string) {
	r.mu.Lock()
	r.last = time.Now()
	r.tracef("stage %s", s)
	r.mu.Unlock()
	if c := ar.at.Cancel; c != nil && c.At == s {
		r.cancelAfter(ar, c.D)
	}
}

func (r *run) cancelAfter(ar *attemptRun, d int) {
	if d == 0 {
		r.doCancel(ar)
		return
	}
	go func() {
		time.Sleep(time.Duration(d) * time.Microsecond)
		r.doCancel(ar)
	}()
}

func (r *run) doCancel(ar *attemptRun) {
	r.mu.Lock()
	if ar.cancel == nil || ar.cancelled {
		r.mu.Unlock()
		return
	}
	if !ar.returned {
		ar.cancelled = true
		r.faults["cancel"]++
	}
	r.tracef("cancel")
	r.mu.Unlock()
	r.stop(ar, "cancel", 0)
	ar.cancel()
}

func (ss *session) current() *attemptRun {
	ss.r.mu.Lock()
	defer ss.r.mu.Unlock()
	return ss.cur
}

func (r *run) delivered() int {
	n := 0
	for _, ss := range r.sessions {
		n += len(ss.kept)
	}
	return n
}

// execute runs a plan.
func execute(p *Plan) (out Outcome) {
	if p.Gtid != nil {
		return executeGtid(p)
	}
	r := &run{p: p, leaked: map[string]bool{}, faults: map[string]int{}, probes: map[string]int{}, obs: 0xcbf29ce484222325}
	r.loc = time.FixedZone("SIM", p.TZ)
	old := time.Local
	time.Local = r.loc
	r.log = p.Hist.Encode(r.loc)
	for _, f := range r.log.Files {
		for _, ev := range f.Evs {
			r.logBytes += len(ev.Raw)
		}
	}
	bigRun = bigRun || r.logBytes > 4<<20 || p.Budget != 0
	if p.Log {
		gobinlog.SetLogger(fmtLog{r})
	} else {
		gobinlog.SetLogger(golog.NewDefaultLogger(nil, golog.DebugLevel, ""))
	}
	active = r
	budget := p.Budget
	if budget == 0 {
		budget = 40_000_000
	}
	var simt time.Duration
	res := simrt.Run(&p.Sched, budget, func() {
		r.start = time.Now()
		r.last = r.start
		r.main()
		r.finished = true
		r.sweep()
		simt = time.Since(r.start)
	})
	active = nil
	time.Local = old
	if !r.finished {
		// every goroutine is blocked for ever, the simulation included: only the library
		// can have got something stuck that the harness waits for without a time limit
		r.violate("deadlock", []string{p.Prop}, "nothing can run any more, with %d transactions delivered", r.delivered())
	}
	out.Viol = r.viol
	out.Res = res
	out.Hash = res.Hash
	out.ObsHash = r.obs
	out.SimTime = simt
	out.Faults = r.faults
	out.Probes = r.probes
	for _, a := range r.attempts {
		out.Txs += a.ss.accepted - a.before
	}
	out.Trace = r.trace
	return out
}

// fmtLog formats every message, as a real logger does, and drops it.
type fmtLog struct{ r *run }

func (l fmtLog) out(s string) {
	if tracing {
		if len(s) > 200 {
			s = s[:200]
		}
		l.r.ev("log %s", s)
	}
}
func (l fmtLog) Debugf(f string, a ...interface{}) { l.out(fmt.Sprintf(f, a...)) }
func (l fmtLog) Infof(f string, a ...interface{})  { l.out(fmt.Sprintf(f, a...)) }
func (l fmtLog) Warnf(f string, a ...interface{})  { l.out(fmt.Sprintf(f, a...)) }
func (l fmtLog) Errorf(f string, a ...interface{}) { l.out(fmt.Sprintf(f, a...)) }
func (l fmtLog) Print(a ...interface{})            { l.out(fmt.Sprint(a...)) }

// newSession is a streamer set to a position; again is one whose streamer to use.
func (r *run) newSession(name string, start model.Position, resume bool, again *session) *session {
	dsn := "repl:pw@sim(" + name + ")/"
	if r.p.Params != "" {
		dsn += "?" + r.p.Params
	}
	fi, ei, ok := r.log.Find(start.File, start.Off)
	if !ok {
		panic("plan starts at a position that is not in the log: " + fmt.Sprint(start))
	}
	ss := &session{r: r, name: name, start: start, base: r.log.TxAt(fi, ei), resume: resume}
	r.mu.Lock()
	r.sessions = append(r.sessions, ss)
	r.mu.Unlock()
	if again != nil {
		ss.s, ss.m = again.s, again.m
		ss.m.ss = ss
	} else {
		ss.m = &mapper{ss: ss}
		s, err := gobinlog.NewStreamer(dsn, r.p.ServerID, ss.m)
		if err != nil {
			r.violate("newstreamer", []string{"C07"}, "NewStreamer failed: %v", err)
			return nil
		}
		ss.s = s
	}
	ss.s.SetBinlogPosition(gobinlog.Position{Filename: start.File, Offset: start.Off})
	return ss
}

func (r *run) main() {
	if r.p.JSON == 2 {
		r.consumer = make(chan *gobinlog.Transaction, 4)
		r.consDone = make(chan struct{})
		go r.consume()
	}
	ss := r.newSession("master", r.p.Start, false, nil)
	if ss == nil {
		return
	}
	var twin *session
	if len(r.p.Twin) > 0 {
		if twin = r.newSession("twin", r.p.TwinStart, false, nil); twin == nil {
			return
		}
	}
	for _, o := range r.p.Odd {
		if _, _, ok := r.log.Find(o.At.File, int64(uint32(o.At.Off))); ok {
			continue
		}
		r.note("odd-position")
		at := o.At
		ss.s.SetBinlogPosition(gobinlog.Position{Filename: at.File, Offset: at.Off})
		for i := 0; i < o.N; i++ {
			ar := ss.newAttempt(&Attempt{ErrCalls: 1}, i, false)
			ar.odd = &at
			if !r.together([]*attemptRun{ar}) {
				break
			}
		}
		ss.s.SetBinlogPosition(gobinlog.Position{Filename: ss.start.File, Offset: ss.start.Off})
	}
	for i := 0; !ss.broken && (i < len(r.p.Attempts) || i < len(r.p.Twin)); i++ {
		var group []*attemptRun
		if i < len(r.p.Attempts) {
			group = append(group, ss.newAttempt(&r.p.Attempts[i], i, i == len(r.p.Attempts)-1))
		}
		if i < len(r.p.Twin) {
			group = append(group, twin.newAttempt(&r.p.Twin[i], i, i == len(r.p.Twin)-1))
			if len(group) > 1 {
				r.note("twin")
			}
		}
		if !r.together(group) {
			break
		}
	}
	if !ss.broken && !r.violated() {
		for _, k := range r.p.Resume {
			n := len(r.log.Txs) - ss.base
			if n <= 0 {
				break
			}
			tx := r.log.Txs[ss.base+k%n]
			var again *session
			if r.p.Same {
				again = ss
				r.note("resume-same-streamer")
			}
			rs := r.newSession("master", tx.Next, true, again)
			at := r.p.Attempts[len(r.p.Attempts)-1]
			at.EndEOF = false
			at.Ctx = ""
			r.together([]*attemptRun{rs.newAttempt(&at, 0, true)})
			r.note("resume")
			if rs.broken {
				break
			}
		}
	}
	if r.consumer != nil {
		close(r.consumer)
		<-r.consDone
	}
	r.recheck()
	for _, s := range r.p.Synth {
		r.synthJSON(s)
	}
	for _, s := range r.p.Direct {
		r.direct(s)
	}
}

// sweep lets the simulation's own goroutines end, so that runs do not pile up.
func (r *run) sweep() {
	for _, a := range r.attempts {
		for _, c := range a.conns {
			c.out.end(true, true, 0)
			c.in.closeRead()
		}
	}
	time.Sleep(2 * maxIdle)
}

func (r *run) violated() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.viol) > 0
}

// recheck re-reads every delivered transaction after the fact.
func (r *run) recheck() {
	for _, ss := range r.sessions {
		for _, k := range ss.kept {
			if s := render(k.tran); s != k.snap {
				r.violate("unstable", unstableTags(k, k.tran), "transaction %d changed after its delivery: %s", k.idx, firstDiff(k.snap, s))
				return
			}
		}
	}
}

var errAbort = errors.New("harness: run is broken")

func us(n int) time.Duration { return time.Duration(n) * time.Microsecond }

// together performs calls of Stream at the same time and judges them; false ends
// the sessions.
func (r *run) together(group []*attemptRun) bool {
	var done []chan struct{}
	for _, ar := range group {
		done = append(done, ar.launch())
	}
	ended := make(chan bool, len(group))
	for i := 1; i < len(group); i++ {
		go func(ar *attemptRun, d chan struct{}) { ended <- ar.wait(d) }(group[i], done[i])
	}
	ok := group[0].wait(done[0])
	for i := 1; i < len(group); i++ {
		ok = <-ended && ok
	}
	if !ok {
		return false
	}
	for _, ar := range group {
		if !ar.eofOpen {
			ar.eofOpen = true
			close(ar.wantEOF)
		}
	}
	for _, ar := range group {
		ar.returnedAt = time.Now()
		if !ar.ask() {
			return false
		}
	}
	r.settle(group)
	for _, ar := range group {
		ok = ar.judge() && ok
	}
	return ok
}

func (ss *session) newAttempt(at *Attempt, idx int, final bool) *attemptRun {
	return &attemptRun{r: ss.r, ss: ss, at: at, idx: idx, final: final, wantEOF: make(chan struct{}), before: ss.accepted}
}

// launch calls Stream; the channel is closed when it has returned.
func (ar *attemptRun) launch() chan struct{} {
	r, ss, at := ar.r, ar.ss, ar.at
	idx, final := ar.idx, ar.final
	began := time.Now()
	switch at.Ctx {
	case "background":
		ar.ctx = context.Background()
	case "deadline":
		ar.ctx, ar.cancel = context.WithTimeout(context.Background(), us(at.Deadline))
	case "value": // cancellable only through a parent
		var c context.Context
		c, ar.cancel = context.WithCancel(context.Background())
		ar.ctx = context.WithValue(c, ctxKey{}, 1)
	default:
		ar.ctx, ar.cancel = context.WithCancel(context.Background())
	}
	r.mu.Lock()
	r.attempts = append(r.attempts, ar)
	ar.no = len(r.attempts)
	ss.cur = ar
	r.last = time.Now()
	r.tracef("%s: attempt %d (final %v) with %d accepted", ss.name, idx, final, ss.accepted)
	r.mu.Unlock()
	if at.Ctx == "deadline" {
		// nothing to do: the context ends by itself
		go func() {
			time.Sleep(us(at.Deadline))
			r.mu.Lock()
			if !ar.returned {
				ar.cancelled = true
				ar.stops = append(ar.stops, "deadline")
				if ar.stopAt.IsZero() {
					ar.stopAt = time.Now()
				}
				r.faults["deadline"]++
			}
			r.mu.Unlock()
		}()
	}
	if c := at.Cancel; c != nil {
		switch c.At {
		case "pre":
			r.doCancel(ar)
		case "time":
			if c.D > 0 {
				r.cancelAfter(ar, c.D)
			} else {
				go r.doCancel(ar)
			}
		}
	}
	done := make(chan struct{})
	go func() {
		ar.serr = ss.s.Stream(ar.ctx, func(t *gobinlog.Transaction) error { return ar.handle(t) })
		said := fmt.Sprint(ar.serr) // always: it runs library code, tracing must not change the run
		r.mu.Lock()
		if at.Ctx == "deadline" && !ar.stopped("deadline") && time.Since(began) >= us(at.Deadline) {
			ar.cancelled = true
			ar.stops = append(ar.stops, "deadline")
			r.faults["deadline"]++
		}
		ar.returned = true
		ar.lasted = time.Since(began)
		r.tracef("Stream returned %s", said)
		r.last = time.Now()
		inside := ar.inHandler > 0
		r.mu.Unlock()
		if inside {
			r.violate("handler-outlives", []string{"C05"}, "attempt %d: Stream returned while a call of the handler was in progress", ar.idx)
		}
		close(done)
	}()
	return done
}

type ctxKey struct{}

// wait for Stream to return; false if it never does.
func (ar *attemptRun) wait(done chan struct{}) bool {
	r, ss := ar.r, ar.ss
	tick := time.NewTicker(15 * time.Second)
	defer tick.Stop()
	poll := time.NewTicker(50 * time.Millisecond)
	defer poll.Stop()
	slow := func() {
		if poll != tick {
			poll.Stop()
			poll = tick
		}
	}
	asked := time.Time{}
	forced := false
	for {
		r.mu.Lock()
		fast := ar.final && !ar.quiet
		r.mu.Unlock()
		if fast {
			select {
			case <-done:
				return true
			case <-poll.C:
			}
		} else {
			select {
			case <-done:
				return true
			case <-tick.C:
			}
		}
		r.mu.Lock()
		now := time.Now()
		stop, last := ar.stopAt, r.last
		inH := ar.inHandler + ar.inMapper
		accepted := ss.accepted
		r.mu.Unlock()
		if ar.final && asked.IsZero() && ss.base+accepted >= len(r.log.Txs) && ar.allSentNow() && now.Sub(last) >= us(ar.at.Linger) {
			// everything was accepted: end the stream
			asked = now
			slow()
			if ar.at.EndEOF {
				ar.eofOpen = true
				close(ar.wantEOF)
				r.touch()
			} else {
				r.doCancel(ar)
			}
			continue
		}
		if ar.final && asked.IsZero() && now.Sub(last) > time.Minute {
			slow()
		}
		if now.Sub(last) <= maxIdle || inH > 0 {
			continue
		}
		if !stop.IsZero() {
			if forced {
				r.violate("hang", []string{"C05"}, "attempt %d: Stream never returned (stop causes %v)\n%s", ar.idx, ar.stops, r.libStacks())
				ss.broken = true
				return false
			}
			r.violate("hang", []string{"C05"}, "attempt %d: Stream did not return within %v of %v\n%s", ar.idx, maxIdle, ar.stops, r.libStacks())
			forced = true
			ss.broken = true
			r.force(ar)
			continue
		}
		if forced {
			ss.broken = true
			return false
		}
		forced = true
		if ar.final && ar.dumpedNow() {
			r.violate("missing", ar.deliveryTags("C01"), "attempt %d: %d of %d transactions were delivered, then nothing for %v although the master sent everything", ar.idx, accepted, len(r.log.Txs)-ss.base, maxIdle)
			ss.broken = true
		} else {
			r.note("fallback")
		}
		r.force(ar)
	}
}

// deliveryTags are the properties a failure to deliver in this attempt violates.
func (ar *attemptRun) deliveryTags(base ...string) []string {
	t := append([]string(nil), base...)
	if ar.ss.resume {
		t = append(t, "C03")
	} else if ar.idx > 0 {
		t = append(t, "C04")
	}
	switch p := ar.r.p.Prop; p {
	case "C02", "C03", "C13", "C15", "C20", "C08":
		t = append(t, p)
	}
	return t
}

func (ar *attemptRun) allSentNow() bool {
	ar.r.mu.Lock()
	defer ar.r.mu.Unlock()
	return ar.allSent || len(ar.stops) > 0
}

func (ar *attemptRun) dumpedNow() bool {
	ar.r.mu.Lock()
	defer ar.r.mu.Unlock()
	return ar.dumped
}

// force ends an attempt that would not end by itself.
func (r *run) force(ar *attemptRun) {
	r.mu.Lock()
	conns := ar.conns
	r.tracef("forcing the end of the attempt")
	r.mu.Unlock()
	if ar.cancel != nil {
		r.doCancel(ar)
		return
	}
	for _, c := range conns {
		c.in.end(false, false, 0)
	}
	r.stop(ar, "close", 0)
}

func (ar *attemptRun) stopped(kinds ...string) bool {
	for _, s := range ar.stops {
		for _, k := range kinds {
			if s == k {
				return true
			}
		}
	}
	return false
}

// ask calls Error() after Stream has returned; false if that blocks.
func (ar *attemptRun) ask() bool {
	r, ss, at := ar.r, ar.ss, ar.at
	r.mu.Lock()
	ar.cancelledBefore = ar.cancelled
	r.mu.Unlock()
	if at.LateCancel && ar.cancel != nil {
		ar.cancel()
	}
	n := at.ErrCalls
	if n == 0 {
		n = 1
	}
	var emu sync.Mutex
	callers := 1
	if r.p.Caller > 1 {
		callers = r.p.Caller
	}
	all := make(chan struct{}, callers)
	for c := 0; c < callers; c++ {
		go func() {
			for i := 0; i < n; i++ {
				e := ss.s.Error()
				emu.Lock()
				ar.errs = append(ar.errs, e)
				emu.Unlock()
			}
			all <- struct{}{}
		}()
	}
	t := time.NewTimer(maxIdle)
	for c := 0; c < callers; c++ {
		select {
		case <-all:
		case <-t.C:
			r.violate("error-blocks", []string{"C05"}, "attempt %d: Error() still blocked %v after Stream returned %v (stop causes %v)\n%s", ar.idx, maxIdle, ar.serr, ar.stops, r.libStacks())
			ss.broken = true
			if ar.cancel != nil {
				ar.cancel()
			}
			return false
		}
	}
	t.Stop()
	if at.LateCancel {
		r.note("lateCancel")
	}
	return true
}

// settle checks that the attempts left nothing behind.
func (r *run) settle(group []*attemptRun) {
	leak := ""
	var left map[string]string
	for i, d := range []time.Duration{0, time.Millisecond, time.Second, maxIdle} {
		if d > 0 {
			time.Sleep(d)
		}
		leak = ""
		if left = r.libGoroutines(true); len(left) > 0 {
			leak = "goroutines of the library remain:\n" + stackText(left)
		}
		for _, ar := range group {
			r.mu.Lock()
			conns := ar.conns
			r.mu.Unlock()
			for _, c := range conns {
				if !c.closed() {
					leak += "connection to the master not closed\n"
				}
			}
		}
		if leak == "" {
			if i > 0 {
				r.note("settled late")
			}
			break
		}
	}
	if leak != "" {
		// which attempts may it be of
		key, n := "leak-dial-cancel", 0
		ar := group[0]
		for _, a := range group {
			open := false
			for _, c := range a.conns {
				open = open || !c.closed()
			}
			switch {
			case a.dialLeak():
				n++
			case open:
				key, ar = "leak", a
			}
		}
		if n == 0 || len(left) > n || !idleWatchers(left) {
			key = "leak"
		}
		for id := range left {
			r.leaked[id] = true
		}
		r.violate(key, []string{"C05"}, "attempt %d: %v after Stream returned %v (stop causes %v): %s", ar.idx, time.Since(ar.returnedAt), ar.serr, ar.stops, leak)
	}
}

// judge checks what an attempt reported and asked for.
func (ar *attemptRun) judge() bool {
	r, ss := ar.r, ar.ss
	if ar.cancel != nil {
		ar.cancel()
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.mix(uint64(len(ar.errs))<<8 ^ uint64(ss.accepted))
	r.mix(strHash(fmt.Sprint(ar.serr)))
	ar.judgeErrors(ar.cancelledBefore, ar.errs)
	ar.judgeHandshake()
	return !ss.broken
}

func idleWatchers(left map[string]string) bool {
	for _, g := range left {
		if !strings.Contains(g, "mysql.(*mysqlConn).startWatcher.") || !strings.Contains(g, "goroutine [select]") {
			return false
		}
	}
	return true
}

// dialLeak: the only connection of the attempt was dialled but the client neither
// read from it nor wrote to it, the caller had cancelled, and what remains is the
// driver's watcher goroutine, idle.
func (ar *attemptRun) dialLeak() bool {
	ar.r.mu.Lock()
	defer ar.r.mu.Unlock()
	if !ar.cancelled || len(ar.cmds) != 0 || len(ar.conns) != 1 || ar.serr == nil {
		return false
	}
	c := ar.conns[0]
	c.in.mu.Lock()
	reads := c.reads
	c.in.mu.Unlock()
	if reads != 0 {
		return false
	}
	c.out.mu.Lock()
	defer c.out.mu.Unlock()
	return !c.out.wclosed && c.out.last.IsZero()
}

// v records a violation with r.mu held.
func (r *run) v(key string, props []string, format string, args ...interface{}) {
	if len(r.viol) > 20 {
		return
	}
	r.viol = append(r.viol, Violation{props, key, fmt.Sprintf(format, args...)})
	r.tracef("VIOLATION %v %s", props, key)
}

// judgeErrors checks what Stream and Error() reported (r.mu is held).
func (ar *attemptRun) judgeErrors(cancelledBefore bool, errs []error) {
	r, ss := ar.r, ar.ss
	if ss.broken {
		return
	}
	S := ar.serr
	said := fmt.Sprint(errs)
	r.tracef("Error() returned %s", said)
	who := fmt.Sprintf("attempt %d (stop causes %v)", ar.idx, ar.stops)
	if ar.hErrHit && S == nil {
		r.v("handler-error-swallowed", []string{"C06"}, "%s: the handler returned an error, Stream returned nil", who)
	}
	if ar.mErrHit && S == nil {
		r.v("mapper-error-swallowed", []string{"C06"}, "%s: the table lookup failed, Stream returned nil", who)
	}
	if ar.misHit && S == nil {
		r.v("mismatch-swallowed", []string{"C06", "C15"}, "%s: the table mapper disagreed on the column count, Stream returned nil", who)
	}
	others := false // stop causes besides the caller's own and the undecodable event
	for _, s := range ar.stops {
		switch s {
		case "event", "bad", "cut", "dec", "unk", "fdever":
		default:
			others = true
		}
	}
	if ar.mustErr && !others && !cancelledBefore && S == nil {
		tags := []string{"C06"}
		if ar.stopped("bad") {
			tags = append(tags, "C17")
		}
		r.v("undecodable-swallowed", tags, "%s: an event that cannot be processed ended the stream, Stream returned nil", who)
	}
	// one thing, and not a read timeout of the driver, ended the stream
	sole := len(ar.stops) == 1 && !(r.readTimeoutPossible(ar) && ar.lasted >= 29*time.Second)
	for i, e := range errs {
		if S != nil {
			break
		}
		if e == nil {
			ok := cancelledBefore || ar.eofs > 0
			if !ok {
				r.v("swallowed", []string{"C06"}, "%s: Stream returned nil and Error() call %d returned nil", who, i)
				break
			}
			continue
		}
		msgOK := true
		for _, m := range ar.errMsgs {
			msgOK = msgOK && strings.Contains(e.Error(), m)
		}
		if len(ar.errMsgs) > 0 && !msgOK && sole {
			r.v("message-lost", []string{"C06"}, "%s: Error() returned %q without the master's message %q", who, e, ar.errMsgs)
		}
		if sole && ar.eofs > 0 {
			r.v("eof-as-error", []string{"C06"}, "%s: the master's EOF was reported as an error: %v", who, e)
		}
		if sole && ar.stopped("cancel") && ar.dumped {
			r.v("cancel-as-error", []string{"C06"}, "%s: cancellation was reported as an error: %v", who, e)
		}
	}
	if S == nil && len(ar.stops) == 0 && !ar.hErrHit && !ar.mErrHit && !ar.misHit {
		if !r.readTimeoutPossible(ar) {
			r.v("ended", []string{"C01", "C06"}, "attempt %d: Stream returned nil although nothing ended the stream; Error(): %v", ar.idx, errs)
		}
	}
	if S != nil && len(ar.stops) == 0 && !ar.hErrHit && !ar.mErrHit && !ar.misHit && !ar.mustErr {
		if !r.readTimeoutPossible(ar) {
			r.v("refused", ar.deliveryTags("C01"), "attempt %d: a well-formed stream was refused: %v", ar.idx, S)
			ss.broken = true
		}
	}
	if ar.final && !ss.broken && ss.base+ss.accepted < len(r.log.Txs) {
		r.v("lost", ar.deliveryTags("C01"), "attempt %d: the undisturbed stream ended (%v, %v) with %d of %d transactions accepted", ar.idx, S, errs, ss.accepted, len(r.log.Txs)-ss.base)
		ss.broken = true
	}
}

// readTimeoutPossible: the read timeout of the DSN may have ended the attempt.
func (r *run) readTimeoutPossible(ar *attemptRun) bool {
	return strings.Contains(r.p.Params, "readTimeout")
}

// judgeHandshake checks the commands the master received (r.mu is held).
func (ar *attemptRun) judgeHandshake() {
	r, ss := ar.r, ar.ss
	aware := map[int]bool{} // connections
	dumps := 0
	for _, c := range ar.cmds {
		switch c.Code {
		case 3:
			l := strings.ToLower(strings.TrimSpace(c.SQL))
			if strings.HasPrefix(l, "set") && strings.Contains(l, "@master_binlog_checksum") {
				if dumps == 0 {
					aware[c.Conn] = true
				}
				val := strings.TrimSpace(l[strings.Index(l, "@master_binlog_checksum")+len("@master_binlog_checksum"):])
				val = strings.TrimSpace(strings.TrimLeft(val, ":= "))
				if val == "" {
					r.v("checksum-value", []string{"C07"}, "attempt %d: checksum awareness announced with an odd statement %q", ar.idx, c.SQL)
				}
			}
		case 18:
			dumps++
			if !aware[c.Conn] {
				r.v("no-awareness", []string{"C07"}, "attempt %d: dump requested without announcing checksum awareness; commands %s", ar.idx, cmdNames(ar.cmds))
			}
			if c.Flags != 0 {
				r.v("dump-flags", []string{"C07"}, "attempt %d: dump requested with flags %#x, want a blocking dump", ar.idx, c.Flags)
			}
			if c.Server != r.p.ServerID {
				r.v("dump-server", []string{"C07"}, "attempt %d: dump requested with server id %d, configured is %d", ar.idx, c.Server, r.p.ServerID)
			}
			at := ss.start
			if ar.before > 0 {
				at = r.log.Txs[ss.base+ar.before-1].Next
			}
			got := model.Position{File: c.File, Off: int64(c.Pos)}
			if ar.odd != nil {
				if got != *ar.odd {
					r.v("dump-position", []string{"C07"}, "attempt %d: dump requested from %v, the configured position is %v", ar.idx, got, *ar.odd)
				}
			} else if ar.idx == 0 {
				if got != at {
					tags := []string{"C07"}
					if ss.resume {
						tags = append(tags, "C03")
					}
					r.v("dump-position", tags, "attempt 0: dump requested from %v, the configured position is %v", got, at)
				}
			} else if !r.log.Equivalent(at, got) {
				r.v("resume-position", []string{"C04", "C07", "C17"}, "attempt %d: dump requested from %v, %d transactions were accepted so the resume position is %v (previous attempt's stop causes: %v)", ar.idx, got, ar.before, at, r.prevStops(ar))
			}
		}
	}
	for _, c := range ar.late {
		if c.Code == 18 && len(c.Raw) > 10 {
			dumps++
		}
	}
	if dumps > 1 {
		r.v("dumps", []string{"C07"}, "attempt %d: %d dump requests were issued: %s", ar.idx, dumps, cmdNames(ar.cmds))
	}
}

func (r *run) prevStops(ar *attemptRun) []string {
	for i := len(r.attempts) - 1; i >= 0; i-- {
		p := r.attempts[i]
		if p.ss == ar.ss && p.idx == ar.idx-1 {
			s := append([]string(nil), p.stops...)
			if p.hErrHit {
				s = append(s, "handler error")
			}
			if p.mErrHit {
				s = append(s, "mapper error")
			}
			if p.misHit {
				s = append(s, "column-count mismatch")
			}
			return s
		}
	}
	return nil
}

func cmdNames(cs []cmd) string {
	var s []string
	for _, c := range cs {
		switch c.Code {
		case 1:
			s = append(s, "QUIT")
		case 3:
			s = append(s, "QUERY "+strconv.Quote(c.SQL))
		case 18:
			s = append(s, fmt.Sprintf("DUMP(%s:%d,server %d,flags %d)", c.File, c.Pos, c.Server, c.Flags))
		default:
			s = append(s, fmt.Sprintf("command %d", c.Code))
		}
	}
	return strings.Join(s, "; ")
}

// libStacks lists the goroutines of the current bubble that run library code.
func (r *run) libStacks() string { return stackText(r.libGoroutines(false)) }

func stackText(m map[string]string) string {
	var out []string
	for _, g := range m {
		out = append(out, g)
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

// libGoroutines maps the ids of those goroutines to their stacks; fresh leaves out
// those already reported.
func (r *run) libGoroutines(fresh bool) map[string]string {
	buf := stackBuf
	n := runtime.Stack(buf, true)
	for n == len(buf) && n < 1<<28 {
		stackBuf = make([]byte, 2*n)
		buf = stackBuf
		n = runtime.Stack(buf, true)
	}
	s := string(buf[:n])
	gs := strings.Split(s, "\n\n")
	bub := bubbleOf(gs[0])
	out := map[string]string{}
	for _, g := range gs[1:] {
		id := g
		if i := strings.Index(g, " ["); i > 0 {
			id = g[:i]
		}
		if bubbleOf(g) == bub && strings.Contains(g, "github.com/Breeze0806/") && !(fresh && r.leaked[id]) {
			lines := strings.Split(g, "\n")
			keep := lines[0]
			for _, l := range lines[1:] {
				if !strings.HasPrefix(l, "\t") {
					if i := strings.IndexByte(l, '('); i > 0 && strings.HasSuffix(l, ")") {
						l = l[:strings.LastIndexByte(l, '(')]
					}
					keep += "\n    " + l
				}
			}
			out[id] = cleanG(keep)
		}
	}
	return out
}

var stackBuf = make([]byte, 1<<20)

func bubbleOf(g string) string {
	i := strings.Index(g, "synctest bubble ")
	if i < 0 {
		return ""
	}
	g = g[i:]
	if j := strings.IndexAny(g, ",]"); j > 0 {
		return g[:j]
	}
	return ""
}

// cleanG removes run-dependent numbers from a goroutine header.
func cleanG(s string) string {
	i := strings.IndexByte(s, '\n')
	h, rest := s, ""
	if i >= 0 {
		h, rest = s[:i], s[i:]
	}
	if a := strings.IndexByte(h, '['); a >= 0 {
		b := h[a+1:]
		if j := strings.IndexAny(b, ",]("); j > 0 {
			b = b[:j]
		}
		h = "  goroutine [" + strings.TrimSpace(b) + "]"
	}
	if j := strings.Index(rest, " in goroutine "); j >= 0 {
		rest = rest[:j]
	}
	return h + rest
}

func strHash(s string) uint64 {
	h := uint64(0xcbf29ce484222325)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 0x100000001b3
	}
	return h
}

// mapper is the table mapper given to the streamer.
type mapper struct{ ss *session }

type col struct {
	name string
	uns  bool
}

func (c col) Field() string       { return c.name }
func (c col) IsUnSignedInt() bool { return c.uns }

type table struct {
	name gobinlog.MysqlTableName
	cols []gobinlog.MysqlColumn
}

func (t *table) Name() gobinlog.MysqlTableName   { return t.name }
func (t *table) Columns() []gobinlog.MysqlColumn { return t.cols }

func (m *mapper) MysqlTable(name gobinlog.MysqlTableName) (gobinlog.MysqlTable, error) {
	ss := m.ss
	r := ss.r
	ar := ss.current()
	at := ar.at
	r.mu.Lock()
	ar.mcalls++
	n := ar.mcalls
	ar.inMapper++
	late := ar.returned
	r.last = time.Now()
	r.tracef("mapper %q %q", name.DbName, name.TableName)
	next := ss.base + ss.accepted
	r.mu.Unlock()
	defer func() {
		r.mu.Lock()
		ar.inMapper--
		r.last = time.Now()
		r.mu.Unlock()
	}()
	if late {
		r.violate("mapper-late", []string{"C05"}, "attempt %d: table mapper called after Stream had returned", ar.idx)
	}
	if at.MSlow > 0 {
		time.Sleep(us(at.MSlow))
	}
	if c := at.Cancel; c != nil && c.At == "mapper" && c.N == n {
		r.cancelAfter(ar, c.D)
	}
	ti := -1
	for i := range r.p.Hist.Tables {
		t := &r.p.Hist.Tables[i]
		if t.DB == name.DbName && t.Name == name.TableName {
			ti = i
		}
	}
	if ti < 0 {
		r.violate("mapper-name", ar.deliveryTags("C15", "C01"), "attempt %d: the table mapper was asked for %q.%q, which is not in the binlog", ar.idx, name.DbName, name.TableName)
		ss.broken = true
		return nil, errAbort
	}
	if at.MErr == n {
		r.mu.Lock()
		ar.mErrHit = true
		r.faults["mapper-error"]++
		if ar.stopAt.IsZero() {
			ar.stopAt = time.Now()
		}
		r.tracef("mapper fails")
		r.mu.Unlock()
		return nil, userError(at.EKind, "table lookup failed (injected)")
	}
	if next > len(r.log.Txs) {
		next = len(r.log.Txs)
	}
	v := r.log.Version(ti, next)
	t := &r.p.Hist.Tables[ti]
	out := &table{name: name}
	for i := range t.Vers[v] {
		c := &t.Vers[v][i]
		out.cols = append(out.cols, col{c.Name, c.U})
	}
	if at.MMis == n {
		r.mu.Lock()
		ar.misHit = true
		r.faults["mapper-mismatch"]++
		if ar.stopAt.IsZero() {
			ar.stopAt = time.Now()
		}
		r.tracef("mapper returns %+d columns", at.MDelta)
		r.mu.Unlock()
		d := at.MDelta
		if d == 0 {
			d = 1
		}
		if len(out.cols)+d < 0 {
			d = 1
		}
		if d < 0 {
			out.cols = out.cols[:len(out.cols)+d]
		}
		for i := 0; i < d; i++ {
			out.cols = append(out.cols, col{"extra" + strconv.Itoa(i), false})
		}
	}
	return out, nil
}
