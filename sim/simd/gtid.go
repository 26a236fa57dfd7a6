package main

import (
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/Breeze0806/gobinlog/replication"

	"verif/model"
	"verif/simrt"
)

// GtidPlan is a program of several caller threads that share GTID sets.
type GtidPlan struct {
	Maria   bool       `json:"maria,omitempty"`
	Sids    []string   `json:"sids,omitempty"` // hex
	Sets    []string   `json:"sets"`           // canonical texts
	Threads [][]GtidOp `json:"threads"`
}

// GtidOp is one call.
type GtidOp struct {
	K string `json:"k"` // add has sup eq str blk txt gtid ev prev
	A int    `json:"a,omitempty"`
	B int    `json:"b,omitempty"`
	S int    `json:"s,omitempty"` // server: index of a SID, or a MariaDB server id
	D uint32 `json:"d,omitempty"`
	N uint64 `json:"n,omitempty"`
	P bool   `json:"p,omitempty"` // publish the derived set to the other threads
}

type iv struct{ lo, hi uint64 }

// mset is the model of a MySQL 5.6 set; never modified once built.
type mset map[string][]iv // 16 raw bytes -> sorted disjoint non-adjacent intervals

func (m mset) has(sid string, n uint64) bool {
	for _, v := range m[sid] {
		if v.lo <= n && n <= v.hi {
			return true
		}
	}
	return false
}

func (m mset) add(sid string, n uint64) mset {
	out := mset{}
	for k, v := range m {
		out[k] = v
	}
	if m.has(sid, n) {
		return out
	}
	l := append(append([]iv(nil), m[sid]...), iv{n, n})
	sort.Slice(l, func(i, j int) bool { return l[i].lo < l[j].lo })
	var r []iv
	for _, v := range l {
		if k := len(r); k > 0 && r[k-1].hi+1 == v.lo {
			r[k-1].hi = v.hi
		} else {
			r = append(r, v)
		}
	}
	out[sid] = r
	return out
}

func (m mset) contains(o mset) bool {
	for sid, l := range o {
		for _, w := range l {
			ok := false
			for _, v := range m[sid] {
				if v.lo <= w.lo && w.hi <= v.hi {
					ok = true
				}
			}
			if !ok {
				return false
			}
		}
	}
	return true
}

func (m mset) String() string {
	var ks []string
	for k := range m {
		if len(m[k]) > 0 {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	var out []string
	for _, k := range ks {
		s := sidText(k)
		for _, v := range m[k] {
			if v.lo == v.hi {
				s += fmt.Sprintf(":%d", v.lo)
			} else {
				s += fmt.Sprintf(":%d-%d", v.lo, v.hi)
			}
		}
		out = append(out, s)
	}
	return strings.Join(out, ",")
}

// block is the binary form of the set.
func (m mset) block() []byte {
	var ks []string
	for k := range m {
		if len(m[k]) > 0 {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	b := binary.LittleEndian.AppendUint64(nil, uint64(len(ks)))
	for _, k := range ks {
		b = append(b, k...)
		b = binary.LittleEndian.AppendUint64(b, uint64(len(m[k])))
		for _, v := range m[k] {
			b = binary.LittleEndian.AppendUint64(b, v.lo)
			b = binary.LittleEndian.AppendUint64(b, v.hi+1)
		}
	}
	return b
}

func sidText(k string) string {
	h := hex.EncodeToString([]byte(k))
	return h[:8] + "-" + h[8:12] + "-" + h[12:16] + "-" + h[16:20] + "-" + h[20:]
}

func parseModelSet(s string) mset {
	m := mset{}
	for _, p := range strings.Split(s, ",") {
		p = strings.TrimSpace(p)
		if p == "" {
			continue
		}
		f := strings.Split(p, ":")
		raw, err := hex.DecodeString(strings.ReplaceAll(f[0], "-", ""))
		if err != nil {
			panic(err)
		}
		for _, t := range f[1:] {
			var v iv
			if n, _ := fmt.Sscanf(t, "%d-%d", &v.lo, &v.hi); n == 1 {
				v.hi = v.lo
			}
			m[string(raw)] = append(m[string(raw)], v)
		}
	}
	return m
}

// dset is the model of a MariaDB set: one (server, sequence) per domain.
type dpos struct {
	srv uint32
	seq uint64
	any bool // two servers reached the same sequence number: either is right
}
type dset map[uint32]dpos

func (m dset) add(d, s uint32, n uint64) dset {
	o := dset{}
	for k, v := range m {
		o[k] = v
	}
	if v, ok := o[d]; !ok || n > v.seq {
		o[d] = dpos{srv: s, seq: n}
	} else if n == v.seq && s != v.srv {
		v.any = true
		o[d] = v
	}
	return o
}

func (m dset) has(d uint32, n uint64) bool {
	v, ok := m[d]
	return ok && v.seq >= n
}

func (m dset) contains(o dset) bool {
	for d, v := range o {
		if !m.has(d, v.seq) {
			return false
		}
	}
	return true
}

func parseModelDomains(s string) (dset, error) {
	m := dset{}
	if s == "" {
		return m, nil
	}
	for _, p := range strings.Split(s, ",") {
		var d, srv uint32
		var n uint64
		if k, err := fmt.Sscanf(p, "%d-%d-%d", &d, &srv, &n); k != 3 {
			return nil, fmt.Errorf("%q: %v", p, err)
		}
		if _, ok := m[d]; ok {
			return nil, fmt.Errorf("domain %d occurs twice in %q", d, s)
		}
		m[d] = dpos{srv: srv, seq: n}
	}
	return m, nil
}

// gset couples a set of the library with its model.
type gset struct {
	lib  replication.GTIDSet
	my   mset
	ma   dset
	text string // as first printed
}

type grun struct {
	*run
	g      *GtidPlan
	sids   []string
	flavor string
	mu2    sync.Mutex
	pub    []*gset
	all    []*gset
	ops    int

	noParser bool
}

func executeGtid(p *Plan) (out Outcome) {
	r := &grun{run: &run{p: p, faults: map[string]int{}, probes: map[string]int{}, obs: 0xcbf29ce484222325}, g: p.Gtid}
	r.flavor = "MySQL56"
	if r.g.Maria {
		r.flavor = "MariaDB"
	}
	for _, s := range r.g.Sids {
		b, _ := hex.DecodeString(s)
		r.sids = append(r.sids, string(b))
	}
	budget := p.Budget
	if budget == 0 {
		budget = 20_000_000
	}
	res := simrt.Run(&p.Sched, budget, func() {
		r.start = time.Now()
		r.gmain()
		r.finished = true
	})
	if !r.finished {
		r.violate("deadlock", r.tag(p.Prop), "a GTID operation never returned")
	}
	out.Viol = r.viol
	out.Res = res
	out.Hash = res.Hash
	out.ObsHash = r.obs
	out.Faults = r.faults
	out.Probes = r.probes
	out.Trace = r.trace
	return out
}

func (r *grun) tag(own string) []string {
	if r.g.Maria {
		return []string{"C19"}
	}
	return []string{own}
}

func setParser(maria bool) func(string) (replication.GTIDSet, error) {
	lit := "00010203-0405-0607-0809-0a0b0c0d0e0f:1-5"
	want := "MySQL56"
	if maria {
		lit, want = "3-4-5", "MariaDB"
	}
	for _, f := range replication.VerifSetParsers {
		if s, err := f(lit); err == nil && s != nil && s.Flavor() == want {
			return f
		}
	}
	return nil
}

func (r *grun) parse(s string) (replication.GTIDSet, error) {
	f := setParser(r.g.Maria)
	if f != nil {
		return f(s)
	}
	// The registered parser has another shape in this tree: build the set
	// through the exported API.
	r.noParser = true
	if !r.g.Maria {
		return replication.NewMysql56GTIDSetFromSIDBlock(parseModelSet(s).block())
	}
	var set replication.GTIDSet = replication.MariadbGTIDSet{}
	for _, p := range strings.Split(s, ",") {
		g, err := replication.ParseGTID(r.flavor, p)
		if err != nil {
			return nil, err
		}
		set = set.AddGTID(g)
	}
	return set, nil
}

func (r *grun) gmain() {
	defer func() {
		if e := recover(); e != nil {
			r.violate("gtid-panic", r.tag("C18"), "a GTID operation panicked: %v", e)
		}
	}()
	for _, s := range r.g.Sets {
		lib, err := r.parse(s)
		if err != nil {
			r.violate("set-parse", []string{"C19", "C18"}, "the canonical set %q does not parse: %v", s, err)
			return
		}
		gs := &gset{lib: lib}
		if r.g.Maria {
			gs.ma, err = parseModelDomains(s)
			if err != nil {
				panic("bad plan: " + err.Error())
			}
		} else {
			gs.my = parseModelSet(s)
		}
		r.adopt(gs, "parsing "+s)
	}
	var wg sync.WaitGroup
	for i := range r.g.Threads {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			r.thread(r.g.Threads[i])
		}(i)
	}
	wg.Wait()
	for _, s := range r.all {
		r.verify(s, "at the end")
	}
}

// adopt registers a set and checks that it is what the model says.
func (r *grun) adopt(s *gset, how string) {
	s.text = s.lib.String()
	r.check(s, how)
	r.mu2.Lock()
	r.all = append(r.all, s)
	r.mu2.Unlock()
}

func (r *grun) check(s *gset, how string) {
	if r.g.Maria {
		m, err := parseModelDomains(s.lib.String())
		if err != nil {
			r.violate("maria-domains", []string{"C19"}, "%s: %v", how, err)
			return
		}
		for d, v := range s.ma {
			if m[d].seq != v.seq || m[d].srv != v.srv && !v.any {
				r.violate("maria-value", []string{"C19"}, "%s: the set is %q, domain %d must be at %d-%d", how, s.lib.String(), d, v.srv, v.seq)
				return
			}
		}
		if len(m) != len(s.ma) {
			r.violate("maria-value", []string{"C19"}, "%s: the set is %q, want %d domains", how, s.lib.String(), len(s.ma))
		}
		return
	}
	if got, want := s.lib.String(), s.my.String(); got != want {
		r.violate("set-value", []string{"C18"}, "%s: the set is %q, want %q", how, got, want)
	}
}

// verify that a set has not changed.
func (r *grun) verify(s *gset, when string) {
	if t := s.lib.String(); t != s.text {
		r.violate("altered", r.tag("C18"), "%s: a set changed from %q to %q", when, s.text, t)
	}
}

func (r *grun) gtid(o *GtidOp) replication.GTID {
	if r.g.Maria {
		return replication.MariadbGTID{Domain: o.D, Server: uint32(o.S), Sequence: o.N}
	}
	var sid replication.SID
	copy(sid[:], r.sid(o.S))
	return replication.Mysql56GTID{Server: sid, Sequence: int64(o.N)}
}

func (r *grun) sid(i int) string { return r.sids[i%len(r.sids)] }

func (r *grun) thread(ops []GtidOp) {
	defer func() {
		if e := recover(); e != nil {
			r.violate("gtid-panic", r.tag("C18"), "a GTID operation panicked: %v", e)
		}
	}()
	r.mu2.Lock()
	sets := append([]*gset(nil), r.all...)
	r.mu2.Unlock()
	pick := func(i int) *gset {
		if len(sets) == 0 {
			return nil
		}
		return sets[i%len(sets)]
	}
	for i := range ops {
		o := &ops[i]
		r.mu2.Lock()
		sets = append(sets, r.pub...)
		r.ops++
		r.mu2.Unlock()
		if len(sets) > 40 {
			sets = sets[len(sets)-40:]
		}
		a, b := pick(o.A), pick(o.B)
		if a == nil || b == nil {
			return
		}
		switch o.K {
		case "add":
			before := a.lib.String()
			n := &gset{lib: a.lib.AddGTID(r.gtid(o))}
			if r.g.Maria {
				n.ma = a.ma.add(o.D, uint32(o.S), o.N)
			} else {
				n.my = a.my.add(r.sid(o.S), o.N)
			}
			if t := a.lib.String(); t != before || t != a.text {
				r.violate("altered", r.tag("C18"), "adding %v to %q altered it to %q", r.gtid(o), a.text, t)
			}
			r.adopt(n, fmt.Sprintf("adding %v to %q", r.gtid(o), a.text))
			sets = append(sets, n)
			if o.P {
				r.mu2.Lock()
				r.pub = append(r.pub, n)
				if len(r.pub) > 6 {
					r.pub = r.pub[1:]
				}
				r.mu2.Unlock()
			}
		case "has":
			want := false
			if r.g.Maria {
				want = a.ma.has(o.D, o.N)
			} else {
				want = a.my.has(r.sid(o.S), o.N)
			}
			if got := a.lib.ContainsGTID(r.gtid(o)); got != want {
				r.violate("membership", r.tag("C18"), "%q.ContainsGTID(%v) = %v", a.text, r.gtid(o), got)
			}
		case "sup":
			want := false
			if r.g.Maria {
				want = a.ma.contains(b.ma)
			} else {
				want = a.my.contains(b.my)
			}
			if got := a.lib.Contains(b.lib); got != want {
				r.violate("superset", r.tag("C18"), "%q.Contains(%q) = %v", a.text, b.text, got)
			}
		case "eq":
			if r.g.Maria {
				if a.text == b.text && !a.lib.Equal(b.lib) {
					r.violate("equal", []string{"C19"}, "%q.Equal(%q) = false", a.text, b.text)
				}
				if !(a.ma.contains(b.ma) && b.ma.contains(a.ma)) && a.lib.Equal(b.lib) {
					r.violate("equal", []string{"C19"}, "%q.Equal(%q) = true", a.text, b.text)
				}
				break
			}
			want := a.my.String() == b.my.String()
			if got := a.lib.Equal(b.lib); got != want {
				r.violate("equal", []string{"C18"}, "%q.Equal(%q) = %v", a.text, b.text, got)
			}
		case "str":
			r.verify(a, "reading")
			r.check(a, "reading "+a.text)
		case "txt":
			if a.text == "" || r.noParser {
				break
			}
			back, err := r.parse(a.lib.String())
			if err != nil {
				r.violate("text-roundtrip", []string{"C19"}, "%q does not parse back: %v", a.text, err)
			} else if !back.Equal(a.lib) || !a.lib.Equal(back) || back.String() != a.lib.String() {
				r.violate("text-roundtrip", []string{"C19"}, "%q parses back as %q", a.text, back)
			}
		case "blk":
			if s, ok := a.lib.(replication.Mysql56GTIDSet); ok {
				blk := s.SIDBlock()
				back, err := replication.NewMysql56GTIDSetFromSIDBlock(blk)
				if err != nil {
					r.violate("block-roundtrip", []string{"C19"}, "the SID block of %q does not decode: %v", a.text, err)
				} else if !back.Equal(a.lib) || !a.lib.Equal(back) || back.String() != a.text {
					r.violate("block-roundtrip", []string{"C19"}, "the SID block of %q decodes to %q", a.text, back)
				}
				if back, err = replication.NewMysql56GTIDSetFromSIDBlock(a.my.block()); err != nil || !back.Equal(a.lib) {
					r.violate("block-decode", []string{"C19"}, "a master's SID block of %q decodes to %q, %v", a.text, back, err)
				}
			}
		case "dup":
			if !r.g.Maria || a.text == "" || r.noParser {
				break
			}
			t := fmt.Sprintf("%s,%s-%d-%d", a.text, a.text[:strings.Index(a.text, "-")], uint32(o.S), o.N)
			back, err := r.parse(t)
			if err != nil || back == nil {
				break
			}
			if _, err := parseModelDomains(back.String()); err != nil {
				r.violate("maria-domains", []string{"C19"}, "%q parses into %q: %v", t, back, err)
			}
		case "gtid":
			r.gtidText(o)
		case "ev":
			r.gtidEvent(o)
		case "prev":
			r.prevEvent(o, a)
		}
	}
}

func (r *grun) gtidText(o *GtidOp) {
	g := r.gtid(o)
	s := g.String()
	want := fmt.Sprintf("%d-%d-%d", o.D, uint32(o.S), o.N)
	if !r.g.Maria {
		want = fmt.Sprintf("%s:%d", sidText(r.sid(o.S)), int64(o.N))
	}
	if s != want {
		r.violate("gtid-text", []string{"C19"}, "GTID printed as %q, want %q", s, want)
	}
	back, err := replication.ParseGTID(g.Flavor(), s)
	if err != nil || back != g {
		r.violate("gtid-roundtrip", []string{"C19"}, "%q parses back as %v, %v", s, back, err)
	}
	e := replication.EncodeGTID(g)
	back, err = replication.DecodeGTID(e)
	if err != nil || back != g {
		r.violate("gtid-roundtrip", []string{"C19"}, "%q decodes to %v, %v", e, back, err)
	}
	if !r.g.Maria {
		sid, err := replication.ParseSID(sidText(r.sid(o.S)))
		if err != nil || string(sid[:]) != r.sid(o.S) {
			r.violate("sid-roundtrip", []string{"C19"}, "SID %q parses as %v, %v", sidText(r.sid(o.S)), sid, err)
		}
	}
	server, number, domain := fmt.Sprint(g.SourceServer()), fmt.Sprint(g.SequenceNumber()), fmt.Sprint(g.SequenceDomain())
	if r.g.Maria {
		if server != fmt.Sprint(uint32(o.S)) || number != fmt.Sprint(o.N) || domain != fmt.Sprint(o.D) {
			r.violate("gtid-parts", []string{"C19"}, "%q consists of domain %s, server %s, number %s", s, domain, server, number)
		}
	} else if server != sidText(r.sid(o.S)) || number != fmt.Sprint(int64(o.N)) {
		r.violate("gtid-parts", []string{"C19"}, "%q consists of server %s, number %s", s, server, number)
	}
	set := g.GTIDSet()
	if !set.ContainsGTID(g) || set.String() != want {
		r.violate("gtid-set", []string{"C19"}, "the set of %q alone is %q", s, set)
	}
}

func (r *grun) format(crc bool) (replication.BinlogFormat, error) {
	h := &model.History{Version: "5.7.30-log", HdrSizes: 38, ServerID: 1}
	return replication.NewMysql56BinlogEvent(model.Finish(h.FDE(1, 0, 0, crc), true)).Format()
}

func (r *grun) gtidEvent(o *GtidOp) {
	crc := o.A%2 == 0
	f, err := r.format(crc)
	if err != nil {
		r.violate("gtid-format", []string{"C19"}, "format description refused: %v", err)
		return
	}
	if r.g.Maria {
		b := binary.LittleEndian.AppendUint64(nil, o.N)
		b = binary.LittleEndian.AppendUint32(b, o.D)
		b = append(b, byte(o.B))
		b = append(b, 1, 2, 3, 4, 5, 6)
		ev := replication.NewMariadbBinlogEvent(model.Finish(model.RawEvent(7, 162, uint32(o.S), 0, 99, 0, b), crc))
		ev, _, err := ev.StripChecksum(f)
		if err != nil {
			r.violate("gtid-strip", []string{"C19"}, "checksum not stripped: %v", err)
			return
		}
		g, _, err := ev.GTID(f)
		if !ev.IsGTID() || err != nil || g != r.gtid(o) {
			r.violate("gtid-event", []string{"C19"}, "a MariaDB GTID event of %v decodes to %v, %v", r.gtid(o), g, err)
		}
		return
	}
	b := append([]byte{byte(o.B)}, r.sid(o.S)...)
	b = binary.LittleEndian.AppendUint64(b, o.N)
	if o.A%3 != 0 {
		b = append(b, 2)
		b = binary.LittleEndian.AppendUint64(b, 5)
		b = binary.LittleEndian.AppendUint64(b, 6)
	}
	ev := replication.NewMysql56BinlogEvent(model.Finish(model.RawEvent(7, model.EvGTID, 9, 0, 99, 0, b), crc))
	ev, _, err = ev.StripChecksum(f)
	if err != nil {
		r.violate("gtid-strip", []string{"C19"}, "checksum not stripped: %v", err)
		return
	}
	g, _, err := ev.GTID(f)
	if !ev.IsGTID() || err != nil || g != r.gtid(o) {
		r.violate("gtid-event", []string{"C19"}, "a GTID event of %v decodes to %v, %v", r.gtid(o), g, err)
	}
}

func (r *grun) prevEvent(o *GtidOp, a *gset) {
	if r.g.Maria {
		return
	}
	crc := o.N%2 == 0
	f, err := r.format(crc)
	if err != nil {
		r.violate("gtid-format", []string{"C19"}, "format description refused: %v", err)
		return
	}
	ev := replication.NewMysql56BinlogEvent(model.Finish(model.RawEvent(7, model.EvPrevGTIDs, 9, 0, 99, 0, a.my.block()), crc))
	ev, _, err = ev.StripChecksum(f)
	if err != nil {
		r.violate("gtid-strip", []string{"C19"}, "checksum not stripped: %v", err)
		return
	}
	s, err := ev.PreviousGTIDs(f)
	if !ev.IsPreviousGTIDs() || err != nil || s == nil || !s.Equal(a.lib) || s.String() != a.text {
		r.violate("prev-event", []string{"C19"}, "a previous-GTIDs event of %q decodes to %v, %v", a.text, s, err)
	}
}

// genGtid draws a program.
func genGtid(g *model.Rng, prop string, big bool) *GtidPlan {
	p := &GtidPlan{Maria: prop == "C19" && g.P(50)}
	win := g.One(4, 6, 8, 12, 30)
	large := g.P(4)
	if large {
		win = g.One(40, 100, 130, 300, 600)
	}
	seq := func() uint64 {
		switch {
		case g.P(90):
			return uint64(1 + g.N(win))
		case g.P(50):
			return math.MaxInt64 - uint64(g.N(4))
		default:
			return 1 + g.U64()>>uint(1+g.N(62))
		}
	}
	fix := func(n uint64) uint64 {
		if p.Maria && n > math.MaxInt64-4 && g.P(50) {
			return n << 1
		}
		if n == 0 || n > math.MaxInt64 {
			return 1
		}
		return n
	}
	nsid := g.Range(1, 4)
	if large {
		nsid = g.One(1, 2, 9, 17, 33, 70)
	}
	base := g.Bytes(16)
	for i := 0; i < nsid; i++ {
		b := append([]byte(nil), base...)
		kind := g.N(4)
		if large && kind == 2 {
			kind = 1
		}
		switch kind {
		case 0:
			b = g.Bytes(16)
		case 1:
			b[15] += byte(i)
		case 2:
			b[0] ^= byte(i) << 6
		default:
			b[g.N(16)] ^= byte(1 + g.N(255))
		}
		p.Sids = append(p.Sids, hex.EncodeToString(b))
	}
	var doms []uint32
	nd := 8
	if large {
		nd = 120
	}
	for i := g.Range(1, nd); i > 0; i-- {
		doms = append(doms, []uint32{uint32(i), 0, math.MaxUint32 - uint32(i), uint32(g.U64())}[g.N(4)])
	}
	for n := g.Range(1, 4); n > 0; n-- {
		if p.Maria {
			seen := map[uint32]bool{}
			var t []string
			for k := g.Range(1, nd); k > 0; k-- {
				d := doms[g.N(len(doms))]
				if seen[d] {
					continue
				}
				seen[d] = true
				t = append(t, fmt.Sprintf("%d-%d-%d", d, uint32(g.U64())>>uint(g.N(32)), fix(seq())))
			}
			p.Sets = append(p.Sets, strings.Join(t, ","))
			continue
		}
		m := mset{}
		if large { // mostly gaps: many intervals
			for i := range p.Sids {
				raw, _ := hex.DecodeString(p.Sids[i])
				if len(m[string(raw)]) > 0 || !g.P(90) {
					continue
				}
				at := uint64(0)
				var l []iv
				for k := g.N(2*win/nsid + 2); k > 0; k-- {
					at += uint64(g.One(2, 2, 2, 3, 9))
					hi := at + uint64(g.One(0, 0, 0, 1, 5))
					l = append(l, iv{at, hi})
					at = hi
				}
				if len(l) > 0 {
					m[string(raw)] = l
				}
			}
		}
		for k := g.N(2 * win); k > 0; k-- {
			if large && k > 20 {
				k = 20
			}
			raw, _ := hex.DecodeString(p.Sids[g.N(nsid)])
			m = m.add(string(raw), fix(seq()))
		}
		if g.P(30) {
			raw, _ := hex.DecodeString(p.Sids[g.N(nsid)])
			if len(m[string(raw)]) == 0 {
				lo := uint64(1 + g.N(win))
				m[string(raw)] = []iv{{lo, lo + g.U64()>>uint(2+g.N(60))}}
			}
		}
		s := m.String()
		if g.P(15) {
			s = strings.ReplaceAll(s, ",", ",\n") // as SHOW MASTER STATUS prints it
		}
		p.Sets = append(p.Sets, s)
	}
	nt := g.One(1, 2, 2, 3, 4)
	nops := 12
	if big {
		nops = 30
	}
	for ; nt > 0; nt-- {
		var ops []GtidOp
		for k := g.Range(3, nops); k > 0; k-- {
			o := GtidOp{A: g.N(64), B: g.N(64), S: g.N(nsid), N: fix(seq()), P: g.P(30)}
			if p.Maria {
				o.D = doms[g.N(len(doms))]
				o.S = int(uint32(g.U64()) >> uint(g.N(32)))
			}
			if prop == "C18" {
				o.K = g.Str("add", "add", "add", "has", "sup", "sup", "eq", "eq", "str")
			} else {
				o.K = g.Str("add", "add", "txt", "txt", "blk", "blk", "gtid", "gtid", "ev", "prev", "has", "sup", "eq", "str", "dup")
			}
			ops = append(ops, o)
		}
		p.Threads = append(p.Threads, ops)
	}
	return p
}
