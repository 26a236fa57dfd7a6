package main

import (
	"fmt"
	"math"
	"strings"

	"verif/model"
	"verif/simrt"
)

// bias of a workload.
type bias struct {
	items    int // upper bound of the history
	types    int // 0 all types, 1 strings mostly, 2 cheap ones mostly
	wide     int // percent of wide tables
	tables   int
	alter    int // percent: tables with several versions
	restart  int // percent of items
	rotate   int
	auto     int
	sql      int
	ign      int
	roll     int
	faulty   int // attempts before the last: at most
	partial  int
	nulls    int
	rows     int
	cells    bool // large values allowed
	resume   int
	oddSQL   int
	bigstart int
}

func biasOf(prop string, g *model.Rng, deep bool) bias {
	b := bias{items: 7, tables: 3, alter: 20, restart: 3, rotate: 8, auto: 6, sql: 14, ign: 10, roll: 12, partial: 25, nulls: 20, rows: 3, oddSQL: 12, bigstart: 8}
	switch prop {
	case "C01":
		b.items, b.wide = 9, 4
		b.cells = true
	case "C02":
		b.items, b.types, b.auto, b.sql, b.ign, b.roll, b.rotate, b.rows = 16, 2, 15, 25, 20, 25, 8, 2
	case "C03":
		b.items, b.types, b.rotate, b.restart, b.resume, b.bigstart, b.rows = 10, 2, 20, 6, 4, 30, 2
	case "C04":
		b.items, b.types, b.faulty, b.rotate, b.rows = 7, 2, 4, 14, 2
	case "C05":
		b.items, b.types, b.faulty, b.rows = 5, 2, 2, 2
	case "C06":
		b.items, b.types, b.faulty, b.rows = 5, 2, 3, 2
	case "C07":
		b.items, b.types, b.faulty, b.rotate, b.bigstart, b.rows = 5, 2, 3, 20, 45, 1
	case "C08":
		b.items, b.cells, b.nulls, b.rows = 8, true, 10, 4
	case "C13":
		b.items, b.types, b.cells, b.partial, b.nulls, b.rows, b.wide = 6, 1, true, 45, 30, 4, 4
		b.sql, b.ign = 5, 3
	case "C15":
		b.items, b.wide, b.tables, b.alter, b.restart, b.partial = 10, 12, 5, 60, 12, 20
	case "C17":
		b.items, b.types, b.faulty, b.rows = 6, 2, 2, 2
	case "C20":
		b.items, b.oddSQL, b.sql = 6, 40, 25
		b.cells = true
	}
	if deep && g.P(30) {
		b.items *= 4
	}
	if g.P(4) {
		b.items *= 4
	}
	return b
}

var deliveryProps = map[string]bool{"C01": true, "C02": true, "C03": true, "C08": true, "C13": true, "C15": true, "C20": true}

func propSalt(p string) uint64 { return strHash(p) }

// genPlan draws the plan of run index.
func genPlan(prop string, seed, index uint64, deep, race bool) *Plan {
	g := model.NewRng(propSalt(prop), seed, index)
	p := &Plan{Prop: prop, Index: index}
	p.Sched = genSched(g)
	if prop == "C18" || prop == "C19" {
		p.Gtid = genGtid(g, prop, deep)
		return p
	}
	b := biasOf(prop, g, deep)
	if n := map[string]int{"C01": 1200, "C08": 1500, "C13": 700, "C20": 2500}[prop]; n > 0 && !race && g.N(n) == 0 {
		return genHuge(g, p)
	}
	scale := scaled[prop] > 0 && !race && g.N(scaled[prop]) == 0
	if scale {
		p.Hist = genScale(g, &b)
	} else {
		p.Hist = genHistory(g, &b)
	}
	p.NetSeed = g.U64() >> 1
	p.TZ = g.One(0, 0, 3600, -18000, 28800, 19800, 20700, -12600)
	p.Log = g.P(25)
	p.ServerID = uint32(g.One(0, 1, 1000, math.MaxInt32, math.MaxInt32+1, math.MaxUint32, g.N(1<<16), int(uint32(g.U64())), int(uint32(g.U64()))))
	l := p.Hist.Encode(simUTC)
	if wraps(l) { // offsets are 32 bits wide
		p.Hist.FirstStart = 0
		for i := range p.Hist.Items {
			if p.Hist.Items[i].To > 1<<30 {
				p.Hist.Items[i].To = 1 << 30
			}
		}
		l = p.Hist.Encode(simUTC)
	}
	if scale {
		n := 0
		for _, f := range l.Files {
			for _, ev := range f.Evs {
				n += len(ev.Raw)
			}
		}
		if n > 1<<20 {
			p.Log = false
		}
		if n > 4<<20 {
			plain(p.Hist)
			l = p.Hist.Encode(simUTC)
		}
	}
	if l.Conflict {
		panic("generator: a table lookup with two answers")
	}
	bs := l.Boundaries()
	switch {
	case g.P(45):
		p.Start = model.Position{File: l.Files[0].Name, Off: 4}
	case g.P(70):
		p.Start = bs[g.N(len(bs)*2/3+1)]
	default:
		p.Start = bs[g.N(len(bs))]
	}
	var ps []string
	rt := false
	if g.P(45) {
		ps = append(ps, "maxAllowedPacket="+g.Str("4194304", "67108864", "65536"))
	} else {
		p.MaxAP = g.Str("67108864", "4194304", "1073741824", "1048576")
	}
	if g.P(12) {
		ps = append(ps, "readTimeout=30s")
		rt = true
	}
	if g.P(8) {
		ps = append(ps, "writeTimeout=10s")
	}
	if g.P(6) {
		ps = append(ps, "autocommit=1")
	}
	if g.P(5) {
		ps = append(ps, "charset=utf8mb4")
	}
	p.Params = strings.Join(ps, "&")
	nf := 0
	if scale {
		p.Start = model.Position{File: l.Files[0].Name, Off: 4}
		if g.P(20) {
			p.Start = bs[g.N(len(bs))]
		}
		b.faulty = min(b.faulty, 1)
	}
	if b.faulty > 0 {
		nf = g.Range(1, b.faulty)
		if prop == "C07" {
			nf = g.N(b.faulty + 1)
		}
	} else if g.P(20) {
		nf = g.Range(1, 2)
	}
	for i := 0; i < nf; i++ {
		p.Attempts = append(p.Attempts, genFaulty(g, prop, len(l.Txs), rt))
	}
	f := genPacing(g, rt, prop)
	f.Linger = g.One(0, 0, 1000, 300000, 5000000)
	f.EndEOF = g.P(30)
	f.ErrCalls = g.One(1, 1, 2, 3)
	if g.P(10) {
		f.Ctx = "value"
	}
	p.Attempts = append(p.Attempts, f)
	if b.resume > 0 {
		n := g.Range(1, b.resume)
		for i := 0; i < n; i++ {
			p.Resume = append(p.Resume, g.N(1000))
		}
	} else if deliveryProps[prop] && g.P(5) {
		p.Resume = []int{g.N(1000)}
	}
	if prop == "C08" {
		p.Scribble = g.One(0, 0, 1, 2)
	} else if g.P(4) {
		p.Scribble = g.One(1, 2)
	}
	if prop == "C20" {
		p.JSON = g.One(1, 2)
		if p.Scribble != 0 {
			p.JSON = 1
		}
		for i := g.Range(1, 5); i > 0; i-- {
			p.Synth = append(p.Synth, g.U64()>>1)
		}
	}
	if prop == "C15" || prop == "C17" {
		p.Direct = []uint64{g.U64() >> 1}
	}
	if g.P(15) {
		p.Caller = 2
	}
	p.Same = len(p.Resume) > 0 && g.P(30)
	if n := map[string]int{"C04": 4, "C05": 3, "C06": 5, "C07": 20}[prop]; g.P(n) {
		for i := g.Range(1, 2); i > 0; i-- {
			o := Odd{At: model.Position{File: l.Files[g.N(len(l.Files))].Name, Off: int64(g.One(0, 1, 2, 3, 5, 19, math.MaxInt32, math.MaxInt32+1, math.MaxUint32, math.MaxUint32-1, int(uint32(g.U64()))))}, N: g.One(1, 1, 2)}
			switch g.N(6) {
			case 0:
				o.At.File = ""
			case 1:
				o.At.File = string(nameBytes(g, g.One(1, 3, 30, 255, 256, 511, 512)))
			case 2:
				o.At.File = strings.ToUpper(o.At.File)
			}
			if g.P(30) {
				o.At.Off = 4
			}
			if _, _, ok := l.Find(o.At.File, o.At.Off); !ok {
				p.Odd = append(p.Odd, o)
			}
		}
	}
	if scale {
		calm(g, p, len(l.Txs))
		return p
	}
	if n := map[string]int{"C01": 6, "C02": 4, "C04": 8, "C05": 12, "C06": 6, "C07": 6, "C08": 12, "C13": 4, "C15": 6, "C20": 8, "C03": 3, "C17": 4}[prop]; g.P(n) {
		// a second streamer follows the same master
		p.TwinStart = bs[g.N(len(bs))]
		if g.P(50) {
			p.TwinStart = p.Start
		}
		if b.faulty > 0 || g.P(20) {
			for i := g.N(3); i > 0; i-- {
				p.Twin = append(p.Twin, genFaulty(g, prop, len(l.Txs), rt))
			}
		}
		f := genPacing(g, rt, prop)
		f.Linger = g.One(0, 1000, 5000000)
		f.EndEOF = g.P(30)
		f.ErrCalls = 1
		p.Twin = append(p.Twin, f)
	}
	return p
}

// scaled: one run in how many has a log with a lot of something.
var scaled = map[string]int{"C01": 130, "C02": 100, "C03": 130, "C04": 150, "C05": 250, "C06": 250, "C07": 130, "C08": 150, "C13": 250, "C15": 100, "C17": 250, "C20": 300}

// calm keeps a run with a lot of packets short: it makes few packets of many, and
// moves what disturbs it to any of the transactions.
func calm(g *model.Rng, p *Plan, ntx int) {
	p.Direct = nil
	if len(p.Resume) > 1 {
		p.Resume = p.Resume[:1]
	}
	p.Budget = 120_000_000
	if p.Sched.GapMean > 0 && p.Sched.GapMean < 100 {
		p.Sched.GapMean = 400
	}
	for i := range p.Attempts {
		a := &p.Attempts[i]
		a.Gap, a.MSlow, a.HSlow = 0, 0, 0
		a.Batch = g.One(20, 200, 5000)
		if a.Win == 1 {
			a.Win = g.One(0, 5000, 1<<16)
		}
		if a.Frag > 0 {
			a.Frag = g.One(1000, 4000)
		}
		if ntx == 0 {
			continue
		}
		if a.HErr > 0 {
			a.HErr = 1 + g.N(ntx)
		}
		if a.HBlockAt > 0 {
			a.HBlockAt = 1 + g.N(ntx)
		}
		if a.Cancel != nil && a.Cancel.At == "handler" {
			a.Cancel.N = 1 + g.N(ntx)
		}
	}
}

// plain gives all but a few rows the plainest values.
func plain(h *model.History) {
	n := 0
	for i := range h.Items {
		for j := range h.Items[i].Stmts {
			evs := h.Items[i].Stmts[j].Evs
			for k := range evs {
				rows := append([]model.RowVals(nil), evs[k].Rows...)
				for r := range rows {
					if n++; n > 20 {
						rows[r].A = make([]int64, len(rows[r].A))
						rows[r].B = make([]int64, len(rows[r].B))
					}
				}
				evs[k].Rows = rows
			}
		}
	}
}

// genScale is a log with a lot of one thing: rows in an event, events in a transaction,
// transactions, tables, files, text.
func genScale(g *model.Rng, b *bias) *model.History {
	sb := *b
	sb.items, sb.tables, sb.alter, sb.wide, sb.types, sb.cells, sb.rows, sb.partial, sb.bigstart, sb.restart = 1, 1, 0, 0, 2, false, 1, 5, 0, 0
	kind := g.N(8)
	if kind == 3 {
		sb.alter = 40
	}
	h := genHistory(g, &sb)
	h.Items = nil
	w := &gen{g: g, b: &sb, h: h}
	w.v2 = g.P(60) && h.HdrSizes >= 35
	if h.HdrSizes >= 35 {
		w.gtid = g.One(0, 0, 1, 2)
	}
	w.next = uint64(g.One(1, 100, 250, 65500, 1<<24-200, 1<<32-100))
	if h.ID4 {
		w.next &= math.MaxUint32
	}
	nt := 1
	if kind == 3 {
		nt = g.One(17, 33, 64, 65, 128, 129, 255, 256, 257, g.Range(20, 400))
	}
	h.Tables = nil
	for i := 0; i < nt; i++ {
		t := genTable(g, &sb, i)
		for v := range t.Vers {
			if len(t.Vers[v]) > 3 && kind != 5 {
				t.Vers[v] = t.Vers[v][:1+g.N(3)]
			}
		}
		h.Tables = append(h.Tables, t)
		w.ver = append(w.ver, 0)
		w.ids = append(w.ids, w.newID())
	}
	tx := func() model.Item {
		it := model.Item{K: "tx", GTID: w.gtid, Begin: "BEGIN", End: "xid"}
		if g.P(20) {
			it.End = w.casing("COMMIT")
		}
		if g.P(6) {
			it.End, it.Roll = w.casing("ROLLBACK"), true
		}
		return it
	}
	one := func() model.Stmt { // one rows event
		s := w.rowsStmt(false)
		s.Maps, s.Evs = s.Maps[:1], s.Evs[:1]
		s.Evs[0].M = 0
		if len(s.Evs[0].Rows) > 3 {
			s.Evs[0].Rows = s.Evs[0].Rows[:3]
		}
		return s
	}
	small := func() {
		it := tx()
		it.Stmts = []model.Stmt{one()}
		h.Items = append(h.Items, it)
	}
	many := func() int {
		return g.One(100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, g.Range(50, 2500))
	}
	for i := g.N(3); i > 0; i-- {
		small()
	}
	switch kind {
	case 0, 1: // rows in an event
		n := many()
		if kind == 1 && g.P(25) {
			n = g.One(4095, 4096, 16383, 16384, 16385, 32767, 32768, 65535, 65536, 65537)
		}
		it := tx()
		s := one()
		e := &s.Evs[0]
		cs := h.Tables[0].Vers[0]
		if n > 4000 && len(cs) > 1 {
			cs = cs[:1]
			h.Tables[0].Vers = [][]model.Col{cs}
			h.Items = nil
			e.AbsA, e.AbsB = nil, nil
		}
		e.Rows = nil
		seeds := func() (v []int64) {
			for _, c := range cs {
				if c.N && g.P(10) {
					v = append(v, -1)
				} else {
					v = append(v, int64(g.U64()>>1))
				}
			}
			return
		}
		for i := 0; i < n; i++ {
			var rv model.RowVals
			if e.Op != 0 {
				rv.B = seeds()
			}
			if e.Op != 2 {
				rv.A = seeds()
			}
			e.Rows = append(e.Rows, rv)
		}
		it.Stmts = []model.Stmt{s}
		h.Items = append(h.Items, it)
	case 2: // statements in a transaction
		it := tx()
		for i := many(); i > 0; i-- {
			switch {
			case g.P(10):
				it.Stmts = append(it.Stmts, w.sql(g.P(30)))
			case g.P(5):
				e := w.ignored()
				it.Stmts = append(it.Stmts, model.Stmt{K: "ign", Type: e.Type, Body: e.Body})
			default:
				it.Stmts = append(it.Stmts, one())
			}
		}
		h.Items = append(h.Items, it)
	case 3: // tables
		for i := g.Range(nt, 2*nt); i > 0; i-- {
			w.maybeAlter()
			it := tx()
			for j := g.Range(1, 2); j > 0; j-- {
				it.Stmts = append(it.Stmts, one())
			}
			w.same = false
			h.Items = append(h.Items, it)
		}
		if g.P(40) { // all in one statement
			it := tx()
			s := one()
			s.Maps, s.Evs = nil, nil
			for t := 0; t < nt; t++ {
				s.Maps = append(s.Maps, model.MapRef{T: t, V: w.ver[t], ID: w.ids[t]})
			}
			for k := g.Range(1, nt); k > 0; k-- {
				m := g.N(nt)
				e := model.RowsEv{M: m, Op: 0, V2: w.v2}
				var rv model.RowVals
				for range h.Tables[m].Vers[w.ver[m]] {
					rv.A = append(rv.A, int64(g.U64()>>1))
				}
				e.Rows = []model.RowVals{rv}
				s.Evs = append(s.Evs, e)
			}
			it.Stmts = []model.Stmt{s}
			h.Items = append(h.Items, it)
		}
	case 4: // rows events of one statement
		it := tx()
		s := one()
		e := s.Evs[0]
		for i := many(); i > 0; i-- {
			s.Evs = append(s.Evs, e)
		}
		it.Stmts = []model.Stmt{s}
		h.Items = append(h.Items, it)
	case 5: // text
		for i := g.Range(1, 3); i > 0; i-- {
			s := w.sql(false)
			n := g.One(65535, 65536, 65537, 1<<17, 1<<20, g.Range(1000, 1<<18))
			s.SQL += " /* " + strings.Repeat("y", n) + " */"
			if g.P(50) {
				h.Items = append(h.Items, model.Item{K: "sql", GTID: w.gtid, Stmts: []model.Stmt{s}})
			} else {
				it := tx()
				it.Stmts = []model.Stmt{one(), s, one()}
				h.Items = append(h.Items, it)
			}
		}
	case 6: // files
		for i := g.Range(20, 150); i > 0; i-- {
			if g.P(60) {
				h.Items = append(h.Items, model.Item{K: "rotate"})
			} else {
				small()
			}
		}
	case 7: // transactions
		for i := many(); i > 0; i-- {
			switch {
			case g.P(10):
				h.Items = append(h.Items, model.Item{K: "sql", GTID: w.gtid, Stmts: []model.Stmt{w.sql(g.P(25))}})
			case g.P(2):
				h.Items = append(h.Items, model.Item{K: "rotate"})
			case g.P(3):
				h.Items = append(h.Items, w.ignored())
			default:
				small()
			}
		}
	}
	for i := g.N(3); i > 0; i-- {
		small()
	}
	if len(h.Items) == 0 {
		small()
	}
	return h
}

// genHuge is a short log with values of 16 MiB and more: events that the protocol
// splits into several packets.
func genHuge(g *model.Rng, p *Plan) *Plan {
	b := biasOf("C02", g, false)
	b.items, b.tables, b.alter, b.wide, b.types = 2, 1, 0, 0, 2
	h := genHistory(g, &b)
	w := &gen{g: g, b: &b, h: h}
	h.Items, h.FirstStart = nil, 0
	h.Tables = h.Tables[:1]
	cs := h.Tables[0].Vers[0]
	if len(cs) > 4 {
		cs = cs[:4]
	}
	at := g.N(len(cs))
	cs[at].K, cs[at].A, cs[at].B = g.Str("blob", "blob", "json"), g.One(3, 4), 0
	if p.Prop == "C13" {
		cs[at].K = "blob"
	}
	h.Tables[0].Vers = [][]model.Col{cs}
	w.v2 = g.P(60) && h.HdrSizes >= 35
	w.ver, w.ids = []int{0}, []uint64{uint64(g.Range(1, 1000))}
	n := g.Range(1, 3)
	big := g.N(n)
	for i := 0; i < n; i++ {
		it := model.Item{K: "tx", Begin: "BEGIN", End: "xid"}
		s := w.rowsStmt(false)
		s.Evs = s.Evs[:1]
		e := &s.Evs[0]
		e.Rows = e.Rows[:1]
		if i == big {
			seed := model.Huge + int64(g.N(1<<20))
			if e.Op != 0 {
				e.Rows[0].B[at] = seed
			} else {
				e.Rows[0].A[at] = seed
			}
			e.AbsB, e.AbsA = nil, nil
		}
		it.Stmts = []model.Stmt{s}
		h.Items = append(h.Items, it)
	}
	p.Hist = h
	p.NetSeed = g.U64() >> 1
	p.ServerID = 7
	p.Start = model.Position{File: h.FileName(0), Off: 4}
	p.MaxAP = "1073741824"
	p.Attempts = []Attempt{{Batch: g.One(1, 4, 1000), Win: g.One(0, 0, 1, 1<<20), EndEOF: g.P(50), ErrCalls: 1}}
	if p.Prop == "C08" {
		p.Scribble = g.One(0, 0, 1)
	}
	if p.Prop == "C20" {
		p.JSON = g.One(1, 2)
	}
	return p
}

func wraps(l *model.Log) bool {
	for _, f := range l.Files {
		for _, e := range f.Evs {
			if e.End < e.Start && !e.Virtual {
				return true
			}
		}
	}
	return false
}

func genSched(g *model.Rng) simrt.Sched {
	return simrt.Sched{
		Seed:     g.U64(),
		Strategy: uint32(g.One(0, 0, 1, 2, 2, 3)),
		GapMean:  uint32(g.One(0, 3, 10, 30, 100, 400, 2000)),
		Horizon:  uint32(g.One(300, 2000, 10000)),
	}
}

func genPacing(g *model.Rng, rt bool, prop string) Attempt {
	var a Attempt
	switch g.N(6) {
	case 0, 1: // the master is far ahead
		a.Batch = g.One(1, 4, 1000)
	case 2: // lock-step
		a.Win = 1
	case 3:
		a.Win = g.One(100, 1000, 5000)
		a.Batch = g.One(1, 3)
	case 4: // paced
		a.Gap = g.One(50, 2000, 100000, 1500000)
		a.Delay = g.One(0, 100, 20000)
	case 5:
		a.Gap = g.One(0, 0, 100, 5000)
		a.Delay = g.One(0, 500, 80000)
		a.Batch = g.One(1, 2, 8)
	}
	switch g.N(5) {
	case 0:
		a.Frag = g.One(7, 30, 200)
	case 1:
		a.Frag = g.One(1000, 4000)
	case 2:
		if g.P(15) {
			a.Frag = 1
		}
	}
	switch g.N(8) {
	case 0:
		a.HSlow = g.One(10, 1000, 50000)
	case 1:
		a.HBlockAt = g.Range(1, 4)
		a.HBlock = g.One(1000, 100000, 5000000)
		if g.P(15) {
			a.HBlock = g.One(40, 130, 700, 4000) * 1000000
		}
	}
	if g.P(4) {
		a.Quiet, a.QuietAt = g.One(40, 100, 400, 1000, 4000, 30000), g.N(1<<20)
	}
	if g.P(8) {
		a.MSlow = g.One(10, 5000, 300000)
	}
	if g.P(15) {
		a.DialDelay = g.One(10, 5000, 200000)
	}
	if g.P(50) {
		a.EKind = g.N(len(userErrors))
	}
	_ = rt
	return a
}

// genFaulty draws an attempt that something ends before its time.
func genFaulty(g *model.Rng, prop string, ntx int, rt bool) Attempt {
	a := genPacing(g, rt, prop)
	a.ErrCalls = g.One(1, 1, 2, 3, -1)
	a.LateCancel = g.P(20)
	n := ntx
	if n > 12 {
		n = 12
	}
	at := g.N(1 << 20)
	if g.P(25) {
		at = g.N(4)
	}
	cancel := func() *Cancel {
		c := &Cancel{D: g.One(0, 0, 0, 1, 50, 3000, 200000)}
		switch g.N(10) {
		case 0:
			c.At = "pre"
		case 1, 2:
			c.At = "time"
			c.D = g.One(0, 1, 20, 500, 5000, 60000, 1000000, g.N(300000))
		case 3, 4, 5:
			c.At, c.N = "packet", at
		case 6, 7:
			c.At, c.N = "handler", g.Range(1, n+1)
		case 8:
			c.At, c.N = "mapper", g.Range(1, 3)
		case 9:
			c.At = g.Str("dial", "greet", "auth", "maxap", "param", "set", "dump")
		}
		return c
	}
	code := func() int { return g.One(1236, 1236, 1045, 1290, 1792, 0, 65535, 2013, g.N(65536)) }
	msg := func() string {
		switch g.N(6) {
		case 0:
			return ""
		case 1:
			return "Could not find first log file name in binary log index file"
		case 2:
			return string(oddBytes(g))
		case 3:
			return "log event entry exceeded max_allowed_packet; Increase max_allowed_packet on master %s %d"
		case 4:
			return strings.Repeat("x", g.N(600))
		}
		return fmt.Sprintf("boom %d 'quoted'", g.N(1000))
	}
	tail := func() bool { return g.P(60) }
	transport := func() Fault {
		f := Fault{At: at}
		switch g.N(9) {
		case 0, 1:
			f.K = "close"
			if g.P(50) {
				f.N = 1 + g.N(1<<20)
			}
		case 2, 3:
			f.K, f.Disc = "reset", g.P(40)
			if g.P(50) {
				f.N = 1 + g.N(1<<20)
			}
		case 4:
			f.K, f.N, f.Cont = "seq", g.N(1<<10), tail()
		case 5:
			f.K, f.Cont = "zero", tail()
		case 6:
			f.K, f.Code, f.Msg, f.State, f.Cont = "err", code(), msg(), g.P(80), g.P(20)
			if strings.HasPrefix(f.Msg, "#") {
				f.State = true // a message may begin like a state marker only after one
			}
			if !f.Cont {
				f.Mode = g.Str("", "close")
			}
		case 7:
			f.K, f.N, f.Cont = "eof", g.N(8), g.P(20)
			if !f.Cont {
				f.Mode = g.Str("", "close")
			}
		case 8:
			f.K = "stall"
			if !rt && g.P(70) {
				a.Cancel = &Cancel{At: "time", D: g.One(1000, 100000, 3000000)}
			}
		}
		return f
	}
	bad := func() Fault {
		f := Fault{K: "bad", At: at, N: g.N(1 << 16), Cont: tail()}
		switch g.N(5) {
		case 0, 1:
			f.Mode = "trunc"
			if g.P(40) {
				f.N = g.N(24)
			}
		case 2:
			f.Mode, f.Body = "ext", g.Bytes(g.N(40))
		case 3:
			f.Mode, f.N = "size", g.One(-1, 1, -4, 4, -19, 256, -256, 1<<16, 1<<24, math.MinInt32, g.N(1<<30))
		default:
			f.Mode, f.Body = "rand", g.Bytes(g.N(65))
			if g.P(30) {
				f.Body = g.Bytes(g.N(500))
			}
		}
		return f
	}
	event := func() Fault {
		f := Fault{At: at, Cont: tail()}
		if g.P(40) {
			f.K, f.N = "dec", g.N(1<<16)
			f.Mode = g.Str("tmtype", "tmmeta", "tmcount", "count", "extra", "nodata", "json", "json", "short")
			return f
		}
		switch g.N(8) {
		case 0:
			f.K, f.Type, f.Body = "event", 29, append([]byte{9}, "insert in"...)
		case 1:
			f.K, f.Type, f.Body = "event", 5, []byte{2, 5, 0, 0, 0, 0, 0, 0, 0}
		case 2:
			f.K, f.Type, f.Body = "event", 13, g.Bytes(16)
		case 3:
			f.K, f.Type = "unk", byte(g.N(3))
		case 4:
			f.K, f.N = "fdever", g.N(4)
			if g.P(30) {
				f.Mode, f.N = g.Str("hdr", "alg"), g.N(252)
			}
		default:
			f.K, f.N = "cut", g.N(1<<16)
			f.Mode = g.Str("rows", "rows", "tm", "query", "rotate", "fde")
			if f.Mode == "rotate" && g.P(40) {
				f.N = 7
			}
		}
		return f
	}
	stage := func() Fault {
		f := Fault{Stage: g.Str("greet", "auth", "maxap", "param", "set", "dump"), Code: code(), Msg: msg(), State: true}
		switch g.N(8) {
		case 0, 1:
			f.K = "serr"
			f.Cont = g.P(30)
			if f.Stage == "dump" {
				f.K = "sclose"
			}
		case 2:
			f.K = "sclose"
		case 3:
			f.K, f.Disc = "sreset", g.P(50)
		case 4:
			f.K = "sstall"
			if g.P(70) {
				a.Cancel = &Cancel{At: f.Stage, D: g.One(0, 1, 1000, 500000)}
			}
		case 5:
			f = Fault{K: "dial", Mode: g.Str("", "temp", "hang")}
			if f.Mode == "hang" {
				a.Cancel = &Cancel{At: "dial", D: g.One(1, 1000, 1000000)}
			}
		case 6:
			f = Fault{K: "wfail"}
		case 7:
			f.K, f.N = "sslow", g.One(1000, 100000, 4000000)
			a.Cancel = &Cancel{At: f.Stage, D: g.One(0, 1, 900, 99999)}
		}
		return f
	}
	k := g.N(100)
	switch prop {
	case "C17":
		if g.P(75) {
			k = 70 // bad
		}
	case "C06":
		if g.P(40) {
			k = g.N(35)
		}
	}
	switch {
	case k < 35:
		a.Faults = append(a.Faults, transport())
	case k < 58:
		a.Cancel = cancel()
	case k < 66:
		a.HErr, a.HMsg = g.Range(1, n+1), "x"
	case k < 70:
		if g.P(50) {
			a.MErr = g.Range(1, 3)
		} else {
			a.MMis, a.MDelta = g.Range(1, 3), g.One(-1, 1, 1, 2, -2)
		}
	case k < 80:
		a.Faults = append(a.Faults, bad())
	case k < 91:
		a.Faults = append(a.Faults, event())
	default:
		a.Faults = append(a.Faults, stage())
	}
	if g.P(15) { // two things at once
		switch g.N(4) {
		case 0:
			a.Cancel = &Cancel{At: "fault", D: g.One(0, 0, 1, 30, 1000)}
		case 1:
			f := transport()
			if f.K == "stall" && len(a.Faults) > 0 && a.Faults[0].latent() {
				f.K = "close" // what is wrong shows in a later packet
			}
			a.Faults = append(a.Faults, f)
		case 2:
			a.HErr = g.Range(1, n+1)
		case 3:
			a.Cancel = cancel()
		}
	}
	if g.P(30) {
		a.HBlockAt = g.Range(1, n+1)
		a.HBlock = g.One(100, 10000, 1000000, 20000000)
	}
	if a.Quiet > 0 && a.Cancel != nil && a.Cancel.At == "time" && g.P(60) {
		a.Cancel.D = g.N(a.Quiet)*1000000 + g.N(1000000)
	}
	if a.Cancel == nil {
		switch {
		case g.P(7):
			a.Ctx = "background"
			for i := range a.Faults {
				if a.Faults[i].K == "dial" && a.Faults[i].Mode == "hang" {
					a.Ctx = ""
				}
			}
		case g.P(7):
			a.Ctx, a.Deadline = "deadline", g.One(1, 1000, 200000, 5000000)
		}
	}
	return a
}

var kindsAll = []string{"tiny", "short", "int24", "long", "longlong", "float", "double", "year", "bit", "enum", "set", "decimal", "date", "newdate", "time", "datetime", "timestamp", "time2", "datetime2", "timestamp2", "char", "varchar", "varstring", "blob", "geometry", "json"}

func genCol(g *model.Rng, types, i int, cells bool) model.Col {
	c := model.Col{Name: fmt.Sprintf("c%d", i), N: g.P(60), U: g.P(35)}
	switch {
	case types == 1 && g.P(85):
		c.K = g.Str("char", "varchar", "varchar", "varstring", "blob", "blob", "geometry")
	case types == 2 && g.P(75):
		c.K = g.Str("tiny", "short", "long", "longlong", "varchar", "blob", "datetime2", "char")
	default:
		c.K = kindsAll[g.N(len(kindsAll))]
	}
	switch c.K {
	case "bit":
		c.A = g.Range(1, 64)
	case "enum":
		c.A = g.One(1, 3, 255, 256, g.Range(1, 65535))
	case "set":
		c.A = g.Range(1, 64)
	case "decimal":
		c.A = g.Range(1, 65)
		m := c.A
		if m > 30 {
			m = 30
		}
		c.B = g.One(0, g.N(m+1), g.N(m+1))
	case "time2", "datetime2", "timestamp2":
		c.A = g.N(7)
	case "char":
		c.A = g.One(0, 1, 255, 256, 1023, g.N(256), g.N(1024), g.N(40))
	case "varchar", "varstring":
		c.A = g.One(0, 1, 255, 256, 65535, g.N(256), g.N(65536), g.N(300))
	case "blob":
		c.A = g.Range(1, 4)
		if g.P(6) {
			c.K = g.Str("tinyblob", "mediumblob", "longblob")
		}
	case "geometry":
		c.A = 4
		if g.P(15) {
			c.A = g.Range(1, 3)
		}
	}
	if g.P(6) {
		c.Name = string(nameBytes(g, 1+g.N(20))) + fmt.Sprint(i)
	}
	_ = cells
	return c
}

func nameBytes(g *model.Rng, n int) []byte {
	var b []byte
	for len(b) < n {
		switch g.N(10) {
		case 0:
			b = append(b, "é"...)
		case 1:
			b = append(b, "表"...)
		case 2:
			b = append(b, " -.`'\"$"[g.N(7)])
		default:
			b = append(b, byte('a'+g.N(26)))
		}
	}
	return b[:n]
}

func genTable(g *model.Rng, b *bias, i int) model.Table {
	t := model.Table{DB: g.Str("db", "test", "shop", "d"), Name: fmt.Sprintf("t%d", i)}
	if g.P(15) {
		t.DB = string(nameBytes(g, g.One(1, 30, 64, 192, 255)))
	}
	if g.P(15) {
		no := fmt.Sprint(i)
		t.Name = string(nameBytes(g, min(g.One(5, 60, 64, 190, 253), 255-len(no)))) + no
	}
	n := g.Range(1, 7)
	if g.P(15) {
		n = g.Range(8, 20)
	}
	types := b.types
	if g.P(b.wide) {
		n = g.One(63, 64, 65, 250, 251, 252, 255, 256, 257, 600, g.Range(200, 600))
		if g.P(4) { // InnoDB allows 1017, NDB and MyISAM more
			n = g.One(1017, 2048, 4095, 4096, g.Range(600, 4096))
		}
		if g.P(60) || n > 600 {
			types = 2
		}
	}
	var cs []model.Col
	for c := 0; c < n; c++ {
		cs = append(cs, genCol(g, types, c, b.cells))
	}
	t.Vers = append(t.Vers, cs)
	for g.P(b.alter) && len(t.Vers) < 4 {
		last := t.Vers[len(t.Vers)-1]
		nv := append([]model.Col(nil), last...)
		switch g.N(4) {
		case 0: // add
			at := g.N(len(nv) + 1)
			c := genCol(g, b.types, len(nv)+100*len(t.Vers), b.cells)
			nv = append(nv[:at], append([]model.Col{c}, nv[at:]...)...)
		case 1: // drop
			if len(nv) > 1 {
				at := g.N(len(nv))
				nv = append(nv[:at], nv[at+1:]...)
			}
		case 2: // change a type; name and signedness stay
			at := g.N(len(nv))
			c := genCol(g, b.types, 0, b.cells)
			c.Name, c.U = nv[at].Name, nv[at].U
			nv[at] = c
		case 3: // rename, reorder, change signedness
			at, to := g.N(len(nv)), g.N(len(nv))
			nv[at], nv[to] = nv[to], nv[at]
			nv[at].Name += "x"
			nv[to].U = !nv[to].U
			if nv[at].Name == nv[to].Name {
				nv[at].Name += "y"
			}
		}
		t.Vers = append(t.Vers, nv)
	}
	return t
}

type gen struct {
	g    *model.Rng
	b    *bias
	h    *model.History
	ver  []int
	ids  []uint64
	next uint64
	v2   bool
	gtid int
	same bool // no alteration until a transaction has been completed
}

func (w *gen) newID() uint64 {
	w.next++
	if w.h.ID4 {
		w.next &= math.MaxUint32
	}
	switch {
	case w.next == 0xffffff:
		w.next++
	case w.next&0xffffffff == 0xf7f7f7f7:
		w.next++
	case w.next == 1<<48 || w.next == 0:
		w.next = 1
	}
	return w.next
}

func genHistory(g *model.Rng, b *bias) *model.History {
	h := &model.History{
		ServerID: uint32(g.One(1, 2, math.MaxInt32+5, g.N(1<<30))),
		Version:  g.Str("5.7.30-log", "5.6.45-log", "8.0.21", "5.5.5-10.1.41-MariaDB", "5.7.33-0ubuntu0.16.04.1-log"),
		HdrSizes: g.One(35, 38, 38, 39, 40, 41),
		ID4:      g.P(12),
		FileBase: g.Str("mysql-bin", "binlog", "mysql-bin", "b", "host.local-bin"),
		FileNo:   g.One(1, 9, 99, 999998, g.Range(1, 999990)),
		TS0:      uint32(g.One(1, 1600000000, math.MaxInt32-3, math.MaxUint32-5000, 0)),
	}
	if g.P(50) {
		h.Clock = uint32(1 + g.N(1<<30))
	}
	if g.P(60) {
		h.Chain = uint32(1 + g.N(1<<30))
	}
	if g.P(8) {
		h.FileBase = string(nameBytes(g, g.One(20, 100, 240)))
	}
	for i := g.Range(1, 3); i > 0; i-- {
		h.CRC = append(h.CRC, g.P(65))
	}
	h.Undef = g.P(8)
	h.PrevGTIDs = g.P(50)
	if g.P(b.bigstart) {
		h.FirstStart = uint32(g.One(0xfff00000, 0x7ffffff0, 0x7fffff00, 0xff000000, 0xfff80000, 1<<24, 70000))
	}
	w := &gen{g: g, b: b, h: h}
	w.v2 = g.P(60)
	w.gtid = g.One(0, 0, 1, 2)
	if !w.v2 && w.gtid == 0 && g.P(15) {
		h.HdrSizes = 27
		h.PrevGTIDs = false
	}
	w.next = uint64(g.One(1, 70, 200, 107, 65535, 1<<24-20, 1<<31-2, 1<<32-3, 1<<40, 1<<48-3))
	if h.ID4 {
		w.next &= math.MaxUint32
	}
	for i := g.Range(1, b.tables); i > 0; i-- {
		h.Tables = append(h.Tables, genTable(g, b, len(h.Tables)))
		w.ver = append(w.ver, 0)
		w.ids = append(w.ids, w.newID())
	}
	n := g.Range(1, b.items)
	size := 0
	for i := 0; i < n && size < 60; i++ {
		size++
		w.item()
	}
	return h
}

func (w *gen) item() {
	g, b := w.g, w.b
	k := g.N(100)
	var it model.Item
	if g.P(4) {
		it.Gap = uint32(g.One(1, 100, 100000))
	}
	lim := b.restart
	switch {
	case k < lim && g.P(35): // the master dies in the middle of a transaction
		it.K = "crash"
		it.GTID = w.gtid
		w.maybeAlter()
		it.Begin = w.casing("BEGIN")
		it.DB, it.Vars = g.Str("", "db", string(nameBytes(g, 1+g.N(30)))), vars(g)
		w.body(&it)
		if n := len(it.Stmts); n > 0 && it.Stmts[n-1].K == "rows" && g.P(40) {
			evs := &it.Stmts[n-1].Evs
			*evs = (*evs)[:g.N(len(*evs))]
		}
		w.restart()
		w.same = true
	case k < lim:
		it.K = "restart"
		w.restart()
	case k < lim+b.rotate:
		it.K = "rotate"
		if g.P(30) { // a flush may follow a flush
			w.h.Items = append(w.h.Items, it)
		}
		if g.P(8) { // into the middle of the next file
			it.To = uint32(g.One(200, 1000, 70000, 1<<24, 1<<31-1, 1<<31, 0xfff00000, g.Range(5, 5000), 5+int(uint32(g.U64())>>2)))
		}
	case k < lim+b.rotate+b.auto:
		it.K = "auto"
		w.maybeAlter()
		s := w.rowsStmt(true)
		it.Stmts = []model.Stmt{s}
		it.GTID = w.gtid
		w.same = false
	case k < lim+b.rotate+b.auto+b.sql:
		it.K = "sql"
		it.GTID = w.gtid
		it.Stmts = []model.Stmt{w.sql(g.P(25))}
		if it.Stmts[0].Cat != "" {
			w.same = false
		}
	case k < lim+b.rotate+b.auto+b.sql+b.ign:
		it = w.ignored()
	default:
		it.K = "tx"
		it.GTID = w.gtid
		w.maybeAlter()
		it.Begin = w.casing("BEGIN")
		if g.P(40) {
			it.DB, it.Vars = g.Str("", "db", string(nameBytes(g, 1+g.N(30)))), vars(g)
		}
		if g.P(5) {
			it.Begin += g.Str(" ", " /* x */", "\n")
		}
		switch {
		case g.P(b.roll):
			it.End, it.Roll = w.casing("ROLLBACK"), true
		case g.P(30):
			it.End = w.casing("COMMIT")
		default:
			it.End = "xid"
		}
		if it.End != "xid" && g.P(6) {
			it.End += g.Str(" ", " /* y */", "\n", "\t")
		}
		w.body(&it)
		w.same = false
	}
	w.h.Items = append(w.h.Items, it)
}

// body draws the statements of a transaction.
func (w *gen) body(it *model.Item) {
	g := w.g
	for n := g.N(4); n >= 0; n-- {
		switch {
		case g.P(12):
			it.Stmts = append(it.Stmts, w.sql(g.P(40)))
		case g.P(8):
			e := w.ignored()
			it.Stmts = append(it.Stmts, model.Stmt{K: "ign", Type: e.Type, Body: e.Body})
		case g.P(4):
		default:
			it.Stmts = append(it.Stmts, w.rowsStmt(false))
		}
	}
	if g.P(7) {
		w.savepoints(it)
	}
}

// savepoints scatters savepoints and rollbacks to them over a transaction.
func (w *gen) savepoints(it *model.Item) {
	g := w.g
	names := []string{"a", "b", "save`d", "to", "savepoint"}
	quote := func(n string) string {
		q := "`" + strings.ReplaceAll(w.casing(n), "`", "``") + "`"
		if strings.ContainsRune(n, '`') || n == "savepoint" || n == "to" || g.P(60) {
			return q
		}
		return w.casing(n)
	}
	var out []model.Stmt
	var set []string
	for _, s := range it.Stmts {
		if g.P(50) {
			n := names[g.N(len(names))]
			set = append(set, n)
			out = append(out, model.Stmt{K: "query", Save: n, SQL: w.casing("SAVEPOINT") + g.Str(" ", " ", "  ", "\n") + quote(n)})
		}
		out = append(out, s)
		if len(set) > 0 && g.P(40) {
			// savepoints set after the one rolled back to are gone
			i := g.N(len(set))
			n := set[i]
			for k := i + 1; k < len(set); k++ {
				if set[k] == n {
					i = k
				}
			}
			set = set[:i+1]
			kw := w.casing("ROLLBACK") + " "
			if g.P(20) {
				kw += w.casing("WORK") + " "
			}
			kw += w.casing("TO") + " "
			if g.P(40) {
				kw += w.casing("SAVEPOINT") + " "
			}
			out = append(out, model.Stmt{K: "query", Back: n, SQL: kw + quote(n)})
		}
	}
	it.Stmts = out
}

func (w *gen) casing(s string) string {
	switch w.g.N(4) {
	case 0:
		return strings.ToLower(s)
	case 1:
		b := []byte(s)
		for i := range b {
			if w.g.P(50) && b[i]|0x20 >= 'a' && b[i]|0x20 <= 'z' {
				b[i] ^= 0x20
			}
		}
		return string(b)
	}
	return s
}

// restart of the master: table ids start again, assigned in another order.
func (w *gen) restart() {
	w.next = uint64(w.g.One(1, 70, 107))
	perm := w.g.N(len(w.ids))
	for i := range w.ids {
		w.ids[(i+perm)%len(w.ids)] = w.newID()
	}
}

func (w *gen) maybeAlter() {
	g := w.g
	if !g.P(25) || w.same {
		return
	}
	t := g.N(len(w.ver))
	vs := w.h.Tables[t].Vers
	if w.ver[t]+1 >= len(vs) {
		return
	}
	old := vs[w.ver[t]]
	w.ver[t]++
	nv := vs[w.ver[t]]
	same := len(old) == len(nv)
	for i := range nv {
		same = same && old[i].Name == nv[i].Name && old[i].U == nv[i].U
	}
	if same && g.P(50) {
		return // announced again under the same id
	}
	w.ids[t] = w.newID()
}

func (w *gen) ignored() model.Item {
	g := w.g
	it := model.Item{K: "ign"}
	switch g.N(5) {
	case 0:
		it.Type, it.Virtual, it.Body = model.EvHeartbeat, true, []byte(w.h.FileBase+".000001")
	case 1:
		it.Type, it.Body = model.EvAnonGTID, append([]byte{1}, make([]byte, 24)...)
	case 2:
		it.Type = model.EvGTID
		it.Body = append([]byte{1}, g.Bytes(16)...)
		it.Body = append(it.Body, byte(1+g.N(200)), 0, 0, 0, 0, 0, 0, 0)
	case 3:
		it.Type, it.Body = model.EvPrevGTIDs, make([]byte, 8)
	default:
		it.Type = byte(g.One(14, 17, 18, 28, 36, 37, 41, 42, 100, 160, 161, 163, 255))
		it.Body = g.Bytes(g.N(60))
	}
	if w.h.HdrSizes < 35 && it.Type > 27 {
		it.Type, it.Virtual, it.Body = 14, false, g.Bytes(5)
	}
	return it
}

var sqlVars = [][]byte{
	nil,
	{0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 6, 3, 's', 't', 'd'},
	{4, 33, 0, 33, 0, 8, 0},
	{0, 0, 0, 0, 0, 4, 45, 0, 45, 0, 224, 0, 12, 1, 'd', 'b', 0},
	{2, 3, 's', 't', 'd', 0, 3, 1, 0, 1, 0, 5, 3, 'U', 'T', 'C', 4, 33, 0, 33, 0, 8, 0},
}

// vars are the status variables of a query event, in the order MySQL writes them.
func vars(g *model.Rng) []byte {
	if g.P(50) {
		return sqlVars[g.N(len(sqlVars))]
	}
	var b []byte
	fix := func(code byte, n, p int) {
		if g.P(p) {
			b = append(append(b, code), g.Bytes(n)...)
		}
	}
	str := func(code byte, p int, nul bool) {
		if g.P(p) {
			t := g.Bytes(g.One(0, 1, 3, 3, 6, g.N(40), 255))
			b = append(append(b, code, byte(len(t))), t...)
			if nul {
				b = append(b, 0)
			}
		}
	}
	fix(0, 4, 70)
	fix(1, 8, 70)
	if g.P(20) {
		str(2, 80, true)
	} else {
		str(6, 70, false)
	}
	fix(3, 4, 30)
	fix(4, 6, 70)
	str(5, 30, false)
	fix(7, 2, 20)
	fix(8, 2, 20)
	fix(9, 8, 20)
	fix(10, 4, 20)
	if g.P(20) {
		str(11, 100, false)
		t := g.Bytes(g.N(20))
		b = append(append(b, byte(len(t))), t...)
	}
	fix(13, 3, 20)
	fix(16, 1, 20)
	fix(128, 3, 10)
	return b
}

func (w *gen) sql(ignored bool) model.Stmt {
	g := w.g
	s := model.Stmt{K: "query", DB: g.Str("db", "test", "", string(nameBytes(g, 1+g.N(30))))}
	s.Vars = vars(g)
	if ignored {
		s.SQL = g.Str("SAVEPOINT `sp1`", "savepoint x", "GRANT ALL ON *.* TO 'a'@'%'", "FLUSH PRIVILEGES", "ANALYZE TABLE t", "OPTIMIZE TABLE `db`.`t1`", "RELEASE SAVEPOINT a", "beginning", "committed x", "CREATED", "xa start 'a'", "# Dum", "sets x=1", "inserted", "begin_backup 1",
			"REVOKE ALL ON *.* FROM 'a'@'%'", "CALL `p`(1)", "USE db", "LOCK TABLES t WRITE", "UNLOCK TABLES", "FLUSH TABLES", "REPAIR TABLE t", "CHECK TABLE t", "INSTALL PLUGIN x SONAME 'y.so'",
			"DO 1", "SHOW WARNINGS", "rollbacks", "ROLLBACK_x", "commits", "COMMIT_2", "Begins", "begin2", "altered", "dropped x", "truncated", "renamed", "update_t", "deleted", "/* COMMIT */ FLUSH LOGS", "-- rollback\nFLUSH LOGS", "/*!50003 FLUSH LOGS */", ";COMMIT", "(BEGIN)", "")
		if g.P(w.b.oddSQL) {
			s.SQL = g.Str("/* BEGIN */ ", "/* c */", "  ", "\n", "-- COMMIT\n", "# ROLLBACK\n") + s.SQL
		}
		return s
	}
	type sk struct{ cat, text string }
	ks := []sk{
		{"create", "CREATE TABLE `t9` (a int)"}, {"create", "CREATE DATABASE x"}, {"create", "CREATE USER 'u'@'%' IDENTIFIED BY 'p'"},
		{"alter", "ALTER TABLE t1 ADD COLUMN b varchar(20) DEFAULT 'it''s'"}, {"drop", "DROP TABLE IF EXISTS `t9` /* generated by server */"},
		{"rename", "RENAME TABLE a TO b"}, {"truncate", "TRUNCATE TABLE t1"}, {"truncate", "TRUNCATE t1"},
		{"alter", "/*!40000 ALTER TABLE `t1` DISABLE KEYS */"}, {"create", "/*!50003 CREATE TRIGGER x BEFORE INSERT ON t FOR EACH ROW SET @a=1 */"}, {"drop", "/*!50003 DROP PROCEDURE IF EXISTS `p` */"},
		{"set", "SET PASSWORD FOR 'root'@'localhost'='*94BDCEBE19083CE2A1F959FD02F964C7AF4CFC29'"},
		{"insert", "INSERT INTO t1 VALUES (1,'a\\'b')"}, {"update", "UPDATE t1 SET a=2 WHERE b=\"x\""}, {"delete", "DELETE FROM t1 WHERE a<5"},
	}
	k := ks[g.N(len(ks))]
	s.Cat = k.cat
	lead := ""
	if strings.HasPrefix(k.text, "/*!") { // a comment that the server executes
		i := strings.IndexByte(k.text, ' ') + 1
		lead, k.text = k.text[:i], k.text[i:]
		if g.P(30) {
			lead = g.Str("/*!", "/*! ", "/*!50003", "/*!80000\n")
		}
	}
	i := strings.IndexByte(k.text, ' ')
	kw, rest := w.casing(k.text[:i]), k.text[i:]
	if g.P(w.b.oddSQL) {
		switch g.N(4) {
		case 0: // another separator
			rest = g.Str("\n", "\t", "\r\n", "\n  ", "  ") + rest[1:]
		case 1: // a comment first
			kw = g.Str("/* ApplicationName=x */ ", "/* a\nb */\n", "/**/", "  ", "\n", "\t ", "-- hint\n", "# c\n") + kw
		case 2:
			rest = g.Str("/* c */ ", "/*c*/") + rest[1:]
		case 3:
			rest += string(oddBytes(g)) + string(g.Bytes(g.N(5)))
		}
	}
	if g.P(5) {
		rest += " /* " + strings.Repeat("long ", g.N(1500)) + "*/"
	}
	s.SQL = lead + kw + rest
	return s
}

func (w *gen) rowsStmt(auto bool) model.Stmt {
	g := w.g
	s := model.Stmt{K: "rows"}
	nm := g.One(1, 1, 1, 2, 3)
	used := map[int]bool{}
	for i := 0; i < nm; i++ {
		t := g.N(len(w.ids))
		if used[t] {
			continue
		}
		used[t] = true
		m := model.MapRef{T: t, V: w.ver[t], ID: w.ids[t]}
		if g.P(25) {
			m.Tail = g.Bytes(g.Range(1, 40))
		}
		s.Maps = append(s.Maps, m)
	}
	ne := len(s.Maps)
	if g.P(30) {
		ne += g.N(3)
	}
	for i := 0; i < ne; i++ {
		e := model.RowsEv{M: i % len(s.Maps), Op: g.N(3), V2: w.v2}
		if g.P(25) && i > 0 {
			e.M = g.N(len(s.Maps))
		}
		if g.P(5) {
			e.V2 = !e.V2 && w.h.HdrSizes >= 35
		}
		if e.V2 && g.P(10) {
			e.Extra = g.Bytes(1 + g.N(20))
		}
		cols := w.h.Tables[s.Maps[e.M].T].Vers[s.Maps[e.M].V]
		abs := func() (l []int) {
			if !g.P(w.b.partial) {
				return nil
			}
			pct := g.One(10, 30, 60, 90)
			for c := range cols {
				if g.P(pct) && len(l) < len(cols)-1 {
					l = append(l, c)
				}
			}
			return
		}
		if e.Op != 0 {
			e.AbsB = abs()
		}
		if e.Op != 2 {
			e.AbsA = abs()
		}
		seeds := func() (v []int64) {
			for c := range cols {
				switch {
				case cols[c].N && g.P(w.b.nulls):
					v = append(v, -1)
				case g.P(5) || (len(cols) > 100 && g.P(50)):
					v = append(v, 0)
				default:
					v = append(v, int64(g.U64()>>1))
				}
			}
			return
		}
		nr := g.Range(1, w.b.rows)
		if g.P(3) {
			nr = g.Range(5, 30)
		}
		if len(cols) > 100 {
			nr = 1 + g.N(2)
		}
		for ; nr > 0; nr-- {
			var rv model.RowVals
			if e.Op != 0 {
				rv.B = seeds()
			}
			if e.Op != 2 {
				rv.A = seeds()
			}
			e.Rows = append(e.Rows, rv)
		}
		s.Evs = append(s.Evs, e)
	}
	_ = auto
	return s
}
