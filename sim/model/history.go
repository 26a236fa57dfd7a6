package model

import (
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"time"
)

// History is the binlog of a master as a plan describes it: explicit, so that
// it can be minimised item by item.
type History struct {
	ServerID   uint32  `json:"serverId"`
	Version    string  `json:"version"`
	HdrSizes   int     `json:"hdrSizes"` // entries of the FDE's header-size table
	ID4        bool    `json:"id4"`      // 4-byte table ids
	FileBase   string  `json:"fileBase"`
	FileNo     int     `json:"fileNo"`
	CRC        []bool  `json:"crc"` // per file
	Undef      bool    `json:"undef,omitempty"`
	FirstStart uint32  `json:"firstStart"` // offset of the first item of the first file (0: right after the head)
	Tables     []Table `json:"tables"`
	Items      []Item  `json:"items"`
	PrevGTIDs  bool    `json:"prevGtids"`
	TS0        uint32  `json:"ts0"`
	Clock      uint32  `json:"clock,omitempty"` // 0: a second per event; otherwise how the clock of the master jumps
	Chain      uint32  `json:"chain,omitempty"` // otherwise: origin servers, event and rows flags, thread, time and error of statements vary
}

// Table with its successive schemas.
type Table struct {
	DB   string  `json:"db"`
	Name string  `json:"name"`
	Vers [][]Col `json:"vers"`
}

// Item is a unit of the binlog.
type Item struct {
	K    string `json:"k"` // tx auto sql ign rotate restart crash
	GTID int    `json:"gtid,omitempty"`
	Gap  uint32 `json:"gap,omitempty"` // unused offsets before the item

	Begin string `json:"begin,omitempty"`
	End   string `json:"end,omitempty"` // "xid" or the statement
	Roll  bool   `json:"roll,omitempty"`
	DB    string `json:"db,omitempty"`   // of BEGIN and COMMIT
	Vars  []byte `json:"vars,omitempty"` // of BEGIN and COMMIT
	Stmts []Stmt `json:"stmts,omitempty"`

	Type    byte   `json:"type,omitempty"` // ign
	Body    []byte `json:"body,omitempty"`
	Flags   uint16 `json:"flags,omitempty"`
	Virtual bool   `json:"virtual,omitempty"` // sent by the master, not part of the file
	To      uint32 `json:"to,omitempty"`      // rotate: where the next file goes on (0: at its start)
}

// Stmt inside a transaction, or the content of an "auto"/"sql" item.
type Stmt struct {
	K    string   `json:"k"` // rows query ign
	Maps []MapRef `json:"maps,omitempty"`
	Evs  []RowsEv `json:"evs,omitempty"`
	SQL  string   `json:"sql,omitempty"`
	DB   string   `json:"db,omitempty"`
	Cat  string   `json:"cat,omitempty"` // insert update delete create ... or "" if not a change
	Vars []byte   `json:"vars,omitempty"`
	Type byte     `json:"type,omitempty"`
	Body []byte   `json:"body,omitempty"`
	Save string   `json:"save,omitempty"` // query: sets the savepoint
	Back string   `json:"back,omitempty"` // query: rolls back to the savepoint
}

// MapRef announces a table id.
type MapRef struct {
	T    int    `json:"t"`
	V    int    `json:"v"`
	ID   uint64 `json:"id"`
	Tail []byte `json:"tail,omitempty"` // optional metadata
}

// RowsEv is a rows event; M indexes the statement's maps.
type RowsEv struct {
	M     int       `json:"m"`
	Op    int       `json:"op"` // 0 insert 1 update 2 delete
	V2    bool      `json:"v2,omitempty"`
	Extra []byte    `json:"extra,omitempty"`
	AbsB  []int     `json:"absB,omitempty"` // columns absent from the before image
	AbsA  []int     `json:"absA,omitempty"`
	Rows  []RowVals `json:"rows"`
}

// RowVals holds one value seed per column; -1 is NULL.
type RowVals struct {
	B []int64 `json:"b,omitempty"`
	A []int64 `json:"a,omitempty"`
}

// Ev is an encoded event.
type Ev struct {
	File       int
	Start, End uint32 // offsets in the file; Start==End for virtual events
	Raw        []byte // header and body, without checksum
	Tx         int    // model transactions completed before this event
	Commits    bool   // this event completes transaction Tx
	Bound      bool   // its start is a valid start position (outside transactions)
	Virtual    bool
	Item       int
	LastRow    int   // encoded length of the last row of a rows event
	ColAt      int   // where the column count of a rows event is
	Full       []int // columns of a rows event that hold a value somewhere
	Cols       []Col // columns of a rows event's table
	Tail       int   // length of a table map's optional metadata
	Map        *Announced
}

// Announced is what a table map says.
type Announced struct {
	ID       uint64
	W        int // bytes of the id
	DB, Name string
	Cols     []Col
}

// Position in the binlog.
type Position struct {
	File string
	Off  int64
}

// Tx is what the replica must deliver.
type Tx struct {
	Now, Next Position
	PrevNext  Position // end label of the previous transaction or rotation target
	TS        int64
	Events    []Change
	File      int
	Item      int
}

// Change is one statement or rows event.
type Change struct {
	Cat   string // insert update delete create alter drop rename truncate set
	Query bool
	SQL   string
	DB    string
	TDB   string
	TName string
	TS    int64
	Vals  [][]Want
	Ids   [][]Want
}

// File of the encoded log.
type File struct {
	Name   string
	CRC    bool
	Target int64 // where rotations lead
	Evs    []*Ev
}

// Log is the encoded history.
type Log struct {
	H     *History
	Files []*File
	Txs   []Tx
	verAt []map[int]int // version of each table in effect when transaction i is next
	tgt   []Position    // position after transaction i-1, i.e. where i starts if read from the beginning
	Loc   *time.Location
	// Conflict: the table lookup would have to answer with two versions of a table
	// at the same point of the log.
	Conflict bool
}

// FileName of the n-th file.
func (h *History) FileName(n int) string { return fmt.Sprintf("%s.%06d", h.FileBase, h.FileNo+n) }

type save struct {
	name string
	n    int
}

type enc struct {
	h     *History
	l     *Log
	f     *File
	fi    int
	pos   uint32
	ts    uint32
	ticks uint64
	open  bool
	cur   []Change
	saves []save
	label Position
	item  int
	seq   uint64
	gno   uint64
}

// Event types.
const (
	EvQuery     = 2
	EvStop      = 3
	EvRotate    = 4
	EvIntVar    = 5
	EvRand      = 13
	EvFDE       = 15
	EvXID       = 16
	EvTableMap  = 19
	EvHeartbeat = 27
	EvRowsQuery = 29
	EvGTID      = 33
	EvAnonGTID  = 34
	EvPrevGTIDs = 35
)

// RawEvent builds header and body; size and position are as given.
func RawEvent(ts uint32, typ byte, server uint32, size, logPos uint32, flags uint16, body []byte) []byte {
	b := make([]byte, 19, 19+len(body)+4)
	binary.LittleEndian.PutUint32(b, ts)
	b[4] = typ
	binary.LittleEndian.PutUint32(b[5:], server)
	binary.LittleEndian.PutUint32(b[9:], size)
	binary.LittleEndian.PutUint32(b[13:], logPos)
	binary.LittleEndian.PutUint16(b[17:], flags)
	return append(b, body...)
}

// Finish sets the size field and appends the CRC32 checksum if asked to.
func Finish(raw []byte, crc bool) []byte {
	b := append([]byte(nil), raw...)
	n := len(b)
	if crc {
		n += 4
	}
	binary.LittleEndian.PutUint32(b[9:], uint32(n))
	if crc {
		b = binary.LittleEndian.AppendUint32(b, crc32.ChecksumIEEE(b))
	}
	return b
}

// Rotate builds an artificial rotate event.
func (l *Log) Rotate(file string, pos uint64) []byte {
	return RawEvent(0, EvRotate, l.H.ServerID, 0, 0, 0x20, append(leBytes(pos, 8), file...))
}

// postHeader are the header sizes per event type (index type-1) of MySQL 5.6 to 8.0.
var postHeader = []byte{56, 13, 0, 8, 0, 18, 0, 4, 4, 4, 4, 18, 0, 0, 95, 0, 4, 26, 8, 0, 0, 0, 8, 8, 8, 2, 0, 0, 0, 10, 10, 10, 42, 42, 0, 18, 52, 0, 10, 40, 0}

// FDE builds a format description event (its own checksum is always there).
func (h *History) FDE(ts, logPos, created uint32, crc bool) []byte {
	body := []byte{4, 0}
	v := make([]byte, 50)
	copy(v, h.Version)
	body = append(body, v...)
	body = append(body, leBytes(uint64(created), 4)...)
	body = append(body, 19)
	for i := 0; i < h.HdrSizes; i++ {
		b := byte(0)
		if i < len(postHeader) {
			b = postHeader[i]
		}
		if h.ID4 && (i+1 == EvTableMap || i+1 == 23 || i+1 == 24 || i+1 == 25) {
			b = 6
		}
		body = append(body, b)
	}
	alg := byte(0)
	if crc {
		alg = 1
	} else if h.Undef {
		alg = 255
	}
	body = append(body, alg)
	return RawEvent(ts, EvFDE, h.ServerID, 0, logPos, 0, body)
}

// Encode builds the log and the transactions it stands for.
func (h *History) Encode(loc *time.Location) *Log {
	e := &enc{h: h, l: &Log{H: h, Loc: loc}, ts: h.TS0}
	e.newFile(0, 4)
	e.label = Position{e.f.Name, 4}
	if h.FirstStart > e.pos {
		e.pos = h.FirstStart
	}
	for i := range h.Items {
		e.item = i
		e.do(&h.Items[i])
	}
	l := e.l
	// versions in effect: those of the next use of each table
	n := len(l.Txs)
	l.verAt = make([]map[int]int, n+1)
	use := make([]map[int]int, n+1)
	tx := 0
	for i := range h.Items {
		it := &h.Items[i]
		for s := range it.Stmts {
			uses := func(tx int) {
				for m := len(it.Stmts[s].Maps) - 1; m >= 0; m-- {
					mp := it.Stmts[s].Maps[m]
					if use[tx] == nil {
						use[tx] = map[int]int{}
					}
					if v, ok := use[tx][mp.T]; !ok {
						use[tx][mp.T] = mp.V
					} else if v != mp.V {
						l.Conflict = true
					}
				}
			}
			uses(tx)
			if it.K == "auto" {
				for range it.Stmts[s].Evs {
					uses(tx)
					tx++
				}
			}
		}
		if it.K == "tx" || (it.K == "sql" && len(it.Stmts) > 0 && it.Stmts[0].Cat != "") {
			tx++
		}
	}
	if tx != n {
		panic(fmt.Sprintf("model: %d transactions counted, %d encoded", tx, n))
	}
	for i := n; i >= 0; i-- {
		m := map[int]int{}
		if i < n {
			for k, v := range l.verAt[i+1] {
				m[k] = v
			}
		}
		for k, v := range use[i] {
			m[k] = v
		}
		l.verAt[i] = m
	}
	return l
}

// Version of table t according to a mapper asked when transaction i is next.
func (l *Log) Version(t, i int) int { return l.verAt[i][t] }

// tick sets the time of the next event: statements may take no time, and SET TIMESTAMP
// or an adjusted clock lead anywhere.
func (e *enc) tick() {
	if e.h.Clock == 0 {
		e.ts++
		return
	}
	e.ticks++
	r := NewRng(uint64(e.h.Clock), e.ticks)
	switch r.N(12) {
	case 0, 1:
		e.ts++
	case 2:
		e.ts += uint32(r.N(100000))
	case 3:
		e.ts -= uint32(r.N(100000))
	case 4:
		e.ts = uint32(r.One(0, 0, 1, 1<<31-1, 1<<31, 1<<32-1, int(e.h.TS0)))
	}
}

func (e *enc) newFile(i int, target uint32) {
	crc := false
	if len(e.h.CRC) > 0 {
		crc = e.h.CRC[i%len(e.h.CRC)]
	}
	e.f = &File{Name: e.h.FileName(i), CRC: crc, Target: int64(target)}
	e.fi = i
	e.l.Files = append(e.l.Files, e.f)
	e.pos = 4
	e.tick()
	created := uint32(0)
	if i == 0 {
		created = e.ts
	}
	raw := e.h.FDE(e.ts, 0, created, crc)
	if e.h.Chain != 0 && e.h.Chain%2 == 0 {
		raw[17] |= 1 // the file is in use
	}
	ev := &Ev{File: i, Start: 4, End: 4 + uint32(len(raw)) + 4, Raw: raw, Tx: len(e.l.Txs), Bound: true, Item: e.item}
	binary.LittleEndian.PutUint32(raw[13:], ev.End)
	e.f.Evs = append(e.f.Evs, ev)
	e.pos = ev.End
	if target > 4 {
		if target > e.pos {
			e.pos = target
		}
	} else if e.h.PrevGTIDs {
		e.add(EvPrevGTIDs, leBytes(0, 8), 0, true)
	}
	e.label = Position{e.f.Name, int64(target)}
}

// chain draws the n-th fact about the current item or event that a reader has no use for.
func (e *enc) chain(at, n uint64) *Rng { return NewRng(uint64(e.h.Chain), at<<8|n) }

// origin is the server an item was first written on: masters are themselves replicas.
func (e *enc) origin() uint32 {
	if e.h.Chain == 0 {
		return e.h.ServerID
	}
	g := e.chain(uint64(e.item), 1)
	return uint32(g.One(int(e.h.ServerID), int(e.h.ServerID), 1, 1<<32-1, g.N(1<<32)))
}

// flags of an event: thread specific, suppress use, relay log, no filter, isolated;
// the ones with a meaning (artificial, ignorable) are not among them.
func (e *enc) flags(typ byte) uint16 {
	if e.h.Chain == 0 {
		return 0
	}
	g := e.chain(uint64(e.pos), 2)
	fl := uint16(0)
	for _, f := range []int{0x4, 0x8, 0x40, 0x100, 0x200} {
		if g.N(8) == 0 {
			fl |= uint16(f)
		}
	}
	return fl
}

// add appends an event at the current offset.
func (e *enc) add(typ byte, body []byte, flags uint16, bound bool) *Ev {
	e.tick()
	size := uint32(19 + len(body))
	if e.f.CRC {
		size += 4
	}
	ev := &Ev{File: e.fi, Start: e.pos, End: e.pos + size, Tx: len(e.l.Txs), Bound: bound, Item: e.item,
		Raw: RawEvent(e.ts, typ, e.origin(), size, e.pos+size, flags|e.flags(typ), body)}
	e.f.Evs = append(e.f.Evs, ev)
	e.pos += size
	return ev
}

func (e *enc) virtual(typ byte, body []byte, flags uint16) {
	ts := uint32(0)
	raw := RawEvent(ts, typ, e.h.ServerID, 0, e.pos, flags, body)
	e.f.Evs = append(e.f.Evs, &Ev{File: e.fi, Start: e.pos, End: e.pos, Raw: raw, Tx: len(e.l.Txs), Virtual: true, Item: e.item})
}

func (e *enc) commit(ev *Ev) {
	ev.Commits = true
	next := Position{e.f.Name, int64(ev.End)}
	e.l.Txs = append(e.l.Txs, Tx{Now: e.label, Next: next, TS: int64(binary.LittleEndian.Uint32(ev.Raw)), Events: e.cur, File: e.fi, Item: e.item})
	e.label = next
	e.cur = nil
}

// QueryBody builds the body of a query event.
func QueryBody(db, sql string, vars []byte) []byte {
	b := append(leBytes(0x2a, 4), leBytes(1, 4)...)
	b = append(b, byte(len(db)))
	b = append(b, 0, 0)
	b = append(b, leBytes(uint64(len(vars)), 2)...)
	b = append(b, vars...)
	b = append(b, db...)
	b = append(b, 0)
	return append(b, sql...)
}

var defaultVars = []byte{0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 6, 3, 's', 't', 'd', 4, 33, 0, 33, 0, 8, 0}

func (e *enc) query(db, sql string, vars []byte, bound bool) *Ev {
	if vars == nil {
		vars = defaultVars
	}
	body := QueryBody(db, sql, vars)
	if e.h.Chain != 0 {
		g := e.chain(uint64(e.pos), 3)
		binary.LittleEndian.PutUint32(body, uint32(g.One(0, 1, 1<<32-1, g.N(1<<32))))
		binary.LittleEndian.PutUint32(body[4:], uint32(g.One(0, 1, 3600, 1<<32-1, g.N(1<<32))))
		binary.LittleEndian.PutUint16(body[9:], uint16(g.One(0, 0, 0, 1317, 1062, 1<<16-1, g.N(1<<16))))
	}
	return e.add(EvQuery, body, 0, bound)
}

func (e *enc) gtid(kind int, bound bool) bool {
	if kind == 0 {
		return bound
	}
	e.gno++
	body := []byte{1}
	if kind == 1 {
		for i := 0; i < 16; i++ {
			body = append(body, byte(0x10+i))
		}
		body = append(body, leBytes(e.gno, 8)...)
	} else {
		body = append(body, make([]byte, 24)...)
	}
	body = append(body, 2)
	body = append(body, leBytes(e.gno-1, 8)...)
	body = append(body, leBytes(e.gno, 8)...)
	typ := byte(EvGTID)
	if kind == 2 {
		typ = EvAnonGTID
	}
	e.add(typ, body, 0, bound)
	return true
}

func (e *enc) do(it *Item) {
	if it.Gap > 0 && !it.Virtual {
		if e.pos < 0xf0000000 && it.Gap < 0xf8000000-e.pos {
			e.pos += it.Gap
		}
	}
	switch it.K {
	case "tx":
		b := e.gtid(it.GTID, true)
		e.query(it.DB, it.Begin, it.Vars, b)
		e.saves = nil
		for i := range it.Stmts {
			e.stmt(&it.Stmts[i])
		}
		if it.Roll {
			e.cur = nil
		}
		var ev *Ev
		if it.End == "xid" {
			e.seq++
			ev = e.add(EvXID, leBytes(e.seq, 8), 0, false)
		} else {
			ev = e.query(it.DB, it.End, it.Vars, false)
		}
		e.commit(ev)
	case "auto": // row changes outside BEGIN ... COMMIT: each rows event is a transaction
		e.gtid(it.GTID, true)
		for i := range it.Stmts {
			e.stmtAuto(&it.Stmts[i])
		}
	case "sql":
		b := e.gtid(it.GTID, true)
		for i := range it.Stmts {
			s := &it.Stmts[i]
			ev := e.query(s.DB, s.SQL, s.Vars, b)
			if s.Cat != "" {
				e.cur = append(e.cur, Change{Cat: s.Cat, Query: true, SQL: s.SQL, DB: s.DB, TS: int64(e.ts)})
				e.commit(ev)
			}
		}
	case "ign":
		if it.Virtual {
			e.virtual(it.Type, it.Body, it.Flags)
		} else {
			e.add(it.Type, it.Body, it.Flags, true)
		}
	case "rotate":
		name := e.h.FileName(e.fi + 1)
		to := it.To
		if to < 4 {
			to = 4
		}
		e.add(EvRotate, append(leBytes(uint64(to), 8), name...), 0, true)
		e.newFile(e.fi+1, to)
	case "restart":
		e.add(EvStop, nil, 0, true)
		e.restarted()
	case "crash": // the master died while it wrote a transaction; it is never committed
		b := e.gtid(it.GTID, true)
		e.query(it.DB, it.Begin, it.Vars, b)
		e.saves = nil
		for i := range it.Stmts {
			e.stmt(&it.Stmts[i])
		}
		e.cur = nil
		e.restarted()
	default:
		panic("unknown item " + it.K)
	}
}

func (e *enc) restarted() {
	e.newFile(e.fi+1, 4)
	// a restarted server says when it started
	binary.LittleEndian.PutUint32(e.f.Evs[0].Raw[19+52:], e.ts)
}

func (e *enc) stmt(s *Stmt) {
	switch s.K {
	case "query":
		e.query(s.DB, s.SQL, s.Vars, false)
		if s.Save != "" {
			e.saves = append(e.saves, save{s.Save, len(e.cur)})
		}
		if s.Back != "" {
			i := len(e.saves) - 1
			for i >= 0 && e.saves[i].name != s.Back {
				i--
			}
			if i >= 0 {
				e.saves = e.saves[:i+1]
				e.cur = e.cur[:e.saves[i].n]
			} else {
				e.cur = nil
			}
		}
		if s.Cat != "" {
			e.cur = append(e.cur, Change{Cat: s.Cat, Query: true, SQL: s.SQL, DB: s.DB, TS: int64(e.ts)})
		}
	case "ign":
		if s.Type == EvHeartbeat {
			e.virtual(s.Type, s.Body, 0)
			return
		}
		e.add(s.Type, s.Body, 0x80, false)
	case "rows":
		for _, m := range s.Maps {
			e.tableMap(m, false)
		}
		for i := range s.Evs {
			e.rows(s, &s.Evs[i], i == len(s.Evs)-1)
		}
	}
}

func (e *enc) stmtAuto(s *Stmt) {
	for i := range s.Evs {
		e.tableMap(s.Maps[s.Evs[i].M], true)
		ev := e.rows(s, &s.Evs[i], true)
		e.commit(ev)
	}
}

func (e *enc) idBytes(id uint64) []byte {
	if e.h.ID4 {
		return leBytes(id, 4)
	}
	return leBytes(id, 6)
}

// LenEnc is MySQL's length-encoded integer.
func LenEnc(n int) []byte {
	switch {
	case n < 251:
		return []byte{byte(n)}
	case n < 1<<16:
		return append([]byte{0xfc}, leBytes(uint64(n), 2)...)
	}
	return append([]byte{0xfd}, leBytes(uint64(n), 3)...)
}

func bitmap(n int, set func(int) bool) []byte {
	b := make([]byte, (n+7)/8)
	for i := 0; i < n; i++ {
		if set(i) {
			b[i/8] |= 1 << uint(i%8)
		}
	}
	return b
}

// TableMapBody builds the body of a table-map event.
func TableMapBody(id []byte, db, name string, cols []Col, tail []byte) []byte {
	b := append([]byte(nil), id...)
	b = append(b, 1, 0)
	b = append(b, byte(len(db)))
	b = append(b, db...)
	b = append(b, 0, byte(len(name)))
	b = append(b, name...)
	b = append(b, 0)
	b = append(b, LenEnc(len(cols))...)
	var meta []byte
	for i := range cols {
		t, m := cols[i].Wire()
		b = append(b, t)
		meta = append(meta, m...)
	}
	b = append(b, LenEnc(len(meta))...)
	b = append(b, meta...)
	b = append(b, bitmap(len(cols), func(i int) bool { return cols[i].N })...)
	return append(b, tail...)
}

func (e *enc) tableMap(m MapRef, bound bool) {
	t := &e.h.Tables[m.T]
	body := TableMapBody(e.idBytes(m.ID), t.DB, t.Name, t.Vers[m.V], m.Tail)
	if e.h.Chain != 0 {
		binary.LittleEndian.PutUint16(body[len(e.idBytes(m.ID)):], uint16(e.chain(uint64(e.pos), 4).One(0, 1, 2, 3, 0x4001, 0x2001)))
	}
	ev := e.add(EvTableMap, body, 0, bound)
	ev.Tail = len(m.Tail)
	ev.Map = &Announced{m.ID, len(e.idBytes(m.ID)), t.DB, t.Name, t.Vers[m.V]}
}

var opCat = []string{"insert", "update", "delete"}

func (e *enc) rows(s *Stmt, r *RowsEv, last bool) *Ev {
	m := s.Maps[r.M]
	t := &e.h.Tables[m.T]
	cols := t.Vers[m.V]
	v2 := r.V2 && !e.h.ID4
	typ := byte(23 + r.Op)
	if v2 {
		typ = byte(30 + r.Op)
	}
	b := e.idBytes(m.ID)
	fl := uint64(0)
	if last {
		fl = 1
	}
	if e.h.Chain != 0 {
		fl |= uint64(e.chain(uint64(e.pos), 5).One(0, 2, 4, 8, 0xa, 0xe))
	}
	b = append(b, leBytes(fl, 2)...)
	if v2 {
		b = append(b, leBytes(uint64(2+len(r.Extra)), 2)...)
		b = append(b, r.Extra...)
	}
	colAt := 19 + len(b)
	b = append(b, LenEnc(len(cols))...)
	full := make([]bool, len(cols))
	ch := Change{Cat: opCat[r.Op], TDB: t.DB, TName: t.Name}
	absent := func(l []int, c int) bool {
		for _, x := range l {
			if x == c {
				return true
			}
		}
		return false
	}
	hasB, hasA := r.Op != 0, r.Op != 2
	if hasB {
		b = append(b, bitmap(len(cols), func(c int) bool { return !absent(r.AbsB, c) })...)
	}
	if hasA {
		b = append(b, bitmap(len(cols), func(c int) bool { return !absent(r.AbsA, c) })...)
	}
	image := func(abs []int, seeds []int64) []Want {
		ws := make([]Want, len(cols))
		var nulls []bool
		var data []byte
		for c := range cols {
			typ, _ := cols[c].Wire()
			base := Want{Type: int(typ), TypeName: typeNames[int(typ)], Name: cols[c].Name}
			if absent(abs, c) {
				base.Absent = true
				ws[c] = base
				continue
			}
			seed := int64(0)
			if c < len(seeds) {
				seed = seeds[c]
			}
			if seed < 0 && cols[c].N {
				base.Null = true
				ws[c] = base
				nulls = append(nulls, true)
				continue
			}
			nulls = append(nulls, false)
			d, w := cols[c].Cell(seed, e.l.Loc)
			data = append(data, d...)
			ws[c] = w
			full[c] = true
		}
		b = append(b, bitmap(len(nulls), func(i int) bool { return nulls[i] })...)
		b = append(b, data...)
		return ws
	}
	lastRow := len(b)
	for i := range r.Rows {
		lastRow = len(b)
		if hasB {
			ch.Ids = append(ch.Ids, image(r.AbsB, r.Rows[i].B))
		}
		if hasA {
			ch.Vals = append(ch.Vals, image(r.AbsA, r.Rows[i].A))
		}
	}
	ev := e.add(typ, b, 0, false)
	ev.LastRow = len(b) - lastRow
	ev.ColAt, ev.Cols = colAt, cols
	for c, ok := range full {
		if ok {
			ev.Full = append(ev.Full, c)
		}
	}
	ch.TS = int64(e.ts)
	e.cur = append(e.cur, ch)
	return ev
}

// Find locates an offset of a file: the index of the first event at or after it.
func (l *Log) Find(file string, off int64) (fi, ei int, ok bool) {
	for i, f := range l.Files {
		if f.Name != file {
			continue
		}
		if off == 4 {
			return i, 0, true
		}
		if off == f.Target {
			for j, ev := range f.Evs {
				if int64(ev.Start) >= off {
					return i, j, true
				}
			}
			return i, len(f.Evs), true
		}
		var prevEnd int64 = -1
		for j, ev := range f.Evs {
			if int64(ev.Start) == off || prevEnd == off {
				return i, j, true
			}
			prevEnd = int64(ev.End)
		}
		if prevEnd == off {
			return i, len(f.Evs), true
		}
		return i, 0, false
	}
	return 0, 0, false
}

// TxAt is the index of the first transaction delivered when reading from there,
// provided the position lies outside transactions.
func (l *Log) TxAt(fi, ei int) int {
	for ; fi < len(l.Files); fi++ {
		if ei < len(l.Files[fi].Evs) {
			return l.Files[fi].Evs[ei].Tx
		}
		ei = 0
	}
	return len(l.Txs)
}

// Boundaries lists the positions from which the log can be read: outside transactions.
func (l *Log) Boundaries() []Position {
	var out []Position
	for _, f := range l.Files {
		for _, ev := range f.Evs {
			if ev.Bound && !ev.Virtual {
				out = append(out, Position{f.Name, int64(ev.Start)})
			}
		}
	}
	last := l.Files[len(l.Files)-1]
	out = append(out, Position{last.Name, int64(last.Evs[len(last.Evs)-1].End)})
	return out
}

// Equivalent reports whether resuming at p is resuming at boundary `at` (the end
// label of a transaction or a start position): p is `at` itself or the start of a
// later file with no transaction in between.
func (l *Log) Equivalent(at, p Position) bool {
	if at == p {
		return true
	}
	fa, ea, oka := l.Find(at.File, at.Off)
	fp, ep, okp := l.Find(p.File, p.Off)
	if !oka || !okp || fp <= fa || (p.Off != 4 && p.Off != l.Files[fp].Target) {
		return false
	}
	return l.TxAt(fa, ea) == l.TxAt(fp, ep)
}

// StartLabel is the start label of transaction i when reading began at p.
func (l *Log) StartLabel(i int, p Position) Position {
	// the last rotation between the reading start (or previous commit) and the transaction
	fi, ei, _ := l.Find(p.File, p.Off)
	if l.TxAt(fi, ei) < i {
		return l.Txs[i].Now
	}
	if l.Txs[i].File > fi {
		f := l.Files[l.Txs[i].File]
		return Position{f.Name, f.Target}
	}
	return p
}
