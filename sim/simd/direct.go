package main

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"github.com/Breeze0806/gobinlog/replication"

	"verif/model"
)

// direct decodes events of the run's binlog through the exported event API,
// where the properties name that as an observation point.
func (r *run) direct(seed uint64) {
	defer func() {
		if e := recover(); e != nil {
			r.violate("direct-panic", []string{"C15", "C17"}, "decoding a well-formed event panicked: %v", e)
		}
	}()
	g := model.NewRng(seed, 15)
	switch r.p.Prop {
	case "C15":
		r.directMaps(g)
	case "C17":
		for i := 0; i < 40; i++ {
			r.directGate(g)
		}
	}
}

func (r *run) directMaps(g *model.Rng) {
	for _, f := range r.log.Files {
		fde := replication.NewMysql56BinlogEvent(model.Finish(f.Evs[0].Raw, true))
		format, err := fde.Format()
		if err != nil {
			r.violate("direct-format", []string{"C15"}, "format description refused: %v", err)
			return
		}
		for _, ev := range f.Evs[1:] {
			if ev.Raw[4] != model.EvTableMap {
				continue
			}
			b := model.Finish(ev.Raw, f.CRC)
			e := replication.NewMysql56BinlogEvent(b)
			e, _, err = e.StripChecksum(format)
			if err != nil {
				r.violate("direct-strip", []string{"C15"}, "checksum not stripped: %v", err)
				return
			}
			tm, err := e.TableMap(format)
			if err != nil {
				r.violate("direct-map", []string{"C15"}, "table map refused: %v", err)
				return
			}
			r.note("direct table map")
			if d := mapProblem(ev, tm, e.TableID(format)); d != "" {
				r.violate("direct-map", []string{"C15"}, "table map at %s:%d: %s", f.Name, ev.Start, d)
				return
			}
		}
		if g.P(30) && !r.violated() {
			r.directWide(g, f, format)
		}
	}
}

// directWide decodes the table map of a table that is not in the log.
func (r *run) directWide(g *model.Rng, f *model.File, format replication.BinlogFormat) {
	n := g.One(1, 250, 251, 252, 255, 256, 1017, 2047, 2048, 4096, g.Range(1, 300), g.Range(1, 4096))
	if g.P(3) { // more than MySQL allows, not more than the encoding does
		n = g.One(4097, 65535, 65536, 70000)
	}
	a := &model.Announced{ID: g.U64() >> uint(16+g.N(32)), DB: string(nameBytes(g, g.One(1, 255, g.Range(1, 255)))), Name: string(nameBytes(g, g.One(1, 255, g.Range(1, 255))))}
	types := g.N(3)
	for i := 0; i < n; i++ {
		a.Cols = append(a.Cols, genCol(g, types, i, false))
	}
	w := 6
	if r.p.Hist.ID4 {
		w, a.ID = 4, a.ID&0xffffffff
	}
	id := make([]byte, 8)
	binary.LittleEndian.PutUint64(id, a.ID)
	var tail []byte
	if g.P(50) {
		tail = g.Bytes(g.N(100))
	}
	raw := model.RawEvent(uint32(g.U64()), model.EvTableMap, r.p.Hist.ServerID, 0, uint32(g.U64()), 0, model.TableMapBody(id[:w], a.DB, a.Name, a.Cols, tail))
	e := replication.NewMysql56BinlogEvent(model.Finish(raw, f.CRC))
	e, _, err := e.StripChecksum(format)
	if err != nil {
		r.violate("direct-strip", []string{"C15"}, "checksum not stripped: %v", err)
		return
	}
	tm, err := e.TableMap(format)
	if err != nil {
		r.violate("direct-map", []string{"C15"}, "table map of %d columns refused: %v", n, err)
		return
	}
	r.note("direct wide table map")
	if d := mapProblem(&model.Ev{Map: a}, tm, e.TableID(format)); d != "" {
		r.violate("direct-map", []string{"C15"}, "table map of %d columns: %s", n, d)
	}
}

func mapProblem(ev *model.Ev, tm *replication.TableMap, id uint64) string {
	m := ev.Map
	if m == nil {
		return ""
	}
	switch {
	case id != m.ID:
		return fmt.Sprintf("table id %d, want %d", id, m.ID)
	case tm.Database != m.DB:
		return fmt.Sprintf("database %q, want %q", tm.Database, m.DB)
	case tm.Name != m.Name:
		return fmt.Sprintf("table %q, want %q", tm.Name, m.Name)
	case len(tm.Types) != len(m.Cols):
		return fmt.Sprintf("%d columns, want %d", len(tm.Types), len(m.Cols))
	case len(tm.Metadata) != len(m.Cols):
		return fmt.Sprintf("%d metadata entries, want %d", len(tm.Metadata), len(m.Cols))
	case tm.CanBeNull.Count() != len(m.Cols):
		return fmt.Sprintf("%d nullability bits, want %d", tm.CanBeNull.Count(), len(m.Cols))
	}
	for i := range m.Cols {
		c := &m.Cols[i]
		typ, meta := c.Wire()
		if tm.Types[i] != typ {
			return fmt.Sprintf("column %d has type %d, want %d", i, tm.Types[i], typ)
		}
		want := uint16(0)
		switch len(meta) {
		case 1:
			want = uint16(meta[0])
		case 2:
			if c.LittleMeta() {
				want = binary.LittleEndian.Uint16(meta)
			} else {
				want = binary.BigEndian.Uint16(meta)
			}
		}
		if tm.Metadata[i] != want {
			return fmt.Sprintf("column %d (type %d) has metadata %#x, want %#x", i, typ, tm.Metadata[i], want)
		}
		if tm.CanBeNull.Bit(i) != c.N {
			return fmt.Sprintf("column %d nullable %v, want %v", i, tm.CanBeNull.Bit(i), c.N)
		}
	}
	return ""
}

// directGate tries the validity test on one generated buffer.
func (r *run) directGate(g *model.Rng) {
	var b []byte
	switch g.N(6) {
	case 0:
		b = g.Bytes(g.N(65))
	case 1: // consistent length
		b = g.Bytes(g.N(90))
		if len(b) >= 13 {
			binary.LittleEndian.PutUint32(b[9:], uint32(len(b)))
		}
	case 2: // off by a little
		b = g.Bytes(13 + g.N(60))
		binary.LittleEndian.PutUint32(b[9:], uint32(len(b)+g.Range(-3, 3)))
	case 3: // only one byte of the length field differs
		b = g.Bytes(19 + g.N(300))
		binary.LittleEndian.PutUint32(b[9:], uint32(len(b))^(1<<uint(g.N(32))))
	case 4:
		b = g.Bytes(g.Range(15, 23))
		binary.LittleEndian.PutUint32(b[9:], uint32(len(b)))
	default: // a real event, cut or extended
		f := r.log.Files[g.N(len(r.log.Files))]
		b = model.Finish(f.Evs[g.N(len(f.Evs))].Raw, f.CRC)
		switch g.N(3) {
		case 0:
			b = b[:g.N(len(b)+1)]
		case 1:
			b = append(bytes.Clone(b), g.Bytes(1+g.N(8))...)
		}
	}
	r.gate(bytes.Clone(b))
}

func (r *run) gate(b []byte) {
	r.note("direct gate")
	defer func() {
		if e := recover(); e != nil {
			r.violate("gate-panic", []string{"C17"}, "validity test or header accessor panicked on %d bytes %.60x: %v", len(b), b, e)
		}
	}()
	var ev replication.BinlogEvent
	if len(b)%5 == 4 {
		ev = replication.NewMariadbBinlogEvent(b)
	} else {
		ev = replication.NewMysql56BinlogEvent(b)
	}
	ok := ev.IsValid()
	if ok != gateAccepts(b) {
		r.violate("gate", []string{"C17"}, "validity test says %v for %d bytes with length field %s: %.60x", ok, len(b), lenField(b), b)
		return
	}
	if !ok {
		return
	}
	ts := binary.LittleEndian.Uint32(b)
	np := binary.LittleEndian.Uint32(b[13:])
	if ev.Timestamp() != ts {
		r.violate("gate-header", []string{"C17"}, "timestamp %d, header holds %d", ev.Timestamp(), ts)
	}
	if ev.NextPosition() != int64(np) {
		r.violate("gate-header", []string{"C17"}, "next position %d, header holds %d", ev.NextPosition(), np)
	}
	ev.IsFormatDescription()
	ev.IsQuery()
	ev.IsXID()
	ev.IsGTID()
	ev.IsRotate()
	ev.IsIntVar()
	ev.IsRand()
	ev.IsPreviousGTIDs()
	ev.IsRowsQuery()
	ev.IsTableMap()
	ev.IsWriteRows()
	ev.IsUpdateRows()
	ev.IsDeleteRows()
}

func lenField(b []byte) string {
	if len(b) < 13 {
		return "none"
	}
	return fmt.Sprint(binary.LittleEndian.Uint32(b[9:]))
}
