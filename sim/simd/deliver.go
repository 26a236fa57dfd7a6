package main

import (
	"context"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"
	"time"

	"github.com/Breeze0806/gobinlog"
	"github.com/Breeze0806/mysql"

	"verif/model"
)

// handle is the handler given to Stream.
func (ar *attemptRun) handle(t *gobinlog.Transaction) error {
	ss := ar.ss
	r := ar.r
	at := ar.at
	ss.inUse++ // deliberately unsynchronised: the race detector watches it
	if ss.inUse != 1 {
		r.violate("handler-overlap", []string{"C05"}, "attempt %d: the handler was called while another call was in progress", ar.idx)
	}
	r.mu.Lock()
	late := ar.returned
	ar.calls++
	n := ar.calls
	ar.inHandler++
	r.last = time.Now()
	r.mu.Unlock()
	defer func() {
		ss.inUse--
		r.mu.Lock()
		ar.inHandler--
		r.last = time.Now()
		r.mu.Unlock()
	}()
	if late || ss.current() != ar {
		r.violate("handler-late", []string{"C05"}, "attempt %d: the handler was called after Stream had returned", ar.idx)
	}
	idx := ss.base + ss.accepted
	if t == nil {
		r.violate("nil", ar.deliveryTags("C01"), "attempt %d: the handler was called without a transaction", ar.idx)
		ss.broken = true
		return errAbort
	}
	r.ev("handler call %d: transaction %v..%v %d events", n, pos(t.NowPosition), pos(t.NextPosition), len(t.Events))
	if ss.broken {
		return errAbort
	}
	ss.check(ar, t, idx)
	if ss.broken {
		return errAbort
	}
	r.scribble(t, idx)
	k := kept{tran: t, idx: idx}
	if r.p.JSON == 1 {
		r.checkJSON(t, idx)
	} else if r.p.JSON == 2 {
		r.consumer <- t
	}
	k.snap, k.heads = render(t), heads(t)
	ss.kept = append(ss.kept, k)
	r.mu.Lock()
	r.mix(strHash(k.snap))
	r.mu.Unlock()
	if at.HSlow > 0 {
		time.Sleep(us(at.HSlow))
	}
	if at.HBlockAt == n {
		r.note("handler-block")
		time.Sleep(us(at.HBlock))
	}
	if c := at.Cancel; c != nil && c.At == "handler" && c.N == n {
		r.cancelAfter(ar, c.D)
		if c.D > 0 {
			// be inside the handler when it happens
			time.Sleep(us(c.D + 1))
		}
	}
	if at.HErr == n {
		r.mu.Lock()
		ar.hErrHit = true
		r.faults["handler-error"]++
		if ar.stopAt.IsZero() {
			ar.stopAt = time.Now()
		}
		r.tracef("handler fails")
		r.mu.Unlock()
		return userError(at.EKind, "handler failed (injected) "+at.HMsg)
	}
	r.mu.Lock()
	ss.accepted++
	r.mu.Unlock()
	if r.p.Scribble == 0 && len(ss.kept) > 1 {
		// an earlier transaction must still read the same
		r.mu.Lock()
		o := ss.kept[int(r.obs>>7)%len(ss.kept)]
		r.mu.Unlock()
		if s := render(o.tran); s != o.snap {
			r.violate("unstable", unstableTags(o, o.tran), "transaction %d changed while transaction %d was delivered: %s", o.idx, idx, firstDiff(o.snap, s))
			ss.broken = true
		}
	}
	return nil
}

// userErrors are what callbacks fail with: errors are errors, whatever they say.
var userErrors = []error{nil, context.Canceled, context.DeadlineExceeded, io.EOF, io.ErrUnexpectedEOF, driver.ErrBadConn,
	mysql.ErrInvalidConn, fmt.Errorf("lookup: %w", context.Canceled), fmt.Errorf("sink: %w", io.EOF), errors.New("stream reached EOF"), errors.New("")}

func userError(kind int, msg string) error {
	if kind <= 0 || kind >= len(userErrors) {
		return errors.New(msg)
	}
	return userErrors[kind]
}

// unstableTags: a delivered transaction changed later. Besides the ownership of its
// memory (C08) that concerns what is found changed: the labels, the grouping of the
// changes, or the changes themselves.
func unstableTags(k kept, t *gobinlog.Transaction) []string {
	h := heads(t)
	tags := []string{"C08"}
	switch {
	case h[0] != k.heads[0]:
		return append(tags, "C03")
	case len(h) != len(k.heads) || strings.Join(h, " ") != strings.Join(k.heads, " "):
		return append(tags, "C01", "C02")
	}
	return append(tags, "C01")
}

// heads is the outline of a transaction: its labels and its changes without contents.
func heads(t *gobinlog.Transaction) []string {
	h := []string{fmt.Sprintf("%q:%d %q:%d %d", t.NowPosition.Filename, t.NowPosition.Offset, t.NextPosition.Filename, t.NextPosition.Offset, t.Timestamp)}
	for _, e := range t.Events {
		if e == nil {
			h = append(h, "nil")
			continue
		}
		h = append(h, fmt.Sprintf("%d %q %q %d %d %d", e.Type, e.Table.DbName, e.Table.TableName, e.Timestamp, len(e.RowValues), len(e.RowIdentifies)))
	}
	return h
}

var stmtTypes = map[string]gobinlog.StatementType{
	"insert": gobinlog.StatementInsert, "update": gobinlog.StatementUpdate, "delete": gobinlog.StatementDelete,
	"create": gobinlog.StatementCreate, "alter": gobinlog.StatementAlter, "drop": gobinlog.StatementDrop,
	"truncate": gobinlog.StatementTruncate, "rename": gobinlog.StatementRename, "set": gobinlog.StatementSet,
}

type diff struct {
	class string
	msg   string
}

var classTags = map[string][]string{
	"group": {"C01", "C02"},
	"sql":   {"C01"},
	"table": {"C01", "C15"},
	"ts":    {"C01"},
	"rows":  {"C01"},
	"name":  {"C01", "C15"},
	"type":  {"C01", "C15"},
	"null":  {"C01", "C13"},
	"str":   {"C01", "C13"},
	"int":   {"C01", "C15"},
	"val":   {"C01"},
	"label": {"C03"},
}

// check compares a delivered transaction with the one due.
func (ss *session) check(ar *attemptRun, t *gobinlog.Transaction, idx int) {
	r := ss.r
	l := r.log
	if idx >= len(l.Txs) {
		j := ss.identify(t)
		tags := []string{"C01", "C02"}
		if j >= 0 {
			tags = ss.repeatTags(ar)
		}
		r.violate("extra", tags, "attempt %d: a transaction was delivered after the last one (%s)", ar.idx, ss.describe(t, j))
		ss.broken = true
		return
	}
	ds := compareTx(t, &l.Txs[idx], ss.label(idx, ar))
	if len(ds) == 0 {
		return
	}
	// another transaction of the log?
	if j := ss.identify(t); j >= 0 && j != idx {
		r.violate("order", ss.repeatTags(ar), "attempt %d: transaction %d was due (%d accepted), but transaction %d was delivered", ar.idx, idx, ss.accepted, j)
		ss.broken = true
		return
	}
	seen := map[string]bool{}
	for _, d := range ds {
		if seen[d.class] {
			continue
		}
		seen[d.class] = true
		tags := append([]string(nil), classTags[d.class]...)
		if ss.resume && d.class != "label" {
			tags = append(tags, "C03")
		}
		if r.p.Scribble > 0 && (d.class == "str" || d.class == "val" || d.class == "null" || d.class == "int") {
			tags = append(tags, "C08")
		}
		if ar.mustErr && d.class == "group" {
			tags = append(tags, "C17")
		}
		r.violate("content-"+d.class, tags, "attempt %d, transaction %d: %s", ar.idx, idx, d.msg)
		if d.class == "group" {
			ss.broken = true
		}
	}
}

func (ss *session) repeatTags(ar *attemptRun) []string {
	switch {
	case ss.resume:
		return []string{"C03"}
	case ar.idx > 0:
		return []string{"C04"}
	}
	return []string{"C01", "C02", "C04"}
}

// label is the start label due for transaction idx in this attempt.
func (ss *session) label(idx int, ar *attemptRun) model.Position {
	l := ss.r.log
	from := ss.start
	ss.r.mu.Lock()
	defer ss.r.mu.Unlock()
	if ar.before > 0 {
		from = l.Txs[ss.base+ar.before-1].Next
		if idx == ss.base+ar.before {
			// the attempt may have resumed at a later, equivalent position
			for i := len(ar.cmds) - 1; i >= 0; i-- {
				if ar.cmds[i].Code == 18 {
					p := model.Position{File: ar.cmds[i].File, Off: int64(ar.cmds[i].Pos)}
					if l.Equivalent(from, p) {
						from = p
					}
				}
			}
		}
	} else {
		for i := len(ar.cmds) - 1; i >= 0; i-- {
			if ar.cmds[i].Code == 18 {
				p := model.Position{File: ar.cmds[i].File, Off: int64(ar.cmds[i].Pos)}
				if l.Equivalent(from, p) {
					from = p
				}
			}
		}
	}
	return l.StartLabel(idx, from)
}

// identify finds the transaction of the log that was delivered, labels apart from
// the end label ignored; -1 if there is none.
func (ss *session) identify(t *gobinlog.Transaction) int {
	for j := range ss.r.log.Txs {
		w := &ss.r.log.Txs[j]
		if len(w.Events) != len(t.Events) || t.Timestamp != w.TS {
			continue
		}
		ok := true
		for _, d := range compareTx(t, w, model.Position{}) {
			if d.class != "label" {
				ok = false
			}
		}
		if ok && t.NextPosition.Offset == w.Next.Off {
			return j
		}
	}
	return -1
}

func (ss *session) describe(t *gobinlog.Transaction, j int) string {
	if j >= 0 {
		return fmt.Sprintf("it is transaction %d", j)
	}
	return fmt.Sprintf("%d events, %v to %v", len(t.Events), t.NowPosition, t.NextPosition)
}

func pos(p gobinlog.Position) model.Position { return model.Position{File: p.Filename, Off: p.Offset} }

// compareTx lists the differences between a delivered transaction and the expected one.
func compareTx(t *gobinlog.Transaction, w *model.Tx, start model.Position) (ds []diff) {
	add := func(class, format string, args ...interface{}) {
		ds = append(ds, diff{class, fmt.Sprintf(format, args...)})
	}
	if p := pos(t.NextPosition); p != w.Next {
		add("label", "end label %v, want %v", p, w.Next)
	}
	if p := pos(t.NowPosition); p != start {
		add("label", "start label %v, want %v", p, start)
	}
	if t.Timestamp != w.TS {
		add("ts", "timestamp %d, want %d", t.Timestamp, w.TS)
	}
	if len(t.Events) != len(w.Events) {
		add("group", "%d changes, want %d: %s", len(t.Events), len(w.Events), kinds(t))
		return ds
	}
	for i := range w.Events {
		e, c := t.Events[i], &w.Events[i]
		if e == nil {
			add("group", "change %d is nil", i)
			return ds
		}
		if e.Type != stmtTypes[c.Cat] {
			add("group", "change %d is %v, want %s", i, e.Type, c.Cat)
			continue
		}
		if e.Timestamp != c.TS {
			add("ts", "change %d has timestamp %d, want %d", i, e.Timestamp, c.TS)
		}
		if c.Query {
			if e.Query.SQL != c.SQL {
				add("sql", "change %d has SQL %.100q, want %.100q", i, e.Query.SQL, c.SQL)
			}
			if e.Query.Database != c.DB {
				add("sql", "change %d has default database %q, want %q", i, e.Query.Database, c.DB)
			}
			if len(e.RowValues) != 0 || len(e.RowIdentifies) != 0 {
				add("rows", "change %d is a statement but carries rows", i)
			}
			continue
		}
		if e.Table.DbName != c.TDB || e.Table.TableName != c.TName {
			add("table", "change %d is attributed to %q.%q, want %q.%q", i, e.Table.DbName, e.Table.TableName, c.TDB, c.TName)
		}
		if e.Query.SQL != "" {
			add("sql", "change %d is a row change but carries SQL %.100q", i, e.Query.SQL)
		}
		ds = append(ds, compareRows(i, "after", e.RowValues, c.Vals)...)
		ds = append(ds, compareRows(i, "before", e.RowIdentifies, c.Ids)...)
	}
	return ds
}

func kinds(t *gobinlog.Transaction) string {
	var s []string
	for _, e := range t.Events {
		if e == nil {
			s = append(s, "nil")
			continue
		}
		s = append(s, e.Type.String())
	}
	return strings.Join(s, ",")
}

func compareRows(i int, image string, got []*gobinlog.RowData, want [][]model.Want) (ds []diff) {
	if len(got) != len(want) {
		return []diff{{"rows", fmt.Sprintf("change %d has %d %s images, want %d", i, len(got), image, len(want))}}
	}
	for k := range want {
		if got[k] == nil || len(got[k].Columns) != len(want[k]) {
			n := -1
			if got[k] != nil {
				n = len(got[k].Columns)
			}
			ds = append(ds, diff{"rows", fmt.Sprintf("change %d, %s image %d has %d columns, want %d", i, image, k, n, len(want[k]))})
			continue
		}
		for c := range want[k] {
			w := &want[k][c]
			g := got[k].Columns[c]
			d := func(class, msg string) {
				ds = append(ds, diff{class, fmt.Sprintf("change %d, %s image %d, column %d (%s): %s", i, image, k, c, w.TypeName, msg)})
			}
			switch {
			case g == nil:
				d("rows", "nil")
				continue
			case g.Filed != w.Name:
				d("name", fmt.Sprintf("named %q, want %q", g.Filed, w.Name))
			case int(g.Type) != w.Type:
				d("type", fmt.Sprintf("type %d, want %d", g.Type, w.Type))
			}
			if g.IsEmpty != w.Absent {
				d("null", fmt.Sprintf("absent flag %v, want %v", g.IsEmpty, w.Absent))
				continue
			}
			if w.Absent {
				if g.Data != nil {
					d("null", fmt.Sprintf("absent column carries data %.60q", g.Data))
				}
				continue
			}
			if w.Null != (g.Data == nil) {
				d("null", fmt.Sprintf("data %s, want %s", dataText(g.Data), w.String()))
				continue
			}
			if m := w.CheckData(g.Filed, g.Data); m != "" {
				d(w.Class(), m)
			}
		}
	}
	return ds
}

func dataText(b []byte) string {
	if b == nil {
		return "nil"
	}
	return fmt.Sprintf("%.60q", b)
}

// render is a complete textual snapshot of a transaction.
func render(t *gobinlog.Transaction) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%q:%d %q:%d %d\n", t.NowPosition.Filename, t.NowPosition.Offset, t.NextPosition.Filename, t.NextPosition.Offset, t.Timestamp)
	for _, e := range t.Events {
		if e == nil {
			b.WriteString("nil\n")
			continue
		}
		fmt.Fprintf(&b, "%d %q %q %d", e.Type, e.Table.DbName, e.Table.TableName, e.Timestamp)
		if e.Query.SQL != "" {
			fmt.Fprintf(&b, " %q %q", e.Query.Database, e.Query.SQL)
			if e.Query.Charset != nil {
				fmt.Fprintf(&b, " %+v", *e.Query.Charset)
			}
		}
		b.WriteByte('\n')
		for _, rs := range [][]*gobinlog.RowData{e.RowValues, e.RowIdentifies} {
			fmt.Fprintf(&b, " %d rows\n", len(rs))
			for _, row := range rs {
				if row == nil {
					b.WriteString(" nil\n")
					continue
				}
				for _, c := range row.Columns {
					if c == nil {
						b.WriteString(" nil")
						continue
					}
					b.WriteByte(' ')
					b.WriteString(c.Filed)
					if c.IsEmpty {
						b.WriteByte('-')
					}
					if c.Data == nil {
						b.WriteString("=nil")
					} else {
						b.WriteByte('=')
						b.Write(c.Data)
					}
					b.WriteByte(byte(c.Type))
				}
				b.WriteByte('\n')
			}
		}
	}
	return b.String()
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := i - 20
	if lo < 0 {
		lo = 0
	}
	cut := func(s string) string {
		if lo > len(s) {
			return ""
		}
		s = s[lo:]
		if len(s) > 60 {
			s = s[:60]
		}
		return s
	}
	return fmt.Sprintf("at byte %d: was %q, is %q", i, cut(a), cut(b))
}

// scribble overwrites delivered bytes as a handler may, and checks that no other
// value of the same transaction follows.
func (r *run) scribble(t *gobinlog.Transaction, idx int) {
	if r.p.Scribble == 0 {
		return
	}
	rng := model.NewRng(r.p.NetSeed, 991, uint64(idx))
	var cells []*gobinlog.ColumnData
	for _, e := range t.Events {
		for _, rs := range [][]*gobinlog.RowData{e.RowValues, e.RowIdentifies} {
			for _, row := range rs {
				if row == nil {
					continue
				}
				for _, c := range row.Columns {
					if c != nil {
						cells = append(cells, c)
					}
				}
			}
		}
	}
	if r.p.Scribble == 1 {
		for i, c := range cells {
			for k := range c.Data {
				c.Data[k] = byte(0xa0 + (i+k)%64)
			}
		}
		// every cell holds what was written to it last
		for i, c := range cells {
			for k := range c.Data {
				if c.Data[k] != byte(0xa0+(i+k)%64) {
					r.violate("shared", []string{"C08"}, "transaction %d: overwriting the bytes of one value changed the value of column %q", idx, c.Filed)
					return
				}
			}
		}
		return
	}
	before := make([]string, len(cells))
	for i, c := range cells {
		before[i] = string(c.Data)
	}
	hit := map[int]bool{}
	for n := 1 + rng.N(6); n > 0 && len(cells) > 0; n-- {
		i := rng.N(len(cells))
		hit[i] = true
		for k := range cells[i].Data {
			cells[i].Data[k] ^= 0x5a
		}
	}
	keys := make([]int, 0)
	for i, c := range cells {
		if !hit[i] && string(c.Data) != before[i] {
			keys = append(keys, i)
		}
	}
	sort.Ints(keys)
	if len(keys) > 0 {
		r.violate("shared", []string{"C08"}, "transaction %d: overwriting some values changed the value of column %q", idx, cells[keys[0]].Filed)
	}
}
