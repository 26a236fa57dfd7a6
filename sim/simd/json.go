package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"unicode/utf8"

	"github.com/Breeze0806/gobinlog"
	"github.com/Breeze0806/gobinlog/replication"

	"verif/model"
)

// consume marshals delivered transactions concurrently with the stream.
func (r *run) consume() {
	n := 0
	for t := range r.consumer {
		r.checkJSON(t, n)
		n++
	}
	close(r.consDone)
}

func (r *run) checkJSON(t *gobinlog.Transaction, idx int) {
	if m := jsonProblem(t); m != "" {
		r.violate("json", []string{"C20"}, "transaction %d: %s", idx, m)
	}
}

var kindNames = map[gobinlog.StatementType]string{
	gobinlog.StatementBegin: "begin", gobinlog.StatementCommit: "commit", gobinlog.StatementRollback: "rollback",
}

func init() {
	for k, v := range stmtTypes {
		kindNames[v] = k
	}
}

func jsonProblem(t *gobinlog.Transaction) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			msg = fmt.Sprintf("json.Marshal panicked: %v", e)
		}
	}()
	b, err := json.Marshal(t)
	if err != nil {
		return fmt.Sprintf("json.Marshal failed: %v", err)
	}
	if !json.Valid(b) || !utf8.Valid(b) {
		return fmt.Sprintf("json.Marshal produced malformed JSON: %.200q", b)
	}
	if m := dupKey(b); m != "" {
		return fmt.Sprintf("the object key %q occurs twice in %.200q", m, b)
	}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		return fmt.Sprintf("json does not parse: %v", err)
	}
	o, ok := v.(map[string]interface{})
	if !ok {
		return fmt.Sprintf("not an object: %.100q", b)
	}
	for _, p := range []struct {
		key string
		pos gobinlog.Position
	}{{"nowPosition", t.NowPosition}, {"nextPosition", t.NextPosition}} {
		po, _ := o[p.key].(map[string]interface{})
		if po == nil {
			return "no " + p.key
		}
		if m := sameStr(po["filename"], p.pos.Filename); m != "" {
			return p.key + ": " + m
		}
		if fmt.Sprint(po["offset"]) != fmt.Sprint(p.pos.Offset) {
			return fmt.Sprintf("%s offset %v, want %d", p.key, po["offset"], p.pos.Offset)
		}
	}
	evs, _ := o["events"].([]interface{})
	if evs == nil && (o["events"] != nil || len(t.Events) > 0) {
		return fmt.Sprintf("events rendered as %.60q, want %d of them", fmt.Sprint(o["events"]), len(t.Events))
	}
	if len(evs) != len(t.Events) {
		return fmt.Sprintf("%d events rendered, want %d", len(evs), len(t.Events))
	}
	for i, e := range t.Events {
		eo, _ := evs[i].(map[string]interface{})
		if eo == nil {
			return fmt.Sprintf("event %d rendered as %v", i, evs[i])
		}
		if want, ok := kindNames[e.Type]; ok && eo["type"] != interface{}(want) {
			return fmt.Sprintf("event %d has kind %v, want %s", i, eo["type"], want)
		}
		if e.Query.SQL != "" {
			if m := sameStr(eo["sql"], e.Query.SQL); m != "" {
				return fmt.Sprintf("event %d, sql: %s", i, m)
			}
			continue
		}
		no, _ := eo["name"].(map[string]interface{})
		if no == nil {
			return fmt.Sprintf("event %d has no table name", i)
		}
		if m := sameStr(no["db"], e.Table.DbName) + sameStr(no["table"], e.Table.TableName); m != "" {
			return fmt.Sprintf("event %d, table name: %s", i, m)
		}
		if m := rowsProblem(eo["rowValues"], e.RowValues); m != "" {
			return fmt.Sprintf("event %d, rowValues: %s", i, m)
		}
		if m := rowsProblem(eo["rowIdentifies"], e.RowIdentifies); m != "" {
			return fmt.Sprintf("event %d, rowIdentifies: %s", i, m)
		}
	}
	return ""
}

func rowsProblem(v interface{}, rows []*gobinlog.RowData) string {
	vs, _ := v.([]interface{})
	if len(vs) != len(rows) {
		return fmt.Sprintf("%d rows, want %d", len(vs), len(rows))
	}
	for i, row := range rows {
		ro, _ := vs[i].(map[string]interface{})
		if ro == nil {
			return fmt.Sprintf("row %d rendered as %v", i, vs[i])
		}
		cs, _ := ro["Columns"].([]interface{})
		if len(cs) != len(row.Columns) {
			return fmt.Sprintf("row %d has %d columns, want %d", i, len(cs), len(row.Columns))
		}
		for j, c := range row.Columns {
			co, _ := cs[j].(map[string]interface{})
			if co == nil {
				return fmt.Sprintf("row %d, column %d rendered as %v", i, j, cs[j])
			}
			if m := sameStr(co["filed"], c.Filed); m != "" {
				return fmt.Sprintf("row %d, column %d, name: %s", i, j, m)
			}
			if want := model.TypeName(int(c.Type)); want != "" && co["type"] != interface{}(want) {
				return fmt.Sprintf("row %d, column %d: type %v, want %s", i, j, co["type"], want)
			}
			if co["isEmpty"] != interface{}(c.IsEmpty) {
				return fmt.Sprintf("row %d, column %d: isEmpty %v, want %v", i, j, co["isEmpty"], c.IsEmpty)
			}
			d, has := co["data"]
			if !has {
				return fmt.Sprintf("row %d, column %d has no data member", i, j)
			}
			if c.Data == nil {
				if d != nil {
					return fmt.Sprintf("row %d, column %d: NULL rendered as %.60q", i, j, fmt.Sprint(d))
				}
				continue
			}
			if d == nil {
				return fmt.Sprintf("row %d, column %d: %.60q rendered as null", i, j, c.Data)
			}
			if m := sameStr(d, string(c.Data)); m != "" {
				return fmt.Sprintf("row %d, column %d, data: %s", i, j, m)
			}
		}
	}
	return ""
}

func sameStr(v interface{}, want string) string {
	s, ok := v.(string)
	if !ok {
		return fmt.Sprintf("rendered as %.60q, want the string %.60q", fmt.Sprint(v), want)
	}
	if utf8.ValidString(want) && s != want {
		return fmt.Sprintf("rendered as %.60q, want %.60q", s, want)
	}
	return ""
}

// dupKey finds an object key that occurs twice.
func dupKey(b []byte) string {
	d := json.NewDecoder(bytes.NewReader(b))
	type frame struct {
		obj  bool
		keys map[string]bool
		key  bool
	}
	var st []frame
	for {
		t, err := d.Token()
		if err != nil {
			return ""
		}
		if dl, ok := t.(json.Delim); ok {
			switch dl {
			case '{':
				st = append(st, frame{obj: true, keys: map[string]bool{}, key: true})
				continue
			case '[':
				st = append(st, frame{})
				continue
			default:
				st = st[:len(st)-1]
			}
		} else if n := len(st); n > 0 && st[n-1].obj && st[n-1].key {
			k := t.(string)
			if st[n-1].keys[k] {
				return k
			}
			st[n-1].keys[k] = true
			st[n-1].key = false
			continue
		}
		if n := len(st); n > 0 && st[n-1].obj {
			st[n-1].key = true
		}
	}
}

// synthJSON serialises a transaction made of arbitrary bytes.
func (r *run) synthJSON(seed uint64) {
	g := model.NewRng(seed, 20)
	str := func() string { return string(oddBytes(g)) }
	t := &gobinlog.Transaction{
		NowPosition:  gobinlog.Position{Filename: str(), Offset: int64(g.U64() >> uint(g.N(64)))},
		NextPosition: gobinlog.Position{Filename: str(), Offset: -int64(g.N(3))},
		Timestamp:    int64(g.U64() >> uint(20+g.N(44))),
	}
	row := func() *gobinlog.RowData {
		rd := &gobinlog.RowData{}
		for n := g.N(5); n > 0; n-- {
			c := &gobinlog.ColumnData{Filed: str(), Type: gobinlog.ColumnType(g.N(256)), IsEmpty: g.P(20)}
			switch g.N(5) {
			case 0:
			case 1:
				c.Data = []byte{}
			default:
				c.Data = append([]byte{}, oddBytes(g)...)
			}
			rd.Columns = append(rd.Columns, c)
		}
		return rd
	}
	for n := g.N(5); n > 0; n-- {
		e := &gobinlog.StreamEvent{Type: gobinlog.StatementType(g.N(14)), Timestamp: int64(uint32(g.U64()))}
		if g.P(40) {
			e.Query = replication.Query{Database: str(), SQL: "x" + str()}
			if g.P(50) {
				e.Query.Charset = &replication.Charset{Client: 33, Conn: 33, Server: 8}
			}
		} else {
			e.Table = gobinlog.NewMysqlTableName(str(), str())
			for k := g.N(4); k > 0; k-- {
				e.RowValues = append(e.RowValues, row())
			}
			for k := g.N(4); k > 0; k-- {
				e.RowIdentifies = append(e.RowIdentifies, row())
			}
		}
		t.Events = append(t.Events, e)
	}
	r.note("synthetic")
	before := render(t)
	if m := jsonProblem(t); m != "" {
		r.violate("json-synthetic", []string{"C20"}, "synthetic transaction %d: %s", seed, m)
	}
	if render(t) != before {
		r.violate("json-mutates", []string{"C20"}, "synthetic transaction %d was altered by its serialisation", seed)
	}
}

func oddBytes(g *model.Rng) []byte {
	var b []byte
	for n := g.N(12); n > 0; n-- {
		switch g.N(12) {
		case 0:
			b = append(b, byte(g.N(32)))
		case 1:
			b = append(b, '"')
		case 2:
			b = append(b, '\\')
		case 3:
			b = append(b, byte(0x80+g.N(128)))
		case 4:
			b = append(b, "é"...)
		case 5:
			b = append(b, "\u2028"...)
		case 6:
			b = append(b, "😀"...)
		case 7:
			b = append(b, "<&>"[g.N(3)])
		case 8:
			b = append(b, "\uFFFD"...)
		case 9:
			b = append(b, "\xed\xa0\x80"...)
		case 10:
			b = append(b, 0x7f)
		default:
			b = append(b, byte(' '+g.N(95)))
		}
	}
	return b
}
