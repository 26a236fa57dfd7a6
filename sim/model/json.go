package model

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

// Doc is a JSON document as MySQL stores it.
type Doc struct {
	K    byte // 'o' object, 'a' array, 'n' null, 't' true, 'f' false, 'i' integer, 'd' double, 's' string, 'D' date, 'T' time, 'E' datetime, 'M' decimal
	S    string
	I    int64
	U    uint64
	Uns  bool // integer kept in U
	W    int  // integer width class as stored: 16, 32, 64
	F    float64
	Keys []string
	Kids []*Doc
}

// GenJSON draws a document and its binary form.
func GenJSON(r *Rng, simple bool) (*Doc, []byte) {
	if simple {
		d := &Doc{K: 'n'}
		return d, []byte{4, 0}
	}
	if r.N(40) == 0 { // MySQL logs an empty value for JSON null in some cases
		return &Doc{K: 'n'}, []byte{}
	}
	budget := r.One(1, 3, 8, 20)
	d := genDoc(r, 0, &budget)
	large := r.P(25)
	typ, body := d.encode(large)
	return d, append([]byte{typ}, body...)
}

func genDoc(r *Rng, depth int, budget *int) *Doc {
	*budget--
	k := r.N(15)
	if depth < 5 && *budget > 0 && r.P(45) {
		k = r.N(4)
	}
	if depth >= 5 || *budget <= 0 {
		k = 4 + r.N(11)
	}
	switch k {
	case 0, 1:
		d := &Doc{K: 'o'}
		n := r.N(5)
		if r.N(30) == 0 {
			n = r.Range(20, 40)
		}
		seen := map[string]bool{}
		for i := 0; i < n; i++ {
			key := jsonStr(r, 12)
			if seen[key] {
				continue
			}
			seen[key] = true
			d.Keys = append(d.Keys, key)
		}
		sort.Slice(d.Keys, func(i, j int) bool {
			if len(d.Keys[i]) != len(d.Keys[j]) {
				return len(d.Keys[i]) < len(d.Keys[j])
			}
			return d.Keys[i] < d.Keys[j]
		})
		for range d.Keys {
			d.Kids = append(d.Kids, genDoc(r, depth+1, budget))
		}
		return d
	case 2, 3:
		d := &Doc{K: 'a'}
		n := r.N(5)
		if r.N(30) == 0 {
			n = r.Range(20, 40)
		}
		for i := 0; i < n; i++ {
			d.Kids = append(d.Kids, genDoc(r, depth+1, budget))
		}
		return d
	case 4:
		return &Doc{K: "ntf"[r.N(3)]}
	case 5, 6, 7, 8, 9:
		d := &Doc{K: 'i', W: r.One(16, 32, 64), Uns: r.P(50)}
		if d.Uns {
			d.U = r.U64() >> uint(64-d.W)
			switch r.N(4) {
			case 0:
				d.U = 1<<uint(d.W-1) - 1 + 1<<uint(d.W-1)
			case 1:
				d.U = 1 << uint(d.W-1)
			case 2:
				d.U = uint64(r.N(100))
			}
		} else {
			d.I = int64(r.U64()) >> uint(64-d.W)
			switch r.N(4) {
			case 0:
				d.I = -1 << uint(d.W-1)
			case 1:
				d.I = 1<<uint(d.W-1) - 1
			case 2:
				d.I = int64(r.N(200) - 100)
			}
		}
		return d
	case 10:
		d := &Doc{K: 'd', F: float64(r.N(200000)-100000) / 64}
		if r.P(40) {
			b := r.U64()
			if b&(0x7ff<<52) == 0x7ff<<52 {
				b &^= 1 << 62
			}
			d.F = math.Float64frombits(b)
		}
		return d
	case 11, 12:
		n := r.One(0, 3, 10, 127, 128, 300)
		if r.N(60) == 0 {
			n = 16384
		}
		return &Doc{K: 's', S: jsonStr(r, n)}
	case 13:
		switch r.N(3) {
		case 0:
			y, m, dd := randDate(r)
			return &Doc{K: 'D', S: fmt.Sprintf("%04d-%02d-%02d", y, m, dd)}
		case 1:
			h, m, s, neg := randTime(r)
			us := randFrac(r, r.One(0, 3, 6))
			if h == 838 {
				us = 0
			}
			t := fmt.Sprintf("%02d:%02d:%02d.%06d", h, m, s, us)
			if neg && (h|m|s|us) != 0 {
				t = "-" + t
			}
			return &Doc{K: 'T', S: t}
		}
		y, m, dd := randDate(r)
		return &Doc{K: 'E', S: fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d.%06d", y, m, dd, r.N(24), r.N(60), r.N(60), randFrac(r, r.One(0, 3, 6)))}
	default:
		p := r.Range(1, 65)
		s := r.N(min(30, p) + 1)
		ip, fp, neg := randDigits(r, p-s), randDigits(r, s), r.P(50)
		if strings.Trim(ip+fp, "0") == "" {
			neg = false
		}
		return &Doc{K: 'M', S: DecimalText(neg, ip, fp), Keys: []string{ip, fp}, Uns: neg}
	}
}

// jsonStr draws a string without quote characters or backslashes.
func jsonStr(r *Rng, max int) string {
	n := max
	if r.P(50) {
		n = r.N(max + 1)
	}
	b := make([]byte, n)
	const al = "abcdefghijklmnopqrstuvwxyz0123456789 ,:(){}[]_-."
	for i := range b {
		b[i] = al[r.N(len(al))]
	}
	return string(b)
}

func varLen(n int) []byte {
	var b []byte
	for {
		x := byte(n & 0x7f)
		n >>= 7
		if n != 0 {
			b = append(b, x|0x80)
			continue
		}
		return append(b, x)
	}
}

// encode gives type byte and body; containers use the given format unless it does not fit.
func (d *Doc) encode(large bool) (byte, []byte) {
	switch d.K {
	case 'o', 'a':
		if !large {
			if b, ok := d.container(false); ok {
				return map[byte]byte{'o': 0, 'a': 2}[d.K], b
			}
		}
		b, _ := d.container(true)
		return map[byte]byte{'o': 1, 'a': 3}[d.K], b
	case 'n':
		return 4, []byte{0}
	case 't':
		return 4, []byte{1}
	case 'f':
		return 4, []byte{2}
	case 'i':
		v, o := uint64(d.I), byte(0)
		if d.Uns {
			v, o = d.U, 1
		}
		switch d.W {
		case 16:
			return 5 + o, leBytes(v, 2)
		case 32:
			return 7 + o, leBytes(v, 4)
		}
		return 9 + o, leBytes(v, 8)
	case 'd':
		return 11, leBytes(math.Float64bits(d.F), 8)
	case 's':
		return 12, append(varLen(len(d.S)), d.S...)
	}
	var typ byte
	var pl []byte
	var y, mo, dd, h, m, s, us int
	switch d.K {
	case 'D':
		typ = tDate
		fmt.Sscanf(d.S, "%d-%d-%d", &y, &mo, &dd)
		pl = leBytes(uint64(((y*13+mo)<<5|dd)<<17)<<24, 8)
	case 'E':
		typ = tDateTime
		fmt.Sscanf(d.S, "%d-%d-%d %d:%d:%d.%d", &y, &mo, &dd, &h, &m, &s, &us)
		pl = leBytes(uint64(((y*13+mo)<<5|dd)<<17|h<<12|m<<6|s)<<24+uint64(us), 8)
	case 'T':
		typ = tTime
		neg := strings.HasPrefix(d.S, "-")
		fmt.Sscanf(strings.TrimPrefix(d.S, "-"), "%d:%d:%d.%d", &h, &m, &s, &us)
		v := int64(h<<12|m<<6|s)<<24 + int64(us)
		if neg {
			v = -v
		}
		pl = leBytes(uint64(v), 8)
	case 'M':
		typ = tNewDecimal
		ip, fp := d.Keys[0], d.Keys[1]
		pl = append([]byte{byte(len(ip) + len(fp)), byte(len(fp))}, EncodeDecimal(d.Uns, ip, fp)...)
	}
	return 15, append(append([]byte{typ}, varLen(len(pl))...), pl...)
}

func (d *Doc) container(large bool) ([]byte, bool) {
	w := 2
	if large {
		w = 4
	}
	n := len(d.Kids)
	head := 2 * w
	keyEnt := 0
	if d.K == 'o' {
		keyEnt = n * (w + 2)
	}
	valEnt := n * (w + 1)
	off := head + keyEnt + valEnt
	var keys, ents, data []byte
	if d.K == 'o' {
		for _, k := range d.Keys {
			keys = append(keys, leBytes(uint64(off), w)...)
			keys = append(keys, leBytes(uint64(len(k)), 2)...)
			off += len(k)
			data = append(data, k...)
		}
	}
	for _, c := range d.Kids {
		typ, b := c.encode(large)
		inline := typ == 4 || typ == 5 || typ == 6 || (large && (typ == 7 || typ == 8))
		ents = append(ents, typ)
		if inline {
			e := make([]byte, w)
			copy(e, b)
			ents = append(ents, e...)
			continue
		}
		if !large && off > 65535 {
			return nil, false
		}
		ents = append(ents, leBytes(uint64(off), w)...)
		off += len(b)
		data = append(data, b...)
	}
	if !large && off > 65535 {
		return nil, false
	}
	out := append(leBytes(uint64(n), w), leBytes(uint64(off), w)...)
	out = append(out, keys...)
	out = append(out, ents...)
	return append(out, data...), true
}

func (d *Doc) String() string {
	switch d.K {
	case 'o', 'a':
		return fmt.Sprintf("%c/%d", d.K, len(d.Kids))
	case 'i':
		if d.Uns {
			return strconv.FormatUint(d.U, 10)
		}
		return strconv.FormatInt(d.I, 10)
	case 'd':
		return strconv.FormatFloat(d.F, 'g', -1, 64)
	}
	return fmt.Sprintf("%c%.40q", d.K, d.S)
}

// Diff compares a parsed rendering with the document; "" if equal.
func (d *Doc) Diff(g *Doc) string {
	bad := func() string { return fmt.Sprintf("document has %s where %s is rendered", d, g) }
	switch d.K {
	case 'o', 'a':
		if g.K != d.K || len(g.Kids) != len(d.Kids) {
			return bad()
		}
		for i := range d.Kids {
			if d.K == 'o' && d.Keys[i] != g.Keys[i] {
				return fmt.Sprintf("key %q rendered as %q", d.Keys[i], g.Keys[i])
			}
			if s := d.Kids[i].Diff(g.Kids[i]); s != "" {
				return s
			}
		}
		return ""
	case 'n', 't', 'f':
		if g.K != d.K {
			return bad()
		}
		return ""
	case 'i':
		if g.K != '#' || g.S != d.String() {
			return bad()
		}
		return ""
	case 'd':
		if g.K != '#' {
			return bad()
		}
		f, err := strconv.ParseFloat(g.S, 64)
		if err != nil || math.Float64bits(f) != math.Float64bits(d.F) {
			return bad()
		}
		return ""
	case 's':
		if g.K != 's' || g.S != d.S {
			return bad()
		}
		return ""
	}
	want := d.S
	if d.K == 'T' || d.K == 'E' {
		if !strings.Contains(g.S, ".") {
			g = &Doc{K: g.K, S: g.S + ".000000"}
		}
	}
	if g.K != d.K && g.K != 's' {
		return bad()
	}
	if g.S != want {
		return bad()
	}
	return ""
}

// ParseJSONText parses a rendering: MySQL's JSON functions, or JSON text itself.
func ParseJSONText(s string) (*Doc, error) {
	p := &jp{s: s}
	if strings.HasPrefix(s, "'") {
		// top-level scalar: SQL string holding JSON text
		in, err := p.quoted()
		if err != nil {
			return nil, err
		}
		if p.i != len(s) {
			return nil, fmt.Errorf("trailing text")
		}
		return scalarJSON(in)
	}
	if strings.HasPrefix(s, "CAST(CAST(") {
		if !strings.HasSuffix(s, " AS JSON)") {
			return nil, fmt.Errorf("unterminated CAST")
		}
		p = &jp{s: strings.TrimSuffix(strings.TrimPrefix(s, "CAST("), " AS JSON)")}
	} else if s != "" && (s[0] == '{' || s[0] == '[' || s[0] == '"') {
		return plainJSON(s)
	}
	d, err := p.value()
	if err != nil {
		return nil, err
	}
	if p.i != len(p.s) {
		return nil, fmt.Errorf("trailing text at %d", p.i)
	}
	return d, nil
}

func scalarJSON(s string) (*Doc, error) {
	if len(s) >= 2 && s[0] == '"' && s[len(s)-1] == '"' {
		return &Doc{K: 's', S: s[1 : len(s)-1]}, nil
	}
	switch s {
	case "null":
		return &Doc{K: 'n'}, nil
	case "true":
		return &Doc{K: 't'}, nil
	case "false":
		return &Doc{K: 'f'}, nil
	}
	if _, err := strconv.ParseFloat(s, 64); err != nil {
		return nil, fmt.Errorf("not a JSON scalar: %.40q", s)
	}
	return &Doc{K: '#', S: s}, nil
}

func plainJSON(s string) (*Doc, error) {
	dec := json.NewDecoder(bytes.NewReader([]byte(s)))
	dec.UseNumber()
	var rd func() (*Doc, error)
	rd = func() (*Doc, error) {
		t, err := dec.Token()
		if err != nil {
			return nil, err
		}
		switch x := t.(type) {
		case nil:
			return &Doc{K: 'n'}, nil
		case bool:
			if x {
				return &Doc{K: 't'}, nil
			}
			return &Doc{K: 'f'}, nil
		case json.Number:
			return &Doc{K: '#', S: x.String()}, nil
		case string:
			return &Doc{K: 's', S: x}, nil
		case json.Delim:
			d := &Doc{K: 'a'}
			if x == '{' {
				d.K = 'o'
			}
			for dec.More() {
				if d.K == 'o' {
					k, err := dec.Token()
					if err != nil {
						return nil, err
					}
					d.Keys = append(d.Keys, k.(string))
				}
				c, err := rd()
				if err != nil {
					return nil, err
				}
				d.Kids = append(d.Kids, c)
			}
			_, err := dec.Token()
			return d, err
		}
		return nil, fmt.Errorf("bad token")
	}
	return rd()
}

type jp struct {
	s string
	i int
}

func (p *jp) quoted() (string, error) {
	if p.i >= len(p.s) || p.s[p.i] != '\'' {
		return "", fmt.Errorf("quote expected at %d", p.i)
	}
	j := strings.IndexByte(p.s[p.i+1:], '\'')
	if j < 0 {
		return "", fmt.Errorf("unterminated string")
	}
	t := p.s[p.i+1 : p.i+1+j]
	p.i += j + 2
	return t, nil
}

func (p *jp) lit(s string) bool {
	if strings.HasPrefix(p.s[p.i:], s) {
		p.i += len(s)
		return true
	}
	return false
}

func (p *jp) value() (*Doc, error) {
	switch {
	case p.lit("JSON_OBJECT("), p.lit("JSON_ARRAY("):
		d := &Doc{K: 'a'}
		if p.s[p.i-2] == 'T' {
			d.K = 'o'
		}
		if p.lit(")") {
			return d, nil
		}
		for {
			if d.K == 'o' {
				k, err := p.quoted()
				if err != nil {
					return nil, err
				}
				if !p.lit(",") {
					return nil, fmt.Errorf("comma expected at %d", p.i)
				}
				d.Keys = append(d.Keys, k)
			}
			c, err := p.value()
			if err != nil {
				return nil, err
			}
			d.Kids = append(d.Kids, c)
			if p.lit(",") {
				continue
			}
			if p.lit(")") {
				return d, nil
			}
			return nil, fmt.Errorf("',' or ')' expected at %d", p.i)
		}
	case p.lit("CAST("):
		t, err := p.quoted()
		if err != nil {
			return nil, err
		}
		k := byte(0)
		switch {
		case p.lit(" AS DATETIME(6))"), p.lit(" AS DATETIME)"):
			k = 'E'
		case p.lit(" AS DATE)"):
			k = 'D'
		case p.lit(" AS TIME(6))"), p.lit(" AS TIME)"):
			k = 'T'
		case p.lit(" AS DECIMAL("):
			k = 'M'
			j := strings.Index(p.s[p.i:], "))")
			if j < 0 {
				return nil, fmt.Errorf("bad DECIMAL cast")
			}
			p.i += j + 2
		default:
			return nil, fmt.Errorf("unknown cast at %d", p.i)
		}
		return &Doc{K: k, S: t}, nil
	case p.i < len(p.s) && p.s[p.i] == '\'':
		t, err := p.quoted()
		return &Doc{K: 's', S: t}, err
	}
	j := p.i
	for j < len(p.s) && p.s[j] != ',' && p.s[j] != ')' {
		j++
	}
	d, err := scalarJSON(p.s[p.i:j])
	if err == nil && d.K == 's' {
		err = fmt.Errorf("unquoted string")
	}
	p.i = j
	return d, err
}
