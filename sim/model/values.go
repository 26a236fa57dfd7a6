package model

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
)

// Col is a column: kind, parameters, and what the table mapper says of it.
type Col struct {
	K    string `json:"k"`
	A    int    `json:"a,omitempty"`
	B    int    `json:"b,omitempty"`
	U    bool   `json:"u,omitempty"` // unsigned according to the mapper
	N    bool   `json:"n,omitempty"` // nullable
	Name string `json:"name"`
}

// Want is what a cell must be delivered as.
type Want struct {
	Null, Absent bool
	Type         int
	TypeName     string
	Name         string
	Mode         int // 0 exact text, 1 float32, 2 float64, 3 JSON document
	Text         []byte
	Bits         uint64
	Doc          *Doc
	Enum         bool // ENUM or SET, logged as a string type
}

const (
	tTiny       = 1
	tShort      = 2
	tLong       = 3
	tFloat      = 4
	tDouble     = 5
	tTimestamp  = 7
	tLongLong   = 8
	tInt24      = 9
	tDate       = 10
	tTime       = 11
	tDateTime   = 12
	tYear       = 13
	tNewDate    = 14
	tVarchar    = 15
	tBit        = 16
	tTimestamp2 = 17
	tDateTime2  = 18
	tTime2      = 19
	tJSON       = 245
	tNewDecimal = 246
	tTinyBlob   = 249
	tMediumBlob = 250
	tLongBlob   = 251
	tBlob       = 252
	tVarString  = 253
	tString     = 254
	tGeometry   = 255
)

// typeNames are the documented names of column types.
var typeNames = map[int]string{
	tTiny: "Tiny", tShort: "Short", tLong: "Long", tFloat: "Float", tDouble: "Double",
	tTimestamp: "Timestamp", tLongLong: "LongLong", tInt24: "Int24", tDate: "Date", tTime: "Time",
	tDateTime: "DateTime", tYear: "Year", tNewDate: "NewDate", tVarchar: "Varchar", tBit: "Bit",
	tTimestamp2: "Timestamp2", tDateTime2: "DateTime2", tTime2: "Time2", tJSON: "JSON",
	tNewDecimal: "NewDecimal", tTinyBlob: "TinyBlob", tMediumBlob: "MediumBlob", tLongBlob: "LongBlob", tBlob: "Blob", tVarString: "VarString", tString: "String", tGeometry: "Geometry",
}

// Wire gives the type byte and the metadata bytes of the table map.
func (c *Col) Wire() (byte, []byte) {
	switch c.K {
	case "tiny":
		return tTiny, nil
	case "short":
		return tShort, nil
	case "int24":
		return tInt24, nil
	case "long":
		return tLong, nil
	case "longlong":
		return tLongLong, nil
	case "float":
		return tFloat, []byte{4}
	case "double":
		return tDouble, []byte{8}
	case "year":
		return tYear, nil
	case "bit":
		return tBit, []byte{byte(c.A % 8), byte(c.A / 8)}
	case "enum":
		return tString, []byte{247, byte(enumSize(c.A))}
	case "set":
		return tString, []byte{248, byte(setSize(c.A))}
	case "decimal":
		return tNewDecimal, []byte{byte(c.A), byte(c.B)}
	case "date":
		return tDate, nil
	case "newdate":
		return tNewDate, nil
	case "time":
		return tTime, nil
	case "datetime":
		return tDateTime, nil
	case "timestamp":
		return tTimestamp, nil
	case "time2":
		return tTime2, []byte{byte(c.A)}
	case "datetime2":
		return tDateTime2, []byte{byte(c.A)}
	case "timestamp2":
		return tTimestamp2, []byte{byte(c.A)}
	case "char":
		return tString, []byte{byte(tString ^ (c.A & 0x300 >> 4)), byte(c.A)}
	case "varchar":
		return tVarchar, []byte{byte(c.A), byte(c.A >> 8)}
	case "varstring":
		return tVarString, []byte{byte(c.A), byte(c.A >> 8)}
	case "blob":
		return tBlob, []byte{byte(c.A)}
	case "tinyblob", "mediumblob", "longblob": // not used in binary logs
		return blobTypes[c.K], []byte{byte(c.A)}
	case "geometry":
		return tGeometry, []byte{byte(c.A)}
	case "json":
		return tJSON, []byte{4}
	}
	panic("unknown column kind " + c.K)
}

var blobTypes = map[string]byte{"tinyblob": tTinyBlob, "mediumblob": tMediumBlob, "longblob": tLongBlob}

func enumSize(n int) int {
	if n > 255 {
		return 2
	}
	return 1
}

func setSize(n int) int {
	s := (n + 7) / 8
	if s > 4 {
		s = 8
	}
	return s
}

// IsStr: the kinds C13 is about.
func (c *Col) IsStr() bool {
	switch c.K {
	case "char", "varchar", "varstring", "blob", "tinyblob", "mediumblob", "longblob", "geometry":
		return true
	}
	return false
}

func (c *Col) intWidth() int {
	switch c.K {
	case "tiny":
		return 1
	case "short":
		return 2
	case "int24":
		return 3
	case "long":
		return 4
	case "longlong":
		return 8
	}
	return 0
}

func leBytes(v uint64, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(v)
		v >>= 8
	}
	return b
}

func beBytes(v uint64, n int) []byte {
	b := make([]byte, n)
	for i := n - 1; i >= 0; i-- {
		b[i] = byte(v)
		v >>= 8
	}
	return b
}

// Huge seeds: values of 16 MiB and more, as far as the type allows.
const Huge = int64(1) << 61

func hugeLen(seed int64) (int, bool) {
	if seed < Huge || seed >= Huge+1<<20 {
		return 0, false
	}
	r := NewRng(uint64(seed), 78)
	return r.One(1<<24-1, 1<<24, 1<<24+1, 1<<24-1-r.N(150), 1<<24-1-r.N(150), 1<<24-1-r.N(150), 1<<24+r.N(1<<18), 1<<25-1-r.N(300)), true
}

func hugeText(seed int64, n int) []byte {
	r := NewRng(uint64(seed), 79)
	b := make([]byte, n)
	x := r.U64()
	text := r.P(50)
	for i := 0; i < n; i++ {
		if i%4096 == 0 {
			x = r.U64()
		}
		x = x*6364136223846793005 + 1442695040888963407
		b[i] = byte(x >> 56)
		if text {
			b[i] = 'a' + b[i]%26
		}
	}
	return b
}

// maxCell bounds the size of ordinary random strings.
const maxCell = 700

// Cell encodes the value with the given seed (0 is the simplest value) and says
// how it must be delivered. loc is the process's local time zone.
func (c *Col) Cell(seed int64, loc *time.Location) (enc []byte, w Want) {
	typ, _ := c.Wire()
	w.Type = int(typ)
	w.TypeName = typeNames[w.Type]
	w.Name = c.Name
	r := NewRng(uint64(seed), 77)
	simple := seed == 0
	text := func(s string) { w.Text = []byte(s) }
	if n := c.intWidth(); n > 0 {
		bits := uint(n * 8)
		var v uint64
		if !simple {
			switch r.N(7) {
			case 0:
				v = 0
			case 1:
				v = 1
			case 2:
				v = ^uint64(0)
			case 3:
				v = 1 << (bits - 1)
			case 4:
				v = 1<<(bits-1) - 1
			case 5:
				v = uint64(r.N(1000))
			default:
				v = r.U64()
			}
		}
		if bits < 64 {
			v &= 1<<bits - 1
		}
		if c.U {
			text(strconv.FormatUint(v, 10))
		} else {
			text(strconv.FormatInt(int64(v<<(64-bits))>>(64-bits), 10))
		}
		return leBytes(v, n), w
	}
	switch c.K {
	case "float":
		b := uint32(0)
		if !simple {
			b = uint32(r.U64())
			switch r.N(6) {
			case 0:
				b = math.Float32bits(float32(r.N(20000)-10000) / 8)
			case 1:
				b = math.Float32bits(math.MaxFloat32)
			case 2:
				b = 1
			case 3:
				b = 0x80000000
			}
			if b&0x7f800000 == 0x7f800000 {
				b &^= 0x40000000
			}
		}
		w.Mode, w.Bits = 1, uint64(b)
		return leBytes(uint64(b), 4), w
	case "double":
		b := uint64(0)
		if !simple {
			b = r.U64()
			switch r.N(6) {
			case 0:
				b = math.Float64bits(float64(r.N(20000)-10000) / 16)
			case 1:
				b = math.Float64bits(math.MaxFloat64)
			case 2:
				b = 1
			case 3:
				b = 1 << 63
			}
			if b&(0x7ff<<52) == 0x7ff<<52 {
				b &^= 1 << 62
			}
		}
		w.Mode, w.Bits = 2, b
		return leBytes(b, 8), w
	case "year":
		v := 0
		if !simple {
			v = r.One(0, 1, 255, r.N(256))
		}
		if v == 0 {
			text("0000")
		} else {
			text(strconv.Itoa(1900 + v))
		}
		return []byte{byte(v)}, w
	case "bit":
		n := (c.A + 7) / 8
		b := make([]byte, n)
		if !simple {
			b = r.Bytes(n)
			if c.A%8 != 0 {
				b[0] &= 1<<uint(c.A%8) - 1
			}
		}
		w.Text = b
		return append([]byte(nil), b...), w
	case "enum":
		w.Enum = true
		v := 0
		if !simple {
			v = r.One(0, 1, c.A, r.Range(0, c.A))
		}
		text(strconv.Itoa(v))
		return leBytes(uint64(v), enumSize(c.A)), w
	case "set":
		w.Enum = true
		v := uint64(0)
		if !simple {
			v = r.U64()
			if r.P(20) {
				v = ^uint64(0)
			}
			if c.A < 64 {
				v &= 1<<uint(c.A) - 1
			}
		}
		text(strconv.FormatUint(v, 10))
		return leBytes(v, setSize(c.A)), w
	case "decimal":
		return c.decimalCell(r, simple, w)
	case "date", "newdate":
		y, m, d := 0, 0, 0
		if !simple {
			y, m, d = randDate(r)
		}
		text(fmt.Sprintf("%04d-%02d-%02d", y, m, d))
		return leBytes(uint64(y<<9|m<<5|d), 3), w
	case "time":
		h, m, s, neg := 0, 0, 0, false
		if !simple {
			h, m, s, neg = randTime(r)
		}
		v := int64(h*10000 + m*100 + s)
		sign := ""
		if neg && v != 0 {
			v, sign = -v, "-"
		}
		text(fmt.Sprintf("%s%02d:%02d:%02d", sign, h, m, s))
		return leBytes(uint64(v), 3), w
	case "time2":
		h, m, s, neg, us := 0, 0, 0, false, 0
		if !simple {
			h, m, s, neg = randTime(r)
			us = randFrac(r, c.A)
			if h == 838 && m == 59 && s == 59 {
				us = 0
			}
		}
		nr := int64(h<<12|m<<6|s)<<24 + int64(us)
		sign := ""
		if neg && nr != 0 {
			nr, sign = -nr, "-"
		}
		ip, fp := nr>>24, nr%(1<<24)
		enc = beBytes(uint64(ip+0x800000), 3)
		switch c.A {
		case 1, 2:
			enc = append(enc, byte(int8(fp/10000)))
		case 3, 4:
			enc = append(enc, beBytes(uint64(int16(fp/100)), 2)...)
		case 5, 6:
			enc = beBytes(uint64(nr+0x800000000000), 6)
		}
		text(fmt.Sprintf("%s%02d:%02d:%02d%s", sign, h, m, s, fracText(us, c.A)))
		return enc, w
	case "datetime":
		y, mo, d, h, m, s := 0, 0, 0, 0, 0, 0
		if !simple {
			y, mo, d = randDate(r)
			h, m, s = r.N(24), r.N(60), r.N(60)
		}
		v := uint64(y*10000+mo*100+d)*1000000 + uint64(h*10000+m*100+s)
		text(fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d", y, mo, d, h, m, s))
		return leBytes(v, 8), w
	case "datetime2":
		y, mo, d, h, m, s, us := 0, 0, 0, 0, 0, 0, 0
		if !simple {
			y, mo, d = randDate(r)
			h, m, s = r.N(24), r.N(60), r.N(60)
			us = randFrac(r, c.A)
		}
		v := uint64(((y*13+mo)<<5|d)<<17|(h<<12|m<<6|s)) + 0x8000000000
		text(fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d%s", y, mo, d, h, m, s, fracText(us, c.A)))
		return append(beBytes(v, 5), fracBytes(us, c.A)...), w
	case "timestamp", "timestamp2":
		v, us := uint32(0), 0
		if !simple {
			v = uint32(r.U64() >> 33)
			switch r.N(6) {
			case 0:
				v = 0
			case 1:
				v = 1
			case 2:
				v = math.MaxInt32
			}
			if v != 0 && c.K == "timestamp2" {
				us = randFrac(r, c.A)
			}
		}
		s := "0000-00-00 00:00:00"
		if v != 0 {
			s = time.Unix(int64(v), 0).In(loc).Format("2006-01-02 15:04:05")
		}
		if c.K == "timestamp" {
			text(s)
			return leBytes(uint64(v), 4), w
		}
		text(s + fracText(us, c.A))
		return append(beBytes(uint64(v), 4), fracBytes(us, c.A)...), w
	case "char", "varchar", "varstring":
		b := strBytes(r, simple, c.A)
		w.Text = b
		if c.A > 255 {
			enc = leBytes(uint64(len(b)), 2)
		} else {
			enc = []byte{byte(len(b))}
		}
		return append(enc, b...), w
	case "blob", "tinyblob", "mediumblob", "longblob", "geometry":
		max := 1<<uint(8*c.A) - 1
		if c.B > 0 && max > c.B {
			max = c.B
		}
		var b []byte
		if n, ok := hugeLen(seed); ok {
			if n > max {
				n = max
			}
			b = hugeText(seed, n)
		} else {
			b = strBytes(r, simple, max)
		}
		w.Text = b
		return append(leBytes(uint64(len(b)), c.A), b...), w
	case "json":
		doc, raw := GenJSON(r, simple)
		if n, ok := hugeLen(seed); ok {
			t := hugeText(seed, n)
			for i := range t {
				t[i] = 'a' + t[i]%26
			}
			inner := &Doc{K: 'o', Keys: []string{"h", "k"}, Kids: []*Doc{{K: 's', S: string(t)}, {K: 's', S: "end"}}}
			doc = &Doc{K: 'o', Keys: []string{"a", "b"}, Kids: []*Doc{inner, {K: 'i', I: int64(seed), W: 64}}}
			typ, body := doc.encode(true)
			raw = append([]byte{typ}, body...)
		}
		w.Mode, w.Doc = 3, doc
		return append(leBytes(uint64(len(raw)), 4), raw...), w
	}
	panic("unknown column kind " + c.K)
}

// strBytes draws a string of at most max bytes; lengths sit on the boundaries.
func strBytes(r *Rng, simple bool, max int) []byte {
	if simple {
		return []byte{}
	}
	lim := max
	if lim > maxCell {
		lim = maxCell
	}
	n := 0
	switch r.N(8) {
	case 0:
		n = 0
	case 1:
		n = 1
	case 2:
		n = 255
	case 3:
		n = 256
	case 4:
		n = max
		if n > 5000 && r.N(12) != 0 {
			n = lim
		}
		if n > 70000 {
			n = 65535 + r.N(4)
		}
	default:
		n = r.N(lim + 1)
		if n > 24 && r.P(60) {
			n = r.N(24)
		}
	}
	if n > max {
		n = max
	}
	b := r.Bytes(n)
	switch r.N(3) {
	case 0: // printable
		for i := range b {
			b[i] = ' ' + b[i]%95
		}
	case 1: // valid UTF-8 with multi-byte characters and controls
		var o []byte
		for i := 0; len(o) < n; i++ {
			x := b[i%n]
			switch x % 5 {
			case 0:
				o = append(o, string(rune(0x4e00+int(x)*7))...)
			case 1:
				o = append(o, string(rune(0xe0+int(x)%64))...)
			case 2:
				o = append(o, "\"\\\n\t<>&\x00\x1f'`"[int(x)%11])
			default:
				o = append(o, 'a'+x%26)
			}
		}
		if len(o) > n {
			o = o[:n]
			for !utf8.Valid(o) && len(o) > 0 {
				o = o[:len(o)-1]
			}
			for len(o) < n {
				o = append(o, '.')
			}
		}
		b = o
	}
	return b
}

func randDate(r *Rng) (y, m, d int) {
	switch r.N(6) {
	case 0:
		return 0, 0, 0
	case 1:
		return 9999, 12, 31
	case 2:
		return 1000, 1, 1
	case 3:
		return r.N(10000), 0, 0
	}
	return r.N(10000), r.Range(1, 12), r.Range(1, 31)
}

func randTime(r *Rng) (h, m, s int, neg bool) {
	neg = r.P(50)
	switch r.N(6) {
	case 0:
		return 838, 59, 59, neg
	case 1:
		return 0, r.N(60), r.N(60), neg
	case 2:
		return 0, 0, r.N(2), neg
	case 3:
		return r.N(24), r.N(60), r.N(60), neg
	}
	return r.N(839), r.N(60), r.N(60), neg
}

func randFrac(r *Rng, dec int) int {
	if dec == 0 {
		return 0
	}
	unit := 1
	for i := dec; i < 6; i++ {
		unit *= 10
	}
	n := 1000000 / unit
	switch r.N(5) {
	case 0:
		return 0
	case 1:
		return (n - 1) * unit
	case 2:
		return unit
	}
	return r.N(n) * unit
}

func fracText(us, dec int) string {
	if dec == 0 {
		return ""
	}
	return "." + fmt.Sprintf("%06d", us)[:dec]
}

func fracBytes(us, dec int) []byte {
	switch dec {
	case 1, 2:
		return []byte{byte(us / 10000)}
	case 3, 4:
		return beBytes(uint64(us/100), 2)
	case 5, 6:
		return beBytes(uint64(us), 3)
	}
	return nil
}

var digBytes = [10]int{0, 1, 1, 2, 2, 3, 3, 4, 4, 4}

// EncodeDecimal writes MySQL's binary DECIMAL(p,s); ip and fp hold exactly p-s and s digits.
func EncodeDecimal(neg bool, ip, fp string) []byte {
	var b []byte
	group := func(d string) {
		if d == "" {
			return
		}
		v, _ := strconv.ParseUint(d, 10, 32)
		b = append(b, beBytes(v, digBytes[len(d)])...)
	}
	lead := len(ip) % 9
	group(ip[:lead])
	for i := lead; i < len(ip); i += 9 {
		group(ip[i : i+9])
	}
	i := 0
	for ; i+9 <= len(fp); i += 9 {
		group(fp[i : i+9])
	}
	group(fp[i:])
	if neg {
		for i := range b {
			b[i] ^= 0xff
		}
	}
	b[0] ^= 0x80
	return b
}

// DecimalText is the canonical text.
func DecimalText(neg bool, ip, fp string) string {
	t := strings.TrimLeft(ip, "0")
	if t == "" {
		t = "0"
	}
	if fp != "" {
		t += "." + fp
	}
	if neg {
		t = "-" + t
	}
	return t
}

func randDigits(r *Rng, n int) string {
	b := make([]byte, n)
	mode := r.N(6)
	zl := r.N(n + 1)
	for i := range b {
		b[i] = byte('0' + r.N(10))
		switch {
		case mode == 0:
			b[i] = '0'
		case mode == 1:
			b[i] = '9'
		case mode == 2 && i < zl:
			b[i] = '0'
		case mode == 3 && i >= zl:
			b[i] = '0'
		case mode == 4 && r.P(80):
			b[i] = '0'
		}
	}
	return string(b)
}

func (c *Col) decimalCell(r *Rng, simple bool, w Want) ([]byte, Want) {
	ip, fp, neg := strings.Repeat("0", c.A-c.B), strings.Repeat("0", c.B), false
	if !simple {
		ip, fp, neg = randDigits(r, c.A-c.B), randDigits(r, c.B), r.P(50)
		if strings.Trim(ip+fp, "0") == "" {
			neg = false
		}
	}
	w.Text = []byte(DecimalText(neg, ip, fp))
	return EncodeDecimal(neg, ip, fp), w
}

// Check compares a delivered cell with what it must be; "" if it matches.
func (w *Want) Check(name string, typ int, isEmpty bool, data []byte) string {
	if name != w.Name {
		return fmt.Sprintf("column name %q, want %q", name, w.Name)
	}
	if typ != w.Type {
		return fmt.Sprintf("column %q has type %d, want %d", name, typ, w.Type)
	}
	if isEmpty != w.Absent {
		return fmt.Sprintf("column %q absent flag %v, want %v", name, isEmpty, w.Absent)
	}
	if w.Absent {
		return ""
	}
	return w.CheckData(name, data)
}

// CheckData compares only the value.
func (w *Want) CheckData(name string, data []byte) string {
	if w.Null {
		if data != nil {
			return fmt.Sprintf("column %q holds %.80q, want NULL", name, data)
		}
		return ""
	}
	if data == nil {
		return fmt.Sprintf("column %q is NULL, want a value (%s)", name, w)
	}
	switch w.Mode {
	case 0:
		if !bytes.Equal(data, w.Text) {
			return fmt.Sprintf("column %q (%s) holds %.80q (%d bytes), want %.80q (%d bytes)", name, w.TypeName, data, len(data), w.Text, len(w.Text))
		}
	case 1, 2:
		s := string(data)
		if strings.Trim(s, "-.0123456789") != "" || s == "" {
			return fmt.Sprintf("column %q (%s) holds %.80q, want plain decimal text", name, w.TypeName, s)
		}
		if w.Mode == 1 {
			f, err := strconv.ParseFloat(s, 32)
			if err != nil || math.Float32bits(float32(f)) != uint32(w.Bits) {
				return fmt.Sprintf("column %q (Float) holds %.80q, want text of %x", name, s, w.Bits)
			}
		} else {
			f, err := strconv.ParseFloat(s, 64)
			if err != nil || math.Float64bits(f) != w.Bits {
				return fmt.Sprintf("column %q (Double) holds %.80q, want text of %x", name, s, w.Bits)
			}
		}
	case 3:
		got, err := ParseJSONText(string(data))
		if err != nil {
			return fmt.Sprintf("column %q (JSON) holds %.120q: %v", name, data, err)
		}
		if d := w.Doc.Diff(got); d != "" {
			return fmt.Sprintf("column %q (JSON) holds %.120q: %s", name, data, d)
		}
	}
	return ""
}

func (w *Want) String() string {
	switch {
	case w.Absent:
		return "absent"
	case w.Null:
		return "NULL"
	case w.Mode == 0:
		return fmt.Sprintf("%.60q", w.Text)
	case w.Mode == 3:
		return "JSON " + w.Doc.String()
	}
	return fmt.Sprintf("bits %x", w.Bits)
}

var _ = binary.LittleEndian

// Class of the value: str (verbatim bytes), int, or val.
func (w *Want) Class() string {
	switch w.Type {
	case tVarchar, tVarString, tTinyBlob, tMediumBlob, tLongBlob, tBlob, tGeometry:
		return "str"
	case tString:
		if w.Enum {
			return "val"
		}
		return "str"
	case tTiny, tShort, tInt24, tLong, tLongLong:
		return "int"
	}
	return "val"
}

// TypeName is the name of a binlog column type, "" if it has none.
func TypeName(t int) string { return typeNames[t] }

// LittleMeta: the two metadata bytes are one little-endian number.
func (c *Col) LittleMeta() bool {
	typ, _ := c.Wire()
	switch int(typ) {
	case tVarchar, tVarString, tBit:
		return true
	}
	return false
}
