// Generators: values, documents, texts in the four formats.
package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

var keyPool = []string{"a", "b", "c", "A", "B", "ab", "aB", "0", "1", "2", "", "k\"q", "x\\y", "n\nl", "é", "É", "中", "😀", "\x01", "a/b", "t\tb", "\\n", "é\"", "key", "Key", `k\"q`, `x\\y`, `n\nl`, `\u00e9`, `\u0001`}
var plainKeys = []string{"a", "b", "c", "d", "A", "B", "ab", "key"}

func (m *M) key() string {
	if m.icase && m.fam == 0 {
		m.fam = 1 + m.rng.Intn(2*len(foldKeys))
	}
	if m.icase && m.fam <= len(foldKeys) && m.coin() { // names from one neighbourhood, so that they meet
		return foldKeys[(m.fam+m.rng.Intn(5))%len(foldKeys)]
	}
	if m.small {
		return plainKeys[m.rng.Intn(3)]
	}
	if m.rng.Intn(3) > 0 {
		return plainKeys[m.rng.Intn(len(plainKeys))]
	}
	return keyPool[m.rng.Intn(len(keyPool))]
}

// names that differ in case only, some of them in length too
var foldKeys = []string{"s", "S", "ſ", "k", "K", "\u212a", "å", "Å", "\u212b", "ß", "ẞ", "σ", "ς", "Σ", "µ", "μ", "Μ", "ж", "Ж", "ÿ", "Ÿ", "ａ", "Ａ", "āb", "ĀB", "straße", "ſtraẞe"}

var strPool = []string{"", "a", "hello", "true", "TRUE", "tRuE", "false", "0", "123", "-45", "9223372036854775807", "-9223372036854775808",
	"9223372036854775808", "12.5", "-0.25", "1e3", "3.14159", "abc", "12abc", "-", "2020-01-02 03:00:00", "2020/02/29 12:00:00", "2021-06-07T18:00:00Z",
	"2021-02-29 00:00:00", "1999-12-31 23:48:45", "10s", "1h30m", "-5ms", "2h45m10s", "7us", "x\"y", "back\\slash", "nl\nx", "tab\t", "\r", "\b\f", "é", "中文", "😀", "\x01\x1f", "\x7f",
	"a/b", "</script>", "\u2028", "u\\u0041", "\\", "\"", "\\\"", "quote'", "\U0010ffff", "ÿ", "Ā", "\x00", "null", "a b", "{}", "[1]", "007", "1 ", " 1", "x12"}

func (m *M) str() string {
	if m.small {
		return []string{"a", "b", "", "1"}[m.rng.Intn(4)]
	}
	switch m.rng.Intn(13) {
	case 12: // a run of one character
		return m.pick([]string{"", "a", "\"", "x"}) + strings.Repeat(m.pick([]string{"\\", "\\", "\\", "\"", "\n", " ", "\x01", "é", "/", "\\\""}), 1+m.rng.Intn(20)) + m.pick([]string{"", "", "b", "\"", "n"})
	case 0:
		n := m.rng.Intn(12)
		b := make([]byte, 0, 40)
		for i := 0; i < n; i++ {
			switch m.rng.Intn(5) {
			case 0:
				b = append(b, byte(m.rng.Intn(128)))
			case 1:
				b = utf8.AppendRune(b, rune(0x80+m.rng.Intn(0x700)))
			case 2:
				r := rune(0x800 + m.rng.Intn(0xf000))
				if r >= 0xd800 && r <= 0xdfff {
					r = 0x4e2d
				}
				b = utf8.AppendRune(b, r)
			case 3:
				b = utf8.AppendRune(b, rune(0x10000+m.rng.Intn(0xfffff)))
			default:
				b = append(b, "\"\\/bfnrtu\n\t'<>&"[m.rng.Intn(15)])
			}
		}
		return string(b)
	case 1:
		if m.rng.Intn(8) == 0 {
			return strings.Repeat(m.pick([]string{"x", "y\"", "é"}), []int{100, 128, 255, 256, 257, 300, 511, 513, 700}[m.rng.Intn(9)])
		}
		return strings.Repeat("x", []int{15, 16, 31, 32, 33, 63, 64, 65}[m.rng.Intn(8)])
	}
	return strPool[m.rng.Intn(len(strPool))]
}

var intPool = []int64{0, 1, -1, 5, -31, -32, -33, 127, 128, -127, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 2147483647, 2147483648, -2147483648, -2147483649,
	4294967295, 4294967296, 1 << 53, 1<<53 + 1, -(1<<53 + 1), math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, 1 << 62, 1<<60 + 1<<36 + 1, -(1<<60 + 1<<36 + 1), 1<<54 + 1<<30 + 1, 1000000007, 1 << 24, 1<<24 + 1}

func (m *M) int() int64 {
	if m.small {
		return int64(m.rng.Intn(3))
	}
	if m.rng.Intn(3) == 0 {
		v := int64(m.rng.Uint64() >> uint(m.rng.Intn(64)))
		if m.rng.Intn(2) == 0 {
			v = -v
		}
		return v
	}
	return intPool[m.rng.Intn(len(intPool))]
}

var dblPool = []float64{0, math.Copysign(0, -1), 1, -1, 0.5, -0.5, 1.5, 2.75, 3.14, 0.1, 1e21, 1e20, 1e-7, 123456789.125, 1e15, 1e16, 4503599627370497.5, 9007199254740993, 1e100, -2.5e-30, 16777217, 1e-5, 100, 43831.5, 9.2e18, -9.2e18, 0.3, 65504}

func (m *M) dbl() float64 {
	if m.small {
		return float64(m.rng.Intn(5)) / 2
	}
	switch m.rng.Intn(5) {
	case 0:
		return (m.rng.Float64() - 0.5) * math.Pow(10, float64(m.rng.Intn(40)-20))
	case 1:
		return float64(m.rng.Intn(2000)-1000) / 8
	}
	return dblPool[m.rng.Intn(len(dblPool))]
}

func (m *M) flt() float32 {
	if m.small {
		return float32(m.rng.Intn(5)) / 2
	}
	pool := []float32{0, 1, -1, 0.5, 0.1, 3.14, 16777216, -2.5, 1e10, 1e-10, 65504, float32(math.Copysign(0, -1))}
	return pool[m.rng.Intn(len(pool))]
}

// a date-time: a multiple of 1/1024 day
func (m *M) dt() float64 {
	if m.small {
		return 40000 + float64(m.rng.Intn(2))
	}
	day := 30000 + m.rng.Intn(30000)
	if m.rng.Intn(10) == 0 { // seconds no longer fit 31 or 32 bits
		day = []int{50423, 50424, 50425, 75278, 75279, 75280, 90000}[m.rng.Intn(7)]
	}
	return float64(day) + float64([]int{0, 0, 512, 1, 768, 1023, 8, m.rng.Intn(1024)}[m.rng.Intn(8)])/1024
}

func (m *M) bytes() []byte {
	if m.small {
		return [][]byte{{}, {1}, {1, 2}, {1, 3}}[m.rng.Intn(4)]
	}
	n := []int{0, 1, 2, 3, 4, 5, 8, 12, 16, 17, 20}[m.rng.Intn(11)]
	b := make([]byte, n)
	m.rng.Read(b)
	return b
}

// idBytes often has the length of an object id or of a decimal
func (m *M) idBytes() []byte {
	b := m.bytes()
	if n := m.rng.Intn(4); n > 1 {
		b = make([]byte, 4*n+4) // 12 or 16
		m.rng.Read(b)
	}
	return b
}

// profile of leaves a document may hold
type Prof struct {
	Leaves []string
	Keys   []string // nil: the key() mix
	Depth  int
	Width  int
	Wide   int // one in Wide containers is wide (0: none)
	Str    func() string
	Root   string // "", obj, arr, any
}

var leavesAll = []string{"str", "str", "int", "int", "flt", "dbl", "dt", "bin", "ext", "null", "true", "false", "nan", "inf"}
var leavesJson = []string{"str", "str", "int", "dbl", "null", "true", "false"}

func (m *M) leaf(t string, pf *Prof) *D {
	switch t {
	case "str":
		if pf != nil && pf.Str != nil {
			return Dstr(pf.Str())
		}
		return Dstr(m.str())
	case "int":
		return Dint(m.int())
	case "flt":
		return Dflt(m.flt())
	case "dbl":
		return Ddbl(m.dbl())
	case "dt":
		return Ddt(m.dt())
	case "bin":
		return Dbin(m.bytes())
	case "ext":
		x := m.rng.Intn(128)
		return Dext(x, m.bytes())
	case "tsp":
		return &D{T: "tsp", P: i64(m.int())}
	case "oid":
		b := make([]byte, 12)
		m.rng.Read(b)
		return &D{T: "oid", P: b}
	case "dec":
		b := make([]byte, 16)
		m.rng.Read(b)
		return &D{T: "dec", P: b}
	case "sub":
		return &D{T: "sub", X: []int{1, 3, 4, 5, 6, 128}[m.rng.Intn(6)], P: m.bytes()}
	}
	return Dconst(t)
}

// foldOf: one name for all the names that differ in letter case only
func foldOf(k string) string {
	return strings.Map(func(c rune) rune {
		min := c
		for r := unicode.SimpleFold(c); r != c; r = unicode.SimpleFold(r) {
			if r < min {
				min = r
			}
		}
		return min
	}, k)
}

func (m *M) doc(pf *Prof) *D {
	if pf.Wide == 0 && pf.Keys == nil && m.rng.Intn(4) == 0 {
		pf.Wide = 6
	}
	return m.docN(pf, pf.Depth, pf.Root)
}

func (m *M) docN(pf *Prof, depth int, root string) *D {
	t := root
	if t == "" || t == "any" {
		c := m.rng.Intn(10)
		switch {
		case depth <= 0 || c < 4:
			return m.leaf(pf.Leaves[m.rng.Intn(len(pf.Leaves))], pf)
		case c < 7:
			t = "obj"
		default:
			t = "arr"
		}
	}
	n := m.rng.Intn(pf.Width + 1)
	if m.wide && depth == pf.Depth && m.rng.Intn(3) > 0 {
		n = 9 + m.rng.Intn(26)
		depth = 1
		if m.coin() { // all of one kind
			pf = &Prof{Leaves: []string{pf.Leaves[m.rng.Intn(len(pf.Leaves))]}, Keys: pf.Keys, Str: pf.Str, Width: pf.Width}
		}
	}
	if pf.Wide > 0 && m.rng.Intn(pf.Wide) == 0 {
		n = 6 + m.rng.Intn(16)
		depth = 1
	}
	if t == "arr" {
		d := Darr()
		for i := 0; i < n; i++ {
			d.El = append(d.El, m.docN(pf, depth-1, ""))
		}
		return d
	}
	d := Dobj()
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		k := m.key()
		if pf.Keys != nil {
			k = pf.Keys[m.rng.Intn(len(pf.Keys))]
		}
		if n > 5 && i > 3 {
			k = fmt.Sprintf("w%d", i)
		}
		f := k
		if m.icase && !m.collide {
			f = foldOf(k)
		}
		if used[f] {
			continue
		}
		used[f] = true
		d.KV = append(d.KV, KV{Bs(k), m.docN(pf, depth-1, "")})
	}
	return d
}

// ---------------------------------------------------------------- JSON text

func (m *M) ws(sb *strings.Builder, style int) {
	if style == 0 {
		return
	}
	for m.rng.Intn(3) == 0 {
		sb.WriteByte(" \t\n\r"[m.rng.Intn(4)])
	}
}

func (m *M) jsonStr(sb *strings.Builder, s string, style int) {
	sb.WriteByte('"')
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		esc := ""
		switch {
		case r == '"' || r == '\\':
			esc = "\\" + string(r)
		case r == '/' && m.rng.Intn(2) == 0:
			esc = "\\/"
		case r < 0x20:
			if j := strings.IndexRune("\b\f\n\r\t", r); j >= 0 && m.rng.Intn(2) == 0 {
				esc = "\\" + string("bfnrt"[j])
			} else {
				esc = fmt.Sprintf("\\u%04x", r)
			}
		case style > 0 && m.rng.Intn(6) == 0 || m.collide && m.rng.Intn(3) == 0 || r > 127 && m.rng.Intn(2) == 0:
			f := "\\u%04x"
			if m.rng.Intn(2) == 0 {
				f = "\\u%04X"
			}
			if r < 0x10000 {
				esc = fmt.Sprintf(f, r)
			} else {
				x := r - 0x10000
				esc = fmt.Sprintf(f, 0xd800+(x>>10)) + fmt.Sprintf(f, 0xdc00+(x&0x3ff))
			}
		}
		if esc != "" {
			sb.WriteString(esc)
		} else {
			sb.WriteString(s[i : i+n])
		}
		i += n
	}
	sb.WriteByte('"')
}

func (m *M) jsonText(sb *strings.Builder, d *D, style int) {
	switch d.T {
	case "obj":
		sb.WriteByte('{')
		m.ws(sb, style)
		for i, kv := range d.KV {
			if i > 0 {
				sb.WriteByte(',')
				m.ws(sb, style)
			}
			m.jsonStr(sb, string(kv.K), style)
			m.ws(sb, style)
			sb.WriteByte(':')
			m.ws(sb, style)
			m.jsonText(sb, kv.V, style)
			m.ws(sb, style)
		}
		sb.WriteByte('}')
	case "arr":
		sb.WriteByte('[')
		m.ws(sb, style)
		for i, c := range d.El {
			if i > 0 {
				sb.WriteByte(',')
				m.ws(sb, style)
			}
			m.jsonText(sb, c, style)
			m.ws(sb, style)
		}
		sb.WriteByte(']')
	case "str":
		if m.dates && m.rng.Intn(6) == 0 { // a date literal instead
			sb.WriteString(m.dateLit())
			break
		}
		m.jsonStr(sb, string(d.P), style)
	case "int":
		sb.WriteString(strconv.FormatInt(d.P.int64(), 10))
	case "dbl":
		f := d.P.float64()
		s := strconv.FormatFloat(f, "fegE"[m.rng.Intn(4)], -1, 64)
		if m.rng.Intn(8) == 0 { // a number with many digits
			s = fmt.Sprintf("%d.%d%d", m.rng.Intn(1000000), m.rng.Int63(), m.rng.Int63())
			if m.rng.Intn(2) == 0 {
				s = "-" + s
			}
			if m.rng.Intn(2) == 0 {
				s += fmt.Sprintf("e%d", m.rng.Intn(60)-30)
			}
		} else if m.rng.Intn(8) == 0 { // an integer beyond 64 bits
			s = fmt.Sprintf("%d%d", 1+m.rng.Int63(), m.rng.Int63())
		}
		sb.WriteString(s)
	default:
		sb.WriteString(d.T)
	}
}

// dateLit: the /Date()/ notation, and texts that resemble it
func (m *M) dateLit() string {
	n := 10 + m.rng.Intn(4)
	ds := fmt.Sprint(1 + m.rng.Intn(4))
	for len(ds) < n {
		ds += fmt.Sprint(m.rng.Intn(10))
	}
	switch m.rng.Intn(10) {
	case 0:
		return `"\/Date(` + ds + `)\/"`
	case 1:
		return `"/Date(` + ds + `)"`
	case 2:
		return `"Date(` + ds[:9] + `)"`
	case 3:
		return `"/Date(` + ds + `+0800)/"`
	case 4, 5:
		return `"Date(` + ds + `)"`
	}
	return `"/Date(` + ds + `)/"`
}

func (m *M) jsonDoc(d *D) []byte {
	var sb strings.Builder
	style := m.rng.Intn(3)
	m.ws(&sb, style)
	m.jsonText(&sb, d, style)
	m.ws(&sb, style)
	return []byte(sb.String())
}

// damage makes a small change to a text.
func (m *M) damage(b []byte, alphabet string) []byte {
	b = append([]byte{}, b...)
	for k := 1 + m.rng.Intn(2); k > 0; k-- {
		if len(b) == 0 {
			b = append(b, alphabet[m.rng.Intn(len(alphabet))])
			continue
		}
		i := m.rng.Intn(len(b))
		switch m.rng.Intn(5) {
		case 0:
			b = b[:i]
		case 1:
			b = append(b[:i], b[i+1:]...)
		case 2:
			b[i] = alphabet[m.rng.Intn(len(alphabet))]
		case 3:
			b = append(b[:i], append([]byte{alphabet[m.rng.Intn(len(alphabet))]}, b[i:]...)...)
		case 4:
			b = append(b, alphabet[m.rng.Intn(len(alphabet))])
		}
	}
	return b
}

const jsonAlphabet = "{}[],:\"\"\\ 0123456789-+.eEtrufalsn\n\t\x01\x7f\xc3x"

// ---------------------------------------------------------------- MsgPack bytes, any permitted encoding

func be(n uint64, k int) []byte {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], n)
	return append([]byte{}, b[8-k:]...)
}

func (m *M) mpHead(n int, fix, fixMax int, codes []int, widths []int) []byte {
	var opts [][]byte
	if fix >= 0 && n <= fixMax {
		opts = append(opts, []byte{byte(fix + n)})
	}
	for i, w := range widths {
		if uint64(n) < 1<<(8*uint(w)) {
			opts = append(opts, append([]byte{byte(codes[i])}, be(uint64(n), w)...))
		}
	}
	return opts[m.rng.Intn(len(opts))]
}

func (m *M) mpDoc(d *D) []byte {
	switch d.T {
	case "obj":
		b := m.mpHead(len(d.KV), 0x80, 15, []int{0xde, 0xdf}, []int{2, 4})
		for _, kv := range d.KV {
			b = append(b, m.mpHead(len(kv.K), 0xa0, 31, []int{0xd9, 0xda, 0xdb}, []int{1, 2, 4})...)
			b = append(b, kv.K...)
			b = append(b, m.mpDoc(kv.V)...)
		}
		return b
	case "arr":
		b := m.mpHead(len(d.El), 0x90, 15, []int{0xdc, 0xdd}, []int{2, 4})
		for _, c := range d.El {
			b = append(b, m.mpDoc(c)...)
		}
		return b
	case "str":
		return append(m.mpHead(len(d.P), 0xa0, 31, []int{0xd9, 0xda, 0xdb}, []int{1, 2, 4}), d.P...)
	case "bin":
		return append(m.mpHead(len(d.P), -1, 0, []int{0xc4, 0xc5, 0xc6}, []int{1, 2, 4}), d.P...)
	case "ext":
		n := len(d.P)
		var h []byte
		c := map[int]byte{1: 0xd4, 2: 0xd5, 4: 0xd6, 8: 0xd7, 16: 0xd8}[n]
		if c != 0 && m.rng.Intn(2) == 0 {
			h = []byte{c}
		} else {
			h = m.mpHead(n, -1, 0, []int{0xc7, 0xc8, 0xc9}, []int{1, 2, 4})
		}
		return append(append(h, byte(d.X)), d.P...)
	case "int":
		v := d.P.int64()
		var opts [][]byte
		if v >= 0 {
			u := uint64(v)
			if u < 128 {
				opts = append(opts, []byte{byte(u)})
			}
			for i, w := range []int{1, 2, 4, 8} {
				if w == 8 || u < 1<<(8*uint(w)) {
					opts = append(opts, append([]byte{byte(0xcc + i)}, be(u, w)...))
				}
			}
		} else if v >= -32 {
			opts = append(opts, []byte{byte(v)})
		}
		for i, w := range []int{1, 2, 4, 8} {
			if w == 8 || v >= -(1<<(8*uint(w)-1)) && v < 1<<(8*uint(w)-1) {
				opts = append(opts, append([]byte{byte(0xd0 + i)}, be(uint64(v), w)...))
			}
		}
		return opts[m.rng.Intn(len(opts))]
	case "flt":
		return append([]byte{0xca}, d.P...)
	case "dbl":
		return append([]byte{0xcb}, d.P...)
	case "dt":
		t := timeOf(d.P.float64())
		sec, ns := t.Unix(), t.Nanosecond()
		var opts [][]byte
		if ns == 0 && sec >= 0 && sec < 1<<32 {
			opts = append(opts, append([]byte{0xd6, 0xff}, be(uint64(sec), 4)...))
		}
		if sec >= 0 && sec < 1<<34 {
			opts = append(opts, append([]byte{0xd7, 0xff}, be(uint64(ns)<<34|uint64(sec), 8)...))
		}
		opts = append(opts, append(append([]byte{0xc7, 12, 0xff}, be(uint64(ns), 4)...), be(uint64(sec), 8)...))
		return opts[m.rng.Intn(len(opts))]
	case "true":
		return []byte{0xc3}
	case "false":
		return []byte{0xc2}
	}
	return []byte{0xc0}
}

var leavesMp = []string{"str", "str", "int", "int", "flt", "dbl", "dt", "bin", "ext", "null", "true", "false"}

const mpAlphabet = "\x80\x81\x90\x91\x92\xa0\xa1\xa3\xc0\xc1\xc2\xc3\xc4\xc5\xc6\xc7\xc8\xc9\xca\xcb\xcc\xcd\xce\xcf\xd0\xd1\xd2\xd3\xd4\xd5\xd6\xd7\xd8\xd9\xda\xdb\xdc\xdd\xde\xdf\xe0\xff\x00\x01\x02a"

// ---------------------------------------------------------------- BSON bytes

func le(n uint64, k int) []byte {
	b := be(n, k)
	for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	return b
}
func rev(b Bs) []byte {
	out := append([]byte{}, b...)
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (m *M) bsonElem(d *D) (byte, []byte) {
	switch d.T {
	case "obj":
		return 3, m.bsonDoc(d)
	case "arr":
		return 4, m.bsonDoc(d)
	case "str":
		return 2, append(append(le(uint64(len(d.P)+1), 4), d.P...), 0)
	case "int":
		v := d.P.int64()
		if v >= -(1<<31) && v < 1<<31 && m.rng.Intn(3) > 0 {
			return 16, le(uint64(uint32(int32(v))), 4)
		}
		return 18, rev(d.P)
	case "tsp":
		return 17, rev(d.P)
	case "dbl":
		return 1, rev(d.P)
	case "dt":
		t := timeOf(d.P.float64())
		return 9, le(uint64(t.Unix()*1000+int64(t.Nanosecond()/1000000)), 8)
	case "bin":
		if m.rng.Intn(4) == 0 {
			return 5, append(append(append(le(uint64(len(d.P)+4), 4), 2), le(uint64(len(d.P)), 4)...), d.P...)
		}
		return 5, append(append(le(uint64(len(d.P)), 4), 0), d.P...)
	case "sub":
		return 5, append(append(le(uint64(len(d.P)), 4), byte(d.X)), d.P...)
	case "oid":
		return 7, d.P
	case "dec":
		return 19, d.P
	case "true":
		return 8, []byte{1}
	case "false":
		return 8, []byte{0}
	}
	return []byte{10, 10, 6, 127, 255}[m.rng.Intn(5)], nil
}

func (m *M) bsonDoc(d *D) []byte {
	var body []byte
	add := func(k string, c *D) {
		t, b := m.bsonElem(c)
		body = append(body, t)
		body = append(body, k...)
		body = append(body, 0)
		body = append(body, b...)
	}
	for _, kv := range d.KV {
		add(strings.ReplaceAll(string(kv.K), "\x00", ""), kv.V)
	}
	for i, c := range d.El {
		add(strconv.Itoa(i), c)
	}
	return append(append(le(uint64(len(body)+5), 4), body...), 0)
}

var leavesBson = []string{"str", "str", "int", "int", "dbl", "dt", "bin", "sub", "oid", "dec", "tsp", "null", "true", "false"}

const bsonAlphabet = "\x00\x00\x01\x02\x03\x04\x05\x06\x07\x08\x09\x0a\x0b\x0c\x0d\x0e\x0f\x10\x11\x12\x13\x7f\xff\x80ab01"

// ---------------------------------------------------------------- YAML text

var yamlWords = []string{"hello", "abc", "some text", "v1", "x y z", "Ok", "truest", "é", "中文", "a-b", "q_r", "true", "false", "True", "12", "-3", "4.5", "0", "1e3", "100", "-0.125", "text#x", "k9", "name", "info", "null", "~", "no", "inf", "nan", "-", "1h30m", "0x10", "9223372036854775807", "12345678901234567890", "1.5.2", "1_000"}
var yamlKeys = []string{"a", "b", "c", "d", "key", "Key", "a b", "x-y", "n1", "é", "zz"}

type yamlGen struct {
	m       *M
	sb      strings.Builder
	anchors []string // scalar or mapping anchors that are complete
	maps    map[string][]string
	next    int
	style   int // of the anchors' names
}

// name: a new anchor; names may begin with one another or differ in case only
func (g *yamlGen) name(p string) string {
	g.next++
	switch g.style {
	case 1:
		return p + strings.Repeat("a", max(1, 8-g.next))
	case 2:
		return strings.Repeat("q", g.next)
	case 3:
		return []string{"a", "A", "ab", "Ab", "é", "n-1", "n_1", "1", "10", "x.y"}[g.next%10] + strings.Repeat("z", g.next/10)
	}
	return fmt.Sprintf("%s%d", p, g.next)
}

func (g *yamlGen) eol() {
	m := g.m
	if m.rng.Intn(8) == 0 {
		g.sb.WriteString(strings.Repeat(" ", 1+m.rng.Intn(3)))
	}
	if m.rng.Intn(7) == 0 {
		g.sb.WriteString(" # note: x")
	}
	if m.rng.Intn(20) == 0 {
		g.sb.WriteByte('\r')
	}
	g.sb.WriteByte('\n')
	for m.rng.Intn(7) == 0 {
		switch m.rng.Intn(3) {
		case 0:
			g.sb.WriteByte('\n')
		case 1:
			g.sb.WriteString(strings.Repeat(" ", m.rng.Intn(6)) + "\n")
		case 2:
			g.sb.WriteString(strings.Repeat(" ", m.rng.Intn(6)) + "# comment - x: y\n")
		}
	}
}

func (g *yamlGen) scalar() string {
	m := g.m
	if m.rng.Intn(40) == 0 { // mostly undefined here
		return "*" + m.pick([]string{"s1", "s2", "m1", "zz"})
	}
	if len(g.anchors) > 0 && m.rng.Intn(4) == 0 {
		return "*" + g.anchors[m.rng.Intn(len(g.anchors))]
	}
	w := yamlWords[m.rng.Intn(len(yamlWords))]
	if m.rng.Intn(6) == 0 {
		n := g.name("s")
		if m.rng.Intn(5) == 0 && len(g.anchors) > 0 {
			n = g.anchors[m.rng.Intn(len(g.anchors))] // redefinition
			delete(g.maps, n)
		}
		g.anchors = append(g.anchors, n)
		return "&" + n + " " + w
	}
	return w
}

// members writes n entries of a mapping; the first one may follow text already on the line.
func (g *yamlGen) members(ind, n, depth int, inline bool) []string {
	m := g.m
	used := map[string]bool{}
	var keys []string
	for i := 0; i < n; i++ {
		first := i == 0 && inline
		if !first {
			g.sb.WriteString(strings.Repeat(" ", ind))
		}
		if !first && len(g.maps) > 0 && m.rng.Intn(4) == 0 {
			var names []string
			for k := range g.maps {
				names = append(names, k)
			}
			sortStrings(names)
			g.sb.WriteString("<<: *" + names[m.rng.Intn(len(names))])
			g.eol()
			continue
		}
		k := yamlKeys[m.rng.Intn(len(yamlKeys))]
		for used[k] {
			k += "x"
		}
		used[k] = true
		keys = append(keys, k)
		g.sb.WriteString(k + ":")
		if depth > 0 && m.rng.Intn(3) == 0 {
			anchor := ""
			isMap := m.rng.Intn(3) > 0
			if isMap && m.rng.Intn(2) == 0 {
				anchor = g.name("m")
				g.sb.WriteString(" &" + anchor)
			}
			g.eol()
			if isMap {
				ks := g.members1(ind+1+m.rng.Intn(4), depth-1)
				if anchor != "" {
					g.anchors = append(g.anchors, anchor)
					g.maps[anchor] = ks
				}
			} else {
				g.seq(ind+1+m.rng.Intn(4), depth-1)
			}
			continue
		}
		g.sb.WriteString(" " + strings.Repeat(" ", m.rng.Intn(2)) + g.scalar())
		g.eol()
	}
	return keys
}

func (g *yamlGen) members1(ind, depth int) []string {
	return g.members(ind, 1+g.m.rng.Intn(4), depth, false)
}

func (g *yamlGen) seq(ind, depth int) {
	m := g.m
	for n := 1 + m.rng.Intn(4); n > 0; n-- {
		g.sb.WriteString(strings.Repeat(" ", ind) + "-")
		c := m.rng.Intn(6)
		switch {
		case depth > 0 && c == 0:
			g.eol()
			if m.rng.Intn(2) == 0 {
				g.members1(ind+1+m.rng.Intn(4), depth-1)
			} else {
				g.seq(ind+1+m.rng.Intn(4), depth-1)
			}
		case depth > 0 && c <= 3:
			g.sb.WriteByte(' ')
			g.members(ind+2, 1+m.rng.Intn(3), depth-1, true)
		default:
			g.sb.WriteString(" " + g.scalar())
			g.eol()
		}
	}
}

func (m *M) yamlText() []byte {
	g := &yamlGen{m: m, maps: map[string][]string{}, style: m.rng.Intn(8)}
	if m.rng.Intn(6) == 0 {
		g.sb.WriteString("# head\n")
	}
	if m.rng.Intn(10) == 0 {
		g.sb.WriteString("\n")
	}
	base := 0
	if m.rng.Intn(5) == 0 {
		base = 1 + m.rng.Intn(4)
	}
	if m.rng.Intn(3) > 0 {
		g.members1(base, 3)
	} else {
		g.seq(base, 3)
	}
	s := g.sb.String()
	if m.rng.Intn(3) == 0 {
		s = strings.TrimRight(s, "\n")
	}
	return []byte(s)
}

func sortStrings(a []string) {
	for i := range a {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

const yamlAlphabet = "-: \n#&*<ab12\t\r\"'{}[]|>~,x"
