// Abstract documents: the projection of the library's values that the specification talks about.
package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"

	"github.com/suiyunonghen/DxCommonLib"
	dx "github.com/suiyunonghen/dxsvalue"
)

// Bs marshals as an array of byte values.
type Bs []byte

func (b Bs) MarshalJSON() ([]byte, error) {
	out := make([]byte, 0, 2+4*len(b))
	out = append(out, '[')
	for i, c := range b {
		if i > 0 {
			out = append(out, ',')
		}
		out = strconv.AppendInt(out, int64(c), 10)
	}
	return append(out, ']'), nil
}

func (b *Bs) UnmarshalJSON(data []byte) error {
	var a []int
	if err := json.Unmarshal(data, &a); err != nil {
		return err
	}
	*b = make(Bs, len(a))
	for i, x := range a {
		(*b)[i] = byte(x)
	}
	return nil
}

func i64(v int64) Bs {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], uint64(v))
	return b[:]
}
func f64(v float64) Bs { return i64(int64(math.Float64bits(v))) }
func f32(v float32) Bs {
	var b [4]byte
	binary.BigEndian.PutUint32(b[:], math.Float32bits(v))
	return b[:]
}
func (b Bs) int64() int64     { return int64(binary.BigEndian.Uint64(b)) }
func (b Bs) float64() float64 { return math.Float64frombits(binary.BigEndian.Uint64(b)) }
func (b Bs) float32() float32 { return math.Float32frombits(binary.BigEndian.Uint32(b)) }

type KV struct {
	K Bs `json:"k"`
	V *D `json:"v"`
}

// D is a document.
type D struct {
	T  string
	KV []KV
	El []*D
	P  Bs // payload: s, i, f, d or b
	X  int
}

func payloadName(t string) string {
	switch t {
	case "str":
		return "s"
	case "int", "tsp":
		return "i"
	case "flt":
		return "f"
	case "dbl", "dt":
		return "d"
	case "bin", "oid", "dec", "ext", "sub":
		return "b"
	}
	return ""
}

func (d *D) MarshalJSON() ([]byte, error) {
	var sb strings.Builder
	d.write(&sb)
	return []byte(sb.String()), nil
}

func (d *D) write(sb *strings.Builder) {
	fmt.Fprintf(sb, `{"t":"%s"`, d.T)
	bs := func(b Bs) {
		j, _ := b.MarshalJSON()
		sb.Write(j)
	}
	switch d.T {
	case "obj":
		sb.WriteString(`,"kv":[`)
		for i, m := range d.KV {
			if i > 0 {
				sb.WriteByte(',')
			}
			sb.WriteString(`{"k":`)
			bs(m.K)
			sb.WriteString(`,"v":`)
			m.V.write(sb)
			sb.WriteByte('}')
		}
		sb.WriteByte(']')
	case "arr":
		sb.WriteString(`,"el":[`)
		for i, m := range d.El {
			if i > 0 {
				sb.WriteByte(',')
			}
			m.write(sb)
		}
		sb.WriteByte(']')
	default:
		if n := payloadName(d.T); n != "" {
			if d.T == "ext" || d.T == "sub" {
				fmt.Fprintf(sb, `,"x":%d`, d.X)
			}
			fmt.Fprintf(sb, `,"%s":`, n)
			bs(d.P)
		}
	}
	sb.WriteByte('}')
}

func (d *D) UnmarshalJSON(data []byte) error {
	var m struct {
		T  string `json:"t"`
		KV []KV   `json:"kv"`
		El []*D   `json:"el"`
		S  Bs     `json:"s"`
		I  Bs     `json:"i"`
		F  Bs     `json:"f"`
		Dd Bs     `json:"d"`
		B  Bs     `json:"b"`
		X  int    `json:"x"`
	}
	if err := json.Unmarshal(data, &m); err != nil {
		return err
	}
	d.T, d.KV, d.El, d.X = m.T, m.KV, m.El, m.X
	for _, p := range []Bs{m.S, m.I, m.F, m.Dd, m.B} {
		if p != nil {
			d.P = p
		}
	}
	return nil
}

func Dobj(kv ...KV) *D        { return &D{T: "obj", KV: kv} }
func Darr(el ...*D) *D        { return &D{T: "arr", El: el} }
func Dstr(s string) *D        { return &D{T: "str", P: Bs(s)} }
func Dint(i int64) *D         { return &D{T: "int", P: i64(i)} }
func Ddbl(f float64) *D       { return &D{T: "dbl", P: f64(f)} }
func Dflt(f float32) *D       { return &D{T: "flt", P: f32(f)} }
func Ddt(f float64) *D        { return &D{T: "dt", P: f64(f)} }
func Dbin(b []byte) *D        { return &D{T: "bin", P: b} }
func Dext(x int, b []byte) *D { return &D{T: "ext", X: x, P: b} }
func Dconst(t string) *D      { return &D{T: t} }

var kinds = map[string]dx.ValueType{
	"obj": dx.VT_Object, "arr": dx.VT_Array, "str": dx.VT_String, "int": dx.VT_Int, "flt": dx.VT_Float,
	"dbl": dx.VT_Double, "dt": dx.VT_DateTime, "bin": dx.VT_Binary, "ext": dx.VT_ExBinary,
	"null": dx.VT_NULL, "true": dx.VT_True, "false": dx.VT_False, "nan": dx.VT_NAN, "inf": dx.VT_INF,
}

func kindOf(v *dx.DxValue) string {
	if v == nil {
		return "nil"
	}
	switch v.Type() {
	case dx.VT_Object:
		return "obj"
	case dx.VT_Array:
		return "arr"
	case dx.VT_String, dx.VT_RawString:
		return "str"
	case dx.VT_Int:
		if v.ExtType == 0x11 {
			return "tsp"
		}
		return "int"
	case dx.VT_Float:
		return "flt"
	case dx.VT_Double:
		return "dbl"
	case dx.VT_DateTime:
		return "dt"
	case dx.VT_Binary:
		switch v.ExtType {
		case 7:
			return "oid"
		case 0x13:
			return "dec"
		}
		return "bin"
	case dx.VT_ExBinary:
		if v.ExtType == 5 {
			return "sub"
		}
		return "ext"
	case dx.VT_NULL:
		return "null"
	case dx.VT_True:
		return "true"
	case dx.VT_False:
		return "false"
	case dx.VT_NAN:
		return "nan"
	case dx.VT_INF:
		return "inf"
	}
	return "bad"
}

// dump reads a whole value through the public interface.
func dump(v *dx.DxValue, via string) *D { return dumpN(v, via, 0) }

func dumpN(v *dx.DxValue, via string, depth int) *D {
	k := kindOf(v)
	d := &D{T: k}
	if depth > 200 {
		d.T = "deep"
		return d
	}
	switch k {
	case "obj":
		d.KV = []KV{}
		switch via {
		case "visit":
			v.Visit(func(key string, c *dx.DxValue) bool {
				d.KV = append(d.KV, KV{Bs(strings.Clone(key)), dumpN(c, via, depth+1)})
				return true
			})
		case "index":
			for i := 0; i < v.Count(); i++ {
				c := v.ValueByIndex(i)
				d.KV = append(d.KV, KV{Bs(strings.Clone(v.KeyNameByIndex(i))), dumpN(c, via, depth+1)})
			}
		case "name":
			for i := 0; i < v.Count(); i++ {
				key := strings.Clone(v.KeyNameByIndex(i))
				d.KV = append(d.KV, KV{Bs(key), dumpN(v.ValueByName(key), via, depth+1)})
			}
		default:
			for i := 0; i < v.Count(); i++ {
				key, c := v.Items(i)
				d.KV = append(d.KV, KV{Bs(strings.Clone(key)), dumpN(c, via, depth+1)})
			}
		}
	case "arr":
		d.El = []*D{}
		switch via {
		case "visit":
			v.Visit(func(_ string, c *dx.DxValue) bool {
				d.El = append(d.El, dumpN(c, via, depth+1))
				return true
			})
		case "name":
			for i := 0; i < v.Count(); i++ {
				d.El = append(d.El, dumpN(v.ValueByName(strconv.Itoa(i)), via, depth+1))
			}
		case "index":
			for i := 0; i < v.Count(); i++ {
				d.El = append(d.El, dumpN(v.ValueByIndex(i), via, depth+1))
			}
		default:
			for i := 0; i < v.Count(); i++ {
				_, c := v.Items(i)
				d.El = append(d.El, dumpN(c, via, depth+1))
			}
		}
	case "str":
		d.P = Bs(strings.Clone(v.String()))
	case "int", "tsp":
		d.P = i64(v.Int())
	case "flt":
		d.P = f32(v.Float())
	case "dbl", "dt":
		d.P = f64(v.Double())
	case "bin", "oid", "dec":
		d.P = append(Bs{}, v.Binary()...)
	case "ext", "sub":
		d.P = append(Bs{}, v.Binary()...)
		d.X = int(v.BinExtType())
	}
	return d
}

// build makes a fresh value holding d with the typed setters; share: members that are constants are the shared constant
// values themselves.
func build(d *D, cached, share bool) *dx.DxValue {
	if vt, ok := kinds[d.T]; ok {
		var v *dx.DxValue
		if cached {
			v = dx.NewCacheValue(vt)
		} else {
			v = dx.NewValue(vt)
		}
		fill(v, d, share)
		return v
	}
	panic("cannot build " + d.T)
}

func isConst(t string) bool {
	return t == "null" || t == "true" || t == "false" || t == "nan" || t == "inf"
}

func fill(v *dx.DxValue, d *D, share bool) {
	switch d.T {
	case "obj":
		for _, m := range d.KV {
			if share && isConst(m.V.T) {
				v.SetKeyValue(string(m.K), dx.NewValue(kinds[m.V.T]))
				continue
			}
			fill(v.SetKey(string(m.K), kinds[m.V.T]), m.V, share)
		}
	case "arr":
		for _, m := range d.El {
			if share && isConst(m.T) {
				v.SetIndexValue(v.Count(), dx.NewValue(kinds[m.T]))
				continue
			}
			fill(v.SetIndex(-1, kinds[m.T]), m, share)
		}
	case "str":
		v.SetString(string(d.P))
	case "int":
		v.SetInt(d.P.int64())
	case "flt":
		v.SetFloat(d.P.float32())
	case "dbl":
		v.SetDouble(d.P.float64())
	case "dt":
		v.SetDelphiTime(DxCommonLib.TDateTime(d.P.float64()))
	case "bin":
		v.SetBinary(append([]byte{}, d.P...), true)
	case "ext":
		v.SetExtType(byte(d.X))
		v.SetBinary(append([]byte{}, d.P...), true)
	}
}

func goTimeRec(t time.Time) map[string]interface{} {
	sec := t.Unix()
	day := sec / 86400
	sod := sec % 86400
	if sod < 0 {
		sod += 86400
		day--
	}
	return map[string]interface{}{"day": day, "ms": sod*1000 + int64(t.Nanosecond()/1000000), "ns": t.Nanosecond() % 1000000}
}

func sizeOf(d *D) int {
	n := 1
	for _, m := range d.KV {
		n += sizeOf(m.V)
	}
	for _, m := range d.El {
		n += sizeOf(m)
	}
	return n
}
