// Go values for SetValue and ToStdValue, with the description the specification judges by.
package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/suiyunonghen/DxCommonLib"
	dx "github.com/suiyunonghen/dxsvalue"
)

type gInner struct {
	X int
	S string
	B []byte
	P *int
	T time.Time
}

type gAll struct {
	I     int
	I8    int8
	I16   int16
	I32   int32
	I64   int64
	U     uint
	U8    uint8
	U16   uint16
	U32   uint32
	U64   uint64
	F32   float32
	F64   float64
	Bo    bool
	Str   string
	Tm    time.Time
	Bin   []byte
	Ss    []string
	Is    []int
	Us    []uint16
	Fs    []float64
	F3s   []float32
	Bs    []bool
	Ts    []time.Time
	Bbs   [][]byte
	Iss   [][]int
	Any   []interface{}
	Map   map[string]interface{}
	MapS  map[string]string
	MapI  map[string]int
	MapF  map[string]float64
	MapB  map[string]bool
	MapN  map[string]gInner
	MapP  map[string]*gInner
	MapT  map[string]time.Time
	MapSl map[string][]int
	In    gInner
	PIn   *gInner
	Ins   []gInner
	PIns  []*gInner
	PT    *time.Time
	PS    *string
	PI    *int64
	If    interface{}
	Enc   gEnc
	Encs  []gEnc
}

// types of the user's own
type (
	myInt  int
	myU8   uint8
	myStr  string
	myBool bool
	myF32  float32
	myF64  float64
)

// gEnc has a custom encoder.
type gEnc struct{ N int }

func (g gEnc) EncodeToDxValue(dest *dx.DxValue) {
	dest.Reset(dx.VT_Object)
	dest.SetKeyInt("enc", int64(g.N))
	dest.SetKeyString("tag", "custom")
}

// gPEnc has a custom encoder on the pointer.
type gPEnc struct{ N int }

func (g *gPEnc) EncodeToDxValue(dest *dx.DxValue) { dest.SetString(fmt.Sprintf("p%d", g.N)) }

// describe gives the specification's view of a Go value.
func describe(v interface{}) Ev {
	switch x := v.(type) {
	case nil:
		return Ev{"g": "nil"}
	case gEnc:
		return Ev{"g": "doc", "v": Dobj(KV{Bs("enc"), Dint(int64(x.N))}, KV{Bs("tag"), Dstr("custom")})}
	case *gPEnc:
		return Ev{"g": "doc", "v": Dstr(fmt.Sprintf("p%d", x.N))}
	case *dx.DxValue:
		return Ev{"g": "doc", "v": dump(x.Clone(false), "items")}
	case dx.DxValue:
		return Ev{"g": "doc", "v": dump(x.Clone(false), "items")}
	case time.Time:
		return Ev{"g": "time", "tm": goTimeRec(x)}
	case []byte:
		return Ev{"g": "bin", "b": append(Bs{}, x...)}
	}
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Ptr:
		if rv.IsNil() {
			return Ev{"g": "nil"}
		}
		if rv.Elem().Kind() == reflect.Interface && rv.Elem().IsNil() {
			return Ev{"g": "nil"}
		}
		return describe(rv.Elem().Interface())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return Ev{"g": "int", "i": i64(rv.Int())}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return Ev{"g": "int", "i": i64(int64(rv.Uint()))}
	case reflect.Float32:
		return Ev{"g": "flt", "f": f32(float32(rv.Float()))}
	case reflect.Float64:
		return Ev{"g": "dbl", "d": f64(rv.Float())}
	case reflect.Bool:
		return Ev{"g": "bool", "bv": rv.Bool()}
	case reflect.String:
		return Ev{"g": "str", "s": Bs(rv.String())}
	case reflect.Slice, reflect.Array:
		el := []Ev{}
		for i := 0; i < rv.Len(); i++ {
			el = append(el, describe(rv.Index(i).Interface()))
		}
		return Ev{"g": "arr", "el": el}
	case reflect.Map:
		kv := []Ev{}
		keys := rv.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
		for _, k := range keys {
			kv = append(kv, Ev{"k": Bs(k.String()), "v": describe(rv.MapIndex(k).Interface())})
		}
		return Ev{"g": "map", "kv": kv}
	case reflect.Struct:
		kv := []Ev{}
		for i := 0; i < rv.NumField(); i++ {
			kv = append(kv, Ev{"k": Bs(rv.Type().Field(i).Name), "v": describe(rv.Field(i).Interface())})
		}
		return Ev{"g": "struct", "kv": kv}
	}
	return Ev{"g": "other"}
}

func (m *M) time() time.Time { return timeOf(m.dt()) }

// fillGo fills a settable value at random.
func (m *M) fillGo(rv reflect.Value, depth int) {
	switch rv.Type() {
	case reflect.TypeOf(time.Time{}):
		rv.Set(reflect.ValueOf(m.time()))
		return
	case reflect.TypeOf([]byte{}):
		if m.rng.Intn(8) > 0 {
			rv.SetBytes(m.bytes())
		}
		return
	}
	switch rv.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		rv.SetInt(m.int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		rv.SetUint(uint64(m.int()) & math.MaxInt64)
	case reflect.Float32:
		rv.SetFloat(float64(m.flt()))
	case reflect.Float64:
		rv.SetFloat(m.dbl())
	case reflect.Bool:
		rv.SetBool(m.rng.Intn(2) == 0)
	case reflect.String:
		rv.SetString(m.str())
	case reflect.Interface:
		if x := m.goValue(depth - 1); x != nil {
			rv.Set(reflect.ValueOf(x))
		}
	case reflect.Ptr:
		if m.rng.Intn(3) > 0 && depth > 0 {
			p := reflect.New(rv.Type().Elem())
			m.fillGo(p.Elem(), depth-1)
			rv.Set(p)
		}
	case reflect.Slice:
		n := m.rng.Intn(4)
		if depth <= 0 {
			n = 0
		}
		if n == 0 && m.rng.Intn(2) == 0 {
			return
		}
		s := reflect.MakeSlice(rv.Type(), n, n)
		for i := 0; i < n; i++ {
			m.fillGo(s.Index(i), depth-1)
		}
		rv.Set(s)
	case reflect.Array:
		for i := 0; i < rv.Len(); i++ {
			m.fillGo(rv.Index(i), depth-1)
		}
	case reflect.Map:
		n := m.rng.Intn(4)
		if depth <= 0 {
			n = 0
		}
		if n == 0 && m.rng.Intn(2) == 0 {
			return
		}
		mp := reflect.MakeMap(rv.Type())
		for i := 0; i < n; i++ {
			e := reflect.New(rv.Type().Elem()).Elem()
			m.fillGo(e, depth-1)
			mp.SetMapIndex(reflect.ValueOf(m.key()), e)
		}
		rv.Set(mp)
	case reflect.Struct:
		for i := 0; i < rv.NumField(); i++ {
			m.fillGo(rv.Field(i), depth-1)
		}
	}
}

var goTypes = []reflect.Type{
	reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
	reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(false), reflect.TypeOf(""), reflect.TypeOf(time.Time{}), reflect.TypeOf([]byte{}),
	reflect.TypeOf(map[string]interface{}{}), reflect.TypeOf(map[string]string{}), reflect.TypeOf(map[string]int{}), reflect.TypeOf(map[string]float64{}),
	reflect.TypeOf(map[string]float32{}), reflect.TypeOf(map[string]bool{}), reflect.TypeOf(map[string]uint8{}), reflect.TypeOf(map[string][]byte{}),
	reflect.TypeOf(map[string]time.Time{}), reflect.TypeOf(map[string]*time.Time{}), reflect.TypeOf(map[string][]string{}), reflect.TypeOf(map[string]map[string]int{}),
	reflect.TypeOf(map[string]gInner{}), reflect.TypeOf(map[string]*gInner{}), reflect.TypeOf(map[string]*int{}), reflect.TypeOf(map[string]gEnc{}),
	reflect.TypeOf([]interface{}{}), reflect.TypeOf([]string{}), reflect.TypeOf([]int{}), reflect.TypeOf([]uint32{}), reflect.TypeOf([]float32{}), reflect.TypeOf([]float64{}),
	reflect.TypeOf([]bool{}), reflect.TypeOf([]time.Time{}), reflect.TypeOf([][]byte{}), reflect.TypeOf([][]string{}), reflect.TypeOf([][]interface{}{}),
	reflect.TypeOf([]map[string]interface{}{}), reflect.TypeOf([]map[string]string{}), reflect.TypeOf([]gInner{}), reflect.TypeOf([]*gInner{}), reflect.TypeOf([]*string{}),
	reflect.TypeOf(myInt(0)), reflect.TypeOf(myStr("")), reflect.TypeOf([]myInt{}), reflect.TypeOf([]myStr{}), reflect.TypeOf(map[string]myF64{}), reflect.TypeOf([3]int{}), reflect.TypeOf([][2]string{}),
	reflect.TypeOf((*int)(nil)), reflect.TypeOf((**string)(nil)), reflect.TypeOf([]**int{}), reflect.TypeOf(map[string]**gInner{}), reflect.TypeOf((*interface{})(nil)), reflect.TypeOf((*time.Time)(nil)), reflect.TypeOf((*[]byte)(nil)),
	reflect.TypeOf([]gEnc{}), reflect.TypeOf(gInner{}), reflect.TypeOf(gAll{}), reflect.TypeOf(gEnc{}),
}

func (m *M) goType() reflect.Type { return goTypes[m.rng.Intn(len(goTypes))] }

// goValue makes a random Go value; pointers to values appear as well.
func (m *M) goValue(depth int) interface{} {
	if m.rng.Intn(12) == 0 {
		switch m.rng.Intn(6) {
		case 0:
			return nil
		case 5:
			return reflect.Zero(reflect.PtrTo(m.goType())).Interface()
		case 1:
			return &gPEnc{m.rng.Intn(100)}
		case 2:
			return build(m.doc(m.profAll()), false, m.coin())
		case 3:
			return *build(m.doc(m.profAll()), false, m.coin())
		default:
			return (*gInner)(nil)
		}
	}
	var t reflect.Type
	for {
		t = m.goType()
		if t == reflect.TypeOf(gAll{}) && m.rng.Intn(4) > 0 {
			continue
		}
		break
	}
	p := reflect.New(t)
	m.fillGo(p.Elem(), depth)
	if m.rng.Intn(3) == 0 {
		return p.Interface()
	}
	return p.Elem().Interface()
}

// spoil overwrites everything reachable in a Go value after it was handed over.
func spoil(rv reflect.Value, depth int) {
	if depth > 6 {
		return
	}
	switch rv.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !rv.IsNil() {
			if rv.Type() == reflect.TypeOf((*dx.DxValue)(nil)) {
				return // handed over
			}
			spoil(rv.Elem(), depth+1)
		}
	case reflect.Slice:
		for i := 0; i < rv.Len(); i++ {
			spoil(rv.Index(i), depth+1)
		}
	case reflect.Map:
		for _, k := range rv.MapKeys() {
			spoil(rv.MapIndex(k), depth+1)
			rv.SetMapIndex(k, reflect.Zero(rv.Type().Elem()))
		}
		if !rv.IsNil() {
			rv.SetMapIndex(reflect.ValueOf("spoiled"), reflect.Zero(rv.Type().Elem()))
		}
	case reflect.Array:
		for i := 0; i < rv.Len(); i++ {
			spoil(rv.Index(i), depth+1)
		}
	case reflect.Struct:
		if rv.Type() == reflect.TypeOf(time.Time{}) || rv.Type() == reflect.TypeOf(dx.DxValue{}) {
			return
		}
		for i := 0; i < rv.NumField(); i++ {
			spoil(rv.Field(i), depth+1)
		}
	case reflect.Uint8:
		if rv.CanSet() {
			rv.SetUint(rv.Uint() ^ 0x5a)
		}
	case reflect.Int, reflect.Int64:
		if rv.CanSet() {
			rv.SetInt(rv.Int() ^ 0x5a)
		}
	case reflect.String:
		if rv.CanSet() {
			rv.SetString("spoiled")
		}
	}
}

// SetGo stores a Go value at path p of register r: as root, under a key, at an array position, or in a new document.
func (m *M) SetGo(r int, p []Step, how string, k string, n int, cached bool, val interface{}) {
	e := Ev{"op": "setgo", "r": r, "p": p, "how": how, "k": Bs(k), "n": n, "gv": describe(val), "nav": true, "ro": false}
	if how == "new" {
		m.drop(r)
	} else if m.reg[r] == nil {
		return
	} else if v := m.nav(m.reg[r], p); v != nil && how == "root" && v.Type() == dx.VT_ExBinary && v.BinLen() == 0 && v.BinExtType() == 0 {
		return
	}
	m.call(e, func() {
		var v *dx.DxValue
		if how == "new" {
			v = dx.NewValueFrom(val, cached)
			m.place(r, v, cached)
			m.built[r] = true
		} else {
			v = m.nav(m.reg[r], p)
			e["nav"] = v != nil
			if v == nil {
				return
			}
			e["ro"] = v.ReadOnly()
			switch how {
			case "root":
				v.SetValue(val)
			case "key":
				v.SetKeyvalue(k, val, v.ValueCache())
			case "index":
				v.SetIndexvalue(n, val, v.ValueCache())
			}
		}
		if val != nil {
			rv := reflect.ValueOf(val)
			if rv.Kind() != reflect.Ptr || !rv.IsNil() {
				cp := reflect.New(rv.Type()).Elem()
				cp.Set(rv)
				spoil(cp, 0)
			}
		}
		e["d"] = dump(m.reg[r], m.via())
		m.lazy[r] = false
	})
}

// ---------------------------------------------------------------- to Go values

// gReg is converted by a registered function, gUn by its own decoder.
type gReg struct{ S string }
type gUn struct{ S string }

func (g *gUn) DecodeFromDxValue(from *dx.DxValue) { g.S = "un:" + from.String() }

func init() {
	dx.RegisterTypeMapFunc(reflect.TypeOf(gReg{}), func(fv reflect.Value, v *dx.DxValue) {
		fv.Field(0).SetString("reg:" + v.String())
	})
}

type dInner struct {
	X  int
	S  string
	F  float64
	Bo bool
}

type dAll struct {
	A    int
	B    string
	C    bool
	D    float64
	Key  int64
	Ab   string
	I8   int8
	I16  int16
	I32  int32
	U    uint
	U8   uint8
	U16  uint16
	U32  uint32
	U64  uint64
	F32  float32
	Tm   time.Time
	Bin  []byte
	Ss   []string
	Is   []int
	Us   []uint8
	Fs   []float32
	Bs   []bool
	Ts   []time.Time
	Iss  [][]int
	In   dInner
	Ins  []dInner
	Reg  gReg
	Regs []gReg
	Un   *gUn
	priv int
}

var dNames = []string{"A", "B", "C", "D", "Key", "Ab", "I8", "I16", "I32", "U", "U8", "U16", "U32", "U64", "F32", "Tm", "Bin", "Ss", "Is", "Us", "Fs", "Bs", "Ts", "Iss", "In", "Ins", "Reg", "Regs", "Un", "priv",
	"a", "b", "KEY", "aB", "tm", "zz", "in", "INS"}

// goDesc describes a destination's content: type name and value, recursively.
func goDesc(rv reflect.Value) Ev {
	t := rv.Type()
	switch t {
	case reflect.TypeOf(time.Time{}):
		return Ev{"y": "time", "v": goTimeRec(rv.Interface().(time.Time))}
	case reflect.TypeOf([]byte{}):
		return Ev{"y": "bytes", "v": append(Bs{}, rv.Bytes()...)}
	case reflect.TypeOf(gReg{}):
		return Ev{"y": "reg", "v": Bs(rv.Interface().(gReg).S)}
	case reflect.TypeOf(&gUn{}):
		if rv.IsNil() {
			return Ev{"y": "un", "v": Bs{}}
		}
		return Ev{"y": "un", "v": Bs(rv.Interface().(*gUn).S)}
	}
	width := func(n uint64, k int) Bs { return be(n, k) }
	switch t.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return Ev{"y": "int", "v": width(uint64(rv.Int()), int(t.Size()))}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return Ev{"y": "int", "v": width(rv.Uint(), int(t.Size()))}
	case reflect.Float32:
		return Ev{"y": "f32", "v": f32(float32(rv.Float()))}
	case reflect.Float64:
		return Ev{"y": "f64", "v": f64(rv.Float())}
	case reflect.Bool:
		return Ev{"y": "bool", "v": rv.Bool()}
	case reflect.String:
		return Ev{"y": "str", "v": Bs(rv.String())}
	case reflect.Slice:
		el := []Ev{}
		for i := 0; i < rv.Len(); i++ {
			el = append(el, goDesc(rv.Index(i)))
		}
		y := "slice"
		if t.Elem().Kind() == reflect.Uint8 {
			y = "bytes"
		}
		return Ev{"y": y, "v": el}
	case reflect.Struct:
		fl := []Ev{}
		for i := 0; i < rv.NumField(); i++ {
			f := t.Field(i)
			d := goDesc(rv.Field(i))
			fl = append(fl, Ev{"k": Bs(f.Name), "exp": f.PkgPath == "", "v": d})
		}
		return Ev{"y": "struct", "v": fl}
	}
	return Ev{"y": "other", "v": 0}
}

// prefill gives the destination a recognisable content.
func (m *M) prefill(rv reflect.Value) {
	switch rv.Type() {
	case reflect.TypeOf(time.Time{}):
		rv.Set(reflect.ValueOf(time.Date(2011, 1, 1, 0, 0, 0, 0, time.UTC)))
		return
	case reflect.TypeOf(gReg{}):
		rv.Field(0).SetString("old")
		return
	case reflect.TypeOf(&gUn{}):
		if m.rng.Intn(3) > 0 {
			rv.Set(reflect.ValueOf(&gUn{"old"}))
		}
		return
	}
	switch rv.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		rv.SetInt(99)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		rv.SetUint(99)
	case reflect.Float32, reflect.Float64:
		rv.SetFloat(99.5)
	case reflect.Bool:
		rv.SetBool(true)
	case reflect.String:
		rv.SetString("old")
	case reflect.Slice:
		et := rv.Type().Elem()
		if et.Kind() == reflect.Struct && et != reflect.TypeOf(time.Time{}) || et.Kind() == reflect.Slice {
			return // keep nil: element content would survive
		}
		n := m.rng.Intn(4)
		if n > 0 {
			s := reflect.MakeSlice(rv.Type(), n, n+m.rng.Intn(3))
			for i := 0; i < n; i++ {
				m.prefill(s.Index(i))
			}
			rv.Set(s)
		}
	case reflect.Struct:
		for i := 0; i < rv.NumField(); i++ {
			if rv.Field(i).CanSet() {
				m.prefill(rv.Field(i))
			}
		}
	}
}

var dTypes = []reflect.Type{
	reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
	reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(false), reflect.TypeOf(""), reflect.TypeOf(time.Time{}), reflect.TypeOf([]byte{}),
	reflect.TypeOf(dInner{}), reflect.TypeOf(dAll{}), reflect.TypeOf(dAll{}), reflect.TypeOf(dAll{}),
	reflect.TypeOf([]string{}), reflect.TypeOf([]int{}), reflect.TypeOf([]uint16{}), reflect.TypeOf([]float64{}), reflect.TypeOf([]bool{}), reflect.TypeOf([]time.Time{}),
	reflect.TypeOf([][]int{}), reflect.TypeOf([]dInner{}), reflect.TypeOf([]gReg{}), reflect.TypeOf([]*gUn{}),
}

// anyDesc describes a generic value produced for map[string]interface{} and []interface{}.
func anyDesc(v interface{}) Ev {
	switch x := v.(type) {
	case nil:
		return Ev{"y": "nil"}
	case map[string]interface{}:
		kv := []Ev{}
		var keys []string
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			kv = append(kv, Ev{"k": Bs(strings.Clone(k)), "v": anyDesc(x[k])})
		}
		return Ev{"y": "map", "kv": kv}
	case []interface{}:
		el := []Ev{}
		for _, c := range x {
			el = append(el, anyDesc(c))
		}
		return Ev{"y": "list", "el": el}
	case int64:
		return Ev{"y": "int", "v": i64(x)}
	case float64:
		return Ev{"y": "f64", "v": f64(x)}
	case float32:
		return Ev{"y": "f32", "v": f32(x)}
	case bool:
		return Ev{"y": "bool", "v": x}
	case string:
		return Ev{"y": "str", "v": Bs(strings.Clone(x))}
	case []byte:
		return Ev{"y": "bytes", "v": append(Bs{}, x...)}
	case time.Time:
		return Ev{"y": "time", "v": goTimeRec(x)}
	}
	return Ev{"y": fmt.Sprintf("%T", v)}
}

// ToGo converts the value at p of register r, into a destination of the given type if there is one.
func (m *M) ToGo(r int, p []Step, ic bool, want reflect.Type) {
	if m.reg[r] == nil {
		return
	}
	e := Ev{"op": "togo", "r": r, "p": p, "icase": ic, "ret": false}
	c := m.rng.Intn(10)
	if want != nil {
		c = 9
	}
	m.call(e, func() {
		v := m.nav(m.reg[r], p)
		e["nav"] = v != nil
		e["form"], e["before"], e["after"] = "none", 0, 0
		if v == nil {
			return
		}
		switch {
		case c == 0:
			dst := map[string]string{"kept": "k"}
			e["form"] = "mapss"
			e["ret"] = v.ToStdValue(dst, ic)
			kv := []Ev{}
			var keys []string
			for k := range dst {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				kv = append(kv, Ev{"k": Bs(strings.Clone(k)), "v": Bs(strings.Clone(dst[k]))})
			}
			e["after"] = kv
		case c <= 2:
			dst := map[string]interface{}{}
			e["form"] = "map"
			e["ret"] = v.ToStdValue(dst, ic)
			e["after"] = anyDesc(dst)
		case c == 3:
			n := v.Count() + m.rng.Intn(3) - 1
			if n < 0 {
				n = 0
			}
			dst := make([]interface{}, n)
			e["form"] = "list"
			e["ret"] = v.ToStdValue(dst, ic)
			e["after"] = anyDesc(dst)
		case c == 4:
			n := v.Count() + m.rng.Intn(3) - 1
			if n < 0 {
				n = 0
			}
			dst := make([]string, n)
			for i := range dst {
				dst[i] = "old"
			}
			e["form"] = "strs"
			e["ret"] = v.ToStdValue(dst, ic)
			out := []Bs{}
			for _, s := range dst {
				out = append(out, Bs(strings.Clone(s)))
			}
			e["after"] = out
		default:
			t := dTypes[m.rng.Intn(len(dTypes))]
			switch kindOf(v) {
			case "obj":
				if m.rng.Intn(4) > 0 {
					t = reflect.TypeOf(dAll{})
				}
			case "arr":
				if m.rng.Intn(4) > 0 {
					t = dTypes[20+m.rng.Intn(len(dTypes)-20)]
				}
			}
			if want != nil {
				t = want
			}
			pv := reflect.New(t)
			m.prefill(pv.Elem())
			e["form"] = "ptr"
			e["before"] = goDesc(pv.Elem())
			e["ret"] = v.ToStdValue(pv.Interface(), ic)
			e["after"] = goDesc(pv.Elem())
		}
	})
	m.lazy[r] = m.lazy[r] && m.rng.Intn(2) == 0
}

// a type whose every field converts both ways
type rtInner struct {
	X int
	S string
	B []byte
	T time.Time
	F float32
}
type rtAll struct {
	I   int
	I8  int8
	U16 uint16
	U64 uint64
	F32 float32
	F64 float64
	Bo  bool
	S   string
	T   time.Time
	Bin []byte
	Ss  []string
	Is  []int32
	Fs  []float64
	Bs  []bool
	Ts  []time.Time
	Bbs [][]byte
	Iss [][]int
	In  rtInner
	Ins []rtInner
}

func normNil(rv reflect.Value) {
	switch rv.Kind() {
	case reflect.Slice:
		if rv.Len() == 0 {
			rv.Set(reflect.MakeSlice(rv.Type(), 0, 0))
		}
		for i := 0; i < rv.Len(); i++ {
			normNil(rv.Index(i))
		}
	case reflect.Struct:
		if rv.Type() == reflect.TypeOf(time.Time{}) {
			rv.Set(reflect.ValueOf(rv.Interface().(time.Time).UTC()))
			return
		}
		for i := 0; i < rv.NumField(); i++ {
			normNil(rv.Field(i))
		}
	}
}

// RoundTrip converts a struct to a document and back, possibly through a format in between.
func (m *M) RoundTrip(cached bool) {
	var a, b rtAll
	m.fillGo(reflect.ValueOf(&a).Elem(), 5)
	e := Ev{"op": "rt", "same": false}
	m.call(e, func() {
		v := dx.NewValueFrom(&a, cached)
		w := v
		switch m.rng.Intn(3) {
		case 0:
			x, err := dx.NewValueFromMsgPack(v.ToMsgPack(nil), cached, false)
			if err != nil {
				return
			}
			w = x
		case 1:
			w = v.Clone(!cached)
		}
		ret := w.ToStdValue(&b, m.rng.Intn(2) == 0)
		normNil(reflect.ValueOf(&a).Elem())
		normNil(reflect.ValueOf(&b).Elem())
		e["same"] = ret && reflect.DeepEqual(a, b)
	})
	_ = binary.BigEndian
	_ = DxCommonLib.TDateTime(0)
}

// goTerm is a Go type named by a model: a base type, or a constructor over another type.
type goTerm struct {
	C  string  `json:"c"` // base, ptr, slice, map, struct, ilist, imap
	Ty string  `json:"ty"`
	E  *goTerm `json:"e"`
}

var baseTypes = map[string]reflect.Type{
	"int": reflect.TypeOf(int(0)), "int8": reflect.TypeOf(int8(0)), "int16": reflect.TypeOf(int16(0)), "int32": reflect.TypeOf(int32(0)), "int64": reflect.TypeOf(int64(0)),
	"uint": reflect.TypeOf(uint(0)), "uint8": reflect.TypeOf(uint8(0)), "uint16": reflect.TypeOf(uint16(0)), "uint32": reflect.TypeOf(uint32(0)), "uint64": reflect.TypeOf(uint64(0)),
	"float32": reflect.TypeOf(float32(0)), "float64": reflect.TypeOf(float64(0)), "bool": reflect.TypeOf(false), "string": reflect.TypeOf(""),
	"time": reflect.TypeOf(time.Time{}), "bytes": reflect.TypeOf([]byte{}), "enc": reflect.TypeOf(gEnc{}), "penc": reflect.TypeOf(&gPEnc{}),
	"inner": reflect.TypeOf(gInner{}), "doc": reflect.TypeOf(&dx.DxValue{}), "docv": reflect.TypeOf(dx.DxValue{}),
	"myint": reflect.TypeOf(myInt(0)), "myu8": reflect.TypeOf(myU8(0)), "mystr": reflect.TypeOf(myStr("")), "mybool": reflect.TypeOf(myBool(false)), "myf32": reflect.TypeOf(myF32(0)), "myf64": reflect.TypeOf(myF64(0)),
	"reg": reflect.TypeOf(gReg{}), "un": reflect.TypeOf(&gUn{}), "dinner": reflect.TypeOf(dInner{}),
}
var anyType = reflect.TypeOf((*interface{})(nil)).Elem()

func (g *goTerm) typ() reflect.Type {
	switch g.C {
	case "base":
		t, ok := baseTypes[g.Ty]
		if !ok {
			fatal(fmt.Errorf("no base type %q", g.Ty))
		}
		return t
	case "ptr":
		return reflect.PtrTo(g.E.typ())
	case "slice":
		return reflect.SliceOf(g.E.typ())
	case "array":
		return reflect.ArrayOf(3, g.E.typ())
	case "piface":
		return reflect.PtrTo(anyType)
	case "map":
		return reflect.MapOf(reflect.TypeOf(""), g.E.typ())
	case "struct":
		t := g.E.typ()
		return reflect.StructOf([]reflect.StructField{{Name: "A", Type: t}, {Name: "Bb", Type: reflect.TypeOf(0)}, {Name: "C", Type: t}})
	case "ilist":
		return reflect.SliceOf(anyType)
	case "imap":
		return reflect.MapOf(reflect.TypeOf(""), anyType)
	}
	fatal(fmt.Errorf("no type constructor %q", g.C))
	return nil
}

// make fills rv with a value of the term; a pointer may be nil where it is a member or an element.
func (g *goTerm) make(m *M, rv reflect.Value, mayNil bool) {
	switch g.C {
	case "base":
		switch g.Ty {
		case "penc":
			rv.Set(reflect.ValueOf(&gPEnc{m.rng.Intn(100)}))
		case "doc":
			rv.Set(reflect.ValueOf(build(m.doc(m.profAll()), false, m.coin())))
		case "docv":
			rv.Set(reflect.ValueOf(*build(m.doc(m.profAll()), false, m.coin())))
		default:
			m.fillGo(rv, 3)
		}
	case "ptr":
		if mayNil && m.rng.Intn(3) == 0 {
			return
		}
		p := reflect.New(rv.Type().Elem())
		g.E.make(m, p.Elem(), true)
		rv.Set(p)
	case "array":
		for i := 0; i < rv.Len(); i++ {
			g.E.make(m, rv.Index(i), true)
		}
	case "piface":
		x := reflect.New(g.E.typ()).Elem()
		g.E.make(m, x, true)
		p := reflect.New(anyType)
		p.Elem().Set(x)
		rv.Set(p)
	case "slice", "ilist":
		n := m.rng.Intn(4)
		s := reflect.MakeSlice(rv.Type(), n, n)
		for i := 0; i < n; i++ {
			if g.C == "ilist" {
				x := reflect.New(g.E.typ()).Elem()
				g.E.make(m, x, true)
				s.Index(i).Set(x)
			} else {
				g.E.make(m, s.Index(i), true)
			}
		}
		rv.Set(s)
	case "map", "imap":
		n := m.rng.Intn(4)
		mp := reflect.MakeMap(rv.Type())
		for i := 0; i < n; i++ {
			x := reflect.New(g.E.typ()).Elem()
			g.E.make(m, x, true)
			mp.SetMapIndex(reflect.ValueOf(m.key()), x)
		}
		rv.Set(mp)
	case "struct":
		g.E.make(m, rv.Field(0), true)
		rv.Field(1).SetInt(m.int())
		g.E.make(m, rv.Field(2), true)
	}
}

func (g *goTerm) value(m *M) interface{} {
	rv := reflect.New(g.typ()).Elem()
	g.make(m, rv, true)
	return rv.Interface()
}
