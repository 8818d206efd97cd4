// The register machine: runs library calls and records one event per call.
package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync/atomic"
	"time"

	"github.com/suiyunonghen/DxCommonLib"
	dx "github.com/suiyunonghen/dxsvalue"
)

const NREG = 6

// Step addresses a member by key (K != nil) or by position.
type Step struct {
	K Bs
	N int
}

func (s Step) MarshalJSON() ([]byte, error) {
	if s.K != nil {
		j, _ := s.K.MarshalJSON()
		return []byte(`{"k":` + string(j) + `}`), nil
	}
	return []byte(fmt.Sprintf(`{"n":%d}`, s.N)), nil
}

type Ev = map[string]interface{}

type sharedBuf struct {
	live, orig []byte
}

type pastIn struct {
	format string
	in     []byte
}

// M is one history.
type M struct {
	rng     *rand.Rand
	reg     [NREG]*dx.DxValue
	own     [NREG]map[int]bool // slabs whose root lies in the register
	taint   [NREG]map[int]bool // slabs the register's nodes lie in
	lazy    [NREG]bool         // may hold unread JSON text: do not look at keys
	built   [NREG]bool         // all strings set by the program
	nslab   int
	ev      []Ev
	bufs    []sharedBuf
	dir     string
	slots   bool // the driver's files are set up
	dead    bool // a call panicked: stop
	icase   bool
	small   bool           // values from small pools, so that equal ones meet
	fam     int            // where the names that fold together are taken from
	wide    bool           // documents with many members
	collide bool           // write JSON objects with keys that differ in case only
	mixed   bool           // documents may hold keys that differ in case only
	dates   bool           // write JSON date literals
	tick    *int64         // progress for the watchdog
	prev    map[string]int // decoded input -> the event of its first decoding
	past    []pastIn       // inputs decoded in this history
	note    string
}

func newM(seed int64) *M {
	m := &M{rng: rand.New(rand.NewSource(seed)), icase: dx.IgnoreCase}
	for i := range m.own {
		m.own[i] = map[int]bool{}
		m.taint[i] = map[int]bool{}
	}
	return m
}

func (m *M) emit(e Ev) { m.ev = append(m.ev, e) }

// call runs f; a panic is recorded in the event and ends the history.
func (m *M) call(e Ev, f func()) bool {
	if m.dead {
		return false
	}
	atomic.StoreInt64(&lastTick, time.Now().UnixNano())
	ok := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				e["st"] = "panic"
				e["msg"] = fmt.Sprint(r)
				m.dead = true
			}
		}()
		f()
		ok = true
	}()
	if ok {
		e["st"] = "ok"
	}
	m.emit(e)
	return ok
}

func (m *M) clearReg(r int) {
	m.reg[r] = nil
	m.own[r] = map[int]bool{}
	m.taint[r] = map[int]bool{}
	m.lazy[r], m.built[r] = false, false
}

func (m *M) drop(r int) {
	if m.reg[r] != nil {
		m.clearReg(r)
		m.emit(Ev{"op": "drop", "r": r, "st": "ok"})
	}
}

func (m *M) newSlab(r int) {
	m.nslab++
	m.own[r][m.nslab] = true
	m.taint[r][m.nslab] = true
}

// place puts a new root into r.
func (m *M) place(r int, v *dx.DxValue, cached bool) {
	m.clearReg(r)
	m.reg[r] = v
	if cached && v != nil && !v.ReadOnly() {
		m.newSlab(r)
	}
}

// recycle drops every other register whose nodes may live in storage that r is about to give back.
func (m *M) recycle(r int) {
	for q := 0; q < NREG; q++ {
		if q == r || m.reg[q] == nil {
			continue
		}
		for id := range m.own[r] {
			if m.taint[q][id] {
				m.drop(q)
				break
			}
		}
	}
}

func union(a, b map[int]bool) {
	for k := range b {
		a[k] = true
	}
}

func (m *M) nav(v *dx.DxValue, p []Step) *dx.DxValue {
	for _, s := range p {
		if v == nil {
			return nil
		}
		if s.K != nil {
			v = v.ValueByName(string(s.K))
		} else {
			v = v.ValueByIndex(s.N)
		}
	}
	return v
}

// liveRegs lists the registers that hold a value.
func (m *M) live() []int {
	var out []int
	for i, v := range m.reg {
		if v != nil {
			out = append(out, i)
		}
	}
	return out
}

// walk picks a path into register r (existing members mostly).
func (m *M) walk(r int, maxd int) []Step {
	p := []Step{}
	v := m.reg[r]
	for d := 0; d < maxd && v != nil; d++ {
		n := v.Count()
		if n == 0 || m.rng.Intn(4) == 0 {
			break
		}
		i := m.rng.Intn(n)
		c := v.ValueByIndex(i)
		var s Step
		switch {
		case v.Type() == dx.VT_Object && !m.lazy[r] && m.rng.Intn(3) > 0:
			s = Step{K: Bs(strings.Clone(v.KeyNameByIndex(i)))}
		case v.Type() == dx.VT_Array && m.rng.Intn(3) == 0:
			s = Step{K: Bs(fmt.Sprint(i))}
		default:
			s = Step{N: i}
		}
		p = append(p, s)
		v = c
	}
	if m.rng.Intn(12) == 0 {
		if m.rng.Intn(2) == 0 {
			p = append(p, Step{K: Bs(m.key())})
		} else {
			p = append(p, Step{N: m.rng.Intn(4) - 1})
		}
	}
	return p
}

func (m *M) New(r int, kd string, cached bool) {
	m.drop(r)
	e := Ev{"op": "new", "r": r, "kd": kd, "cached": cached}
	m.call(e, func() {
		var v *dx.DxValue
		switch {
		case kd == "obj" && m.rng.Intn(2) == 0:
			v = dx.NewObject(cached)
		case kd == "arr" && m.rng.Intn(2) == 0:
			v = dx.NewArray(cached)
		case cached:
			v = dx.NewCacheValue(kinds[kd])
		default:
			v = dx.NewValue(kinds[kd])
		}
		m.place(r, v, cached)
		m.built[r] = true
	})
}

// Build constructs d in r with the setters (recorded as one event).
func (m *M) Build(r int, d *D, cached bool) { m.BuildS(r, d, cached, m.rng.Intn(2) == 0) }

func (m *M) BuildS(r int, d *D, cached, share bool) {
	m.drop(r)
	e := Ev{"op": "build", "r": r, "v": d, "cached": cached}
	m.call(e, func() {
		m.place(r, build(d, cached, share), cached)
		m.built[r] = true
	})
}

func (m *M) Dump(r int, via string) {
	if via == "name" && m.mixed && dx.IgnoreCase { // names do not tell members apart
		via = "visit"
	}
	if m.reg[r] == nil {
		return
	}
	e := Ev{"op": "dump", "r": r, "via": via}
	m.call(e, func() {
		if via == "clone" {
			e["d"] = dump(m.reg[r].Clone(false), "items")
		} else {
			e["d"] = dump(m.reg[r], via)
			m.lazy[r] = false
		}
	})
}

var vias = []string{"items", "visit", "index", "name"}

func (m *M) via() string { return vias[m.rng.Intn(len(vias))] }

func (m *M) DumpAll() {
	for _, r := range m.live() {
		m.Dump(r, m.via())
	}
	m.checkBufs()
}

// checkBufs: buffers handed to the library were never written to.
func (m *M) checkBufs() {
	if len(m.bufs) == 0 {
		return
	}
	ok := true
	for _, b := range m.bufs {
		if !bytes.Equal(b.live, b.orig) {
			ok = false
		}
	}
	m.emit(Ev{"op": "bufs", "ok": ok, "st": "ok"})
}

// O is the argument record of a mutation.
type O = map[string]interface{}

func kb(o O, k string) Bs { b, _ := o[k].(Bs); return b }

// doMut performs the mutation o on v.
func doMut(v *dx.DxValue, o O, src *dx.DxValue) {
	k := string(kb(o, "k"))
	n, _ := o["n"].(int)
	kd := dx.VT_NULL
	if s, ok := o["kd"].(string); ok {
		kd = kinds[s]
	}
	switch o["f"].(string) {
	case "SetInt":
		v.SetInt(kb(o, "i").int64())
	case "SetFloat":
		v.SetFloat(kb(o, "fl").float32())
	case "SetDouble":
		v.SetDouble(kb(o, "d").float64())
	case "SetTime":
		v.SetTime(timeOf(kb(o, "d").float64()))
	case "SetDelphiTime":
		v.SetDelphiTime(DxCommonLib.TDateTime(kb(o, "d").float64()))
	case "SetString":
		v.SetString(string(kb(o, "s")))
	case "SetBool":
		v.SetBool(o["bv"].(bool))
	case "SetBinary":
		b := append([]byte{}, kb(o, "b")...)
		v.SetBinary(b, true)
		scribble(b)
	case "SetBinaryShared":
		v.SetBinary(append([]byte{}, kb(o, "b")...), false)
	case "SetExtType":
		v.SetExtType(byte(o["x"].(int)))
	case "Reset":
		v.Reset(kd)
	case "Clear":
		v.Clear()
	case "SetKey":
		v.SetKey(k, kd)
	case "SetKeyCached":
		v.SetKeyCached(k, kd, v.ValueCache())
	case "SetKeyInt":
		v.SetKeyInt(k, kb(o, "i").int64())
	case "SetKeyFloat":
		v.SetKeyFloat(k, kb(o, "fl").float32())
	case "SetKeyDouble":
		v.SetKeyDouble(k, kb(o, "d").float64())
	case "SetKeyString":
		v.SetKeyString(k, string(kb(o, "s")))
	case "SetKeyBool":
		v.SetKeyBool(k, o["bv"].(bool))
	case "SetKeyTime":
		v.SetKeyTime(k, timeOf(kb(o, "d").float64()))
	case "SetKeyConst":
		v.SetKeyValue(k, dx.NewValue(kd))
	case "SetIndexConst":
		v.SetIndexValue(n, dx.NewValue(kd))
	case "SetKeyNil":
		v.SetKeyValue(k, nil)
	case "SetIndexNil":
		v.SetIndexValue(n, nil)
	case "SetKeyBin":
		c := v.SetKey(k, dx.VT_Binary)
		b := append([]byte{}, kb(o, "b")...)
		c.SetBinary(b, true)
		scribble(b)
	case "SetKeyExt":
		c := v.SetKey(k, dx.VT_ExBinary)
		c.SetExtType(byte(o["x"].(int)))
		b := append([]byte{}, kb(o, "b")...)
		c.SetBinary(b, true)
		scribble(b)
	case "SetKeyValue":
		v.SetKeyValue(k, src)
	case "SetIndex":
		v.SetIndex(n, kd)
	case "SetIndexInt":
		v.SetIndexInt(n, kb(o, "i").int64())
	case "SetIndexFloat":
		v.SetIndexFloat(n, kb(o, "fl").float32())
	case "SetIndexDouble":
		v.SetIndexDouble(n, kb(o, "d").float64())
	case "SetIndexString":
		v.SetIndexString(n, string(kb(o, "s")))
	case "SetIndexBool":
		v.SetIndexBool(n, o["bv"].(bool))
	case "SetIndexTime":
		v.SetIndexTime(n, timeOf(kb(o, "d").float64()))
	case "SetIndexValue":
		v.SetIndexValue(n, src)
	case "Append":
		v.Append(kd)
	case "Insert":
		v.InsertValue(n, kd)
	case "RemoveKey":
		v.RemoveKey(k)
	case "RemoveIndex":
		v.RemoveIndex(n)
	case "ForcePath":
		ks := []string{}
		for _, x := range o["ks"].([]Bs) {
			ks = append(ks, string(x))
		}
		v.ForcePath(kd, ks...)
	default:
		panic("unknown mutation " + o["f"].(string))
	}
}

func timeOf(d float64) time.Time {
	// d is a multiple of 1/1024 day
	n := int64(d * 1024)
	ms := n * 84375
	ms -= 25569 * 86400000
	return time.Unix(ms/1000, (ms%1000)*1000000).In(time.UTC)
}

func scribble(b []byte) {
	for i := range b {
		b[i] = 'Z'
	}
}

// Mut applies a mutation to the value at path p of register r.
func (m *M) Mut(r int, p []Step, o O, src int) bool {
	if m.reg[r] == nil || m.dead {
		return false
	}
	f := o["f"].(string)
	if src >= 0 && (src == r || m.reg[src] == nil) {
		return false
	}
	e := Ev{"op": "mut", "r": r, "p": p, "o": o}
	if src >= 0 {
		e["src"] = src
	}
	if f == "Clear" && len(p) == 0 {
		m.recycle(r)
	}
	skip := false
	ok := false
	atomic.StoreInt64(&lastTick, time.Now().UnixNano())
	func() {
		defer func() {
			if x := recover(); x != nil {
				e["st"] = "panic"
				e["msg"] = fmt.Sprint(x)
				m.dead = true
			}
		}()
		v := m.nav(m.reg[r], p)
		e["nav"] = v != nil
		e["ro"] = false
		if v != nil {
			e["ro"] = v.ReadOnly()
			// calls whose result the specification leaves open
			if f == "Clear" && len(p) > 0 && v.ValueCache() != nil ||
				(f == "SetBinary" || f == "SetBinaryShared") && v.Type() == dx.VT_ExBinary && v.BinLen() == 0 && v.BinExtType() == 0 ||
				v.ExtType != 0 && f == "SetExtType" {
				skip = true
				return
			}
			var sv *dx.DxValue
			if src >= 0 {
				sv = m.reg[src]
			}
			doMut(v, o, sv)
		}
		e["st"] = "ok"
		ok = true
	}()
	if skip {
		return false
	}
	if src >= 0 && ok && e["nav"].(bool) && !e["ro"].(bool) {
		union(m.own[r], m.own[src])
		union(m.taint[r], m.taint[src])
		m.lazy[r] = m.lazy[r] || m.lazy[src]
		m.built[r] = m.built[r] && m.built[src]
		m.clearReg(src)
		e["moved"] = true
	} else if src >= 0 {
		e["moved"] = false
	}
	m.emit(e)
	return ok
}

func (m *M) Extract(r int, p []Step, k string, to int) {
	if m.reg[r] == nil || to == r {
		return
	}
	m.drop(to)
	e := Ev{"op": "extract", "r": r, "p": p, "k": Bs(k), "to": to}
	m.call(e, func() {
		v := m.nav(m.reg[r], p)
		e["nav"] = v != nil
		e["found"] = false
		if v != nil {
			x := v.ExtractValue(k)
			e["found"] = x != nil
			if x != nil {
				m.clearReg(to)
				m.reg[to] = x
				union(m.own[to], m.own[r])
				union(m.taint[to], m.taint[r])
				m.lazy[to], m.built[to] = m.lazy[r], m.built[r]
			}
		}
	})
}

func (m *M) Free(r int) {
	if m.reg[r] == nil {
		return
	}
	m.recycle(r)
	v := m.reg[r]
	ro := v.ReadOnly()
	e := Ev{"op": "free", "r": r}
	m.call(e, func() { dx.FreeValue(v) })
	_ = ro
	m.clearReg(r)
}

func (m *M) Clone(r int, p []Step, to int, cached bool) {
	if m.reg[r] == nil || to == r {
		return
	}
	m.drop(to)
	e := Ev{"op": "clone", "r": r, "p": p, "to": to, "cached": cached}
	m.call(e, func() {
		v := m.nav(m.reg[r], p)
		e["nav"] = v != nil
		if v != nil {
			c := v.Clone(cached)
			lz, bu := m.lazy[r], m.built[r]
			m.place(to, c, cached)
			m.lazy[to], m.built[to] = lz, bu
		}
	})
}

// Copy copies register r (at p) into register to (at q) with CopyFrom or SetValue.
func (m *M) Copy(r int, p []Step, to int, q []Step, how string) {
	if m.reg[r] == nil || m.reg[to] == nil {
		return
	}
	if strings.HasPrefix(how, "AddFrom") {
		a, b := m.nav(m.reg[r], p), m.nav(m.reg[to], q)
		if a == nil || b == nil || kindOf(a) != kindOf(b) {
			return
		}
	}
	e := Ev{"op": "copy", "r": r, "p": p, "to": to, "q": q, "how": how, "ro": false}
	m.call(e, func() {
		v := m.nav(m.reg[r], p)
		t := m.nav(m.reg[to], q)
		e["nav"] = v != nil && t != nil
		if v == nil || t == nil {
			return
		}
		e["ro"] = t.ReadOnly()
		m.lazy[to] = m.lazy[to] || m.lazy[r]
		m.built[to] = m.built[to] && m.built[r]
		switch how {
		case "CopyFrom":
			t.CopyFrom(v, nil)
		case "CopyFromCache":
			t.CopyFrom(v, t.ValueCache())
		case "SetValue":
			t.SetValue(v)
		case "SetValueStruct":
			t.SetValue(*v)
		case "AddFrom":
			t.AddFrom(v, nil)
		case "AddFromCache":
			t.AddFrom(v, t.ValueCache())
		}
	})
}

func (m *M) Eq(r int, p []Step, r2 int, p2 []Step) {
	if m.reg[r] == nil || m.reg[r2] == nil {
		return
	}
	e := Ev{"op": "eq", "r": r, "p": p, "to": r2, "q": p2}
	m.call(e, func() {
		a, b := m.nav(m.reg[r], p), m.nav(m.reg[r2], p2)
		e["nav"] = a != nil && b != nil
		e["got"] = false
		if a != nil && b != nil {
			e["got"] = a.Equal(b)
		}
	})
}

// Policy answers merge conflicts.
type Policy struct {
	CB    bool   `json:"cb"`
	Dflt  string `json:"dflt"`
	Rules []Rule `json:"rules"`
}
type Rule struct {
	Path Bs     `json:"path"`
	Op   string `json:"op"`
}

var mergeOps = map[string]dx.MergeOp{"normal": dx.MO_Normal, "replace": dx.MO_Replace, "custom": dx.MO_Custom}

func (m *M) Merge(to int, q []Step, r int, p []Step, pol Policy, full bool) {
	if m.reg[r] == nil || m.reg[to] == nil {
		return
	}
	if pol.Rules == nil {
		pol.Rules = []Rule{}
	}
	calls := []Ev{}
	e := Ev{"op": "merge", "r": r, "p": p, "to": to, "q": q, "pol": pol, "full": full}
	m.call(e, func() {
		v := m.nav(m.reg[r], p)
		t := m.nav(m.reg[to], q)
		e["nav"] = v != nil && t != nil
		if v == nil || t == nil {
			return
		}
		m.lazy[to] = m.lazy[to] || m.lazy[r]
		m.built[to] = m.built[to] && m.built[r]
		var cb dx.MergeFunc
		if pol.CB {
			cb = func(path string, o, n *dx.DxValue) dx.MergeOp {
				c := Ev{"path": Bs(strings.Clone(path))}
				if full {
					c["old"] = dump(o, "items")
					c["new"] = dump(n, "items")
				}
				calls = append(calls, c)
				for _, ru := range pol.Rules {
					if string(ru.Path) == path {
						return mergeOps[ru.Op]
					}
				}
				return mergeOps[pol.Dflt]
			}
		}
		t.MergeWith(v, cb)
	})
	e["calls"] = calls
}

// ---------------------------------------------------------------- reading

var types = []string{"int", "float", "double", "bool", "string", "datetime", "gotime", "duration"}

// Read performs one typed read through an accessor family.
func (m *M) Read(r int, p []Step, fam, ty string, k string, n int, ks []Bs, alt int) {
	if m.reg[r] == nil {
		return
	}
	e := Ev{"op": "read", "r": r, "p": p, "fam": fam, "ty": ty, "k": Bs(k), "n": n, "ks": ks}
	if ks == nil {
		e["ks"] = []Bs{}
	}
	m.call(e, func() {
		v := m.nav(m.reg[r], p)
		e["nav"] = v != nil
		if v == nil {
			e["def"], e["got"] = 0, 0
			return
		}
		sks := make([]string, len(ks))
		for i := range ks {
			sks[i] = string(ks[i])
		}
		switch ty {
		case "int":
			def := int64(-987654321)
			e["def"] = i64(def)
			var g int64
			switch fam {
			case "direct":
				g = v.Int()
			case "name":
				switch alt % 3 {
				case 0:
					g = int64(v.AsInt(k, int(def)))
				case 1:
					g = v.AsInt64(k, def)
				default:
					g = int64(v.IntByName(k, int(def)))
				}
			case "path":
				g = v.IntByPath(def, sks...)
			case "index":
				g = int64(v.IntByIndex(n, int(def)))
			}
			e["got"] = i64(g)
		case "float":
			def := float32(-77.25)
			e["def"] = f32(def)
			var g float32
			switch fam {
			case "direct":
				g = v.Float()
			case "name":
				if alt%2 == 0 {
					g = v.AsFloat(k, def)
				} else {
					g = v.FloatByName(k, def)
				}
			case "path":
				g = v.FloatByPath(def, sks...)
			case "index":
				g = v.FloatByIndex(n, def)
			}
			e["got"] = f32(g)
		case "double":
			def := float64(-77.25)
			e["def"] = f64(def)
			var g float64
			switch fam {
			case "direct":
				g = v.Double()
			case "name":
				if alt%2 == 0 {
					g = v.AsDouble(k, def)
				} else {
					g = v.DoubleByName(k, def)
				}
			case "path":
				g = v.DoubleByPath(def, sks...)
			case "index":
				g = v.DoubleByIndex(n, def)
			}
			e["got"] = f64(g)
		case "bool":
			def := alt%2 == 0
			e["def"] = def
			g := false
			switch fam {
			case "direct":
				g = v.Bool()
			case "name":
				if alt%4 < 2 {
					g = v.AsBool(k, def)
				} else {
					g = v.BoolByName(k, def)
				}
			case "path":
				g = v.BoolByPath(def, sks...)
			case "index":
				g = v.BoolByIndex(n, def)
			}
			e["got"] = g
		case "string":
			def := "~default~"
			e["def"] = Bs(def)
			g := ""
			switch fam {
			case "direct":
				g = v.String()
			case "name":
				if alt%2 == 0 {
					g = v.AsString(k, def)
				} else {
					g = v.StringByName(k, def)
				}
			case "path":
				g = v.StringByPath(def, sks...)
			case "index":
				g = v.StringByIndex(n, def)
			}
			e["got"] = Bs(strings.Clone(g))
		case "datetime":
			def := 12345.5
			e["def"] = f64(def)
			var g DxCommonLib.TDateTime
			switch fam {
			case "direct":
				g = v.DateTime()
			case "name":
				g = v.AsDateTime(k, DxCommonLib.TDateTime(def))
			case "path":
				g = v.DateTimeByPath(DxCommonLib.TDateTime(def), sks...)
			}
			e["got"] = f64(float64(g))
		case "gotime":
			def := time.Date(2001, 2, 3, 4, 5, 6, 0, time.UTC)
			e["def"] = goTimeRec(def)
			var g time.Time
			switch fam {
			case "direct":
				g = v.GoTime()
			case "name":
				g = v.TimeByName(k, def)
			case "path":
				g = v.GoTimeByPath(def, sks...)
			}
			e["got"] = goTimeRec(g)
		case "duration":
			def := time.Duration(-123456789)
			e["def"] = i64(int64(def))
			var g time.Duration
			switch fam {
			case "direct":
				g = v.Duration(def)
			case "name":
				if alt%2 == 0 {
					g = v.AsDuration(def, k)
				} else {
					g = v.DurationByName(def, k)
				}
			case "path":
				g = v.DurationByPath(def, sks...)
			}
			e["got"] = i64(int64(g))
		}
	})
}

// Look performs one structural observation.
func (m *M) Look(r int, p []Step, what string, k string, n int, ks []Bs) {
	if m.reg[r] == nil {
		return
	}
	if ks == nil {
		ks = []Bs{}
	}
	e := Ev{"op": "look", "r": r, "p": p, "what": what, "k": Bs(k), "n": n, "ks": ks}
	m.call(e, func() {
		v := m.nav(m.reg[r], p)
		e["nav"] = v != nil
		e["got"] = 0
		if v == nil {
			return
		}
		opt := func(c *dx.DxValue) Ev {
			if c == nil {
				return Ev{"ok": false}
			}
			return Ev{"ok": true, "v": dump(c, "items")}
		}
		switch what {
		case "count":
			e["got"] = v.Count()
		case "type":
			e["got"] = kindOf(v)
		case "keyname":
			e["got"] = Bs(strings.Clone(v.KeyNameByIndex(n)))
		case "items":
			key, c := v.Items(n)
			e["got"] = Ev{"k": Bs(strings.Clone(key)), "c": opt(c)}
		case "has": // the member is not looked into
			c := v.ValueByName(k)
			e["got"] = ""
			if c != nil {
				e["got"] = kindOf(c)
			}
		case "byname":
			e["got"] = opt(v.ValueByName(k))
		case "find":
			e["got"] = opt(v.Find(k))
		case "bypath":
			sks := make([]string, len(ks))
			for i := range ks {
				sks[i] = string(ks[i])
			}
			e["got"] = opt(v.ValueByPath(sks...))
		case "byindex":
			e["got"] = opt(v.ValueByIndex(n))
		case "bin":
			e["got"] = Ev{"n": v.BinLen(), "x": int(v.BinExtType()), "b": append(Bs{}, v.Binary()...)}
		case "visit": // stop after n+1 members
			keys := []Bs{}
			left := n
			v.Visit(func(key string, _ *dx.DxValue) bool {
				keys = append(keys, Bs(strings.Clone(key)))
				left--
				return left >= 0
			})
			e["got"] = keys
		}
	})
}

// ---------------------------------------------------------------- codecs

// DecOpt says how to decode.
type DecOpt struct {
	Entry  string // new, load, unmarshal, file
	Cached bool
	Share  bool
	Q      []Step // load target
	NoDump bool
	Big    bool
}

func (m *M) fileName(name string) string { return filepath.Join(m.dir, name) }

// layout puts the input into a larger buffer: the bytes before and behind it belong to somebody else. What is behind
// may look like a continuation of the input, or there may be no capacity left at all.
func (m *M) layout(in []byte) (buf, whole []byte) {
	var tail []byte
	switch m.rng.Intn(5) {
	case 0:
		whole = append(make([]byte, 0, len(in)), in...)
		return whole[:len(in):len(in)], whole
	case 1:
		tail = make([]byte, 12)
	case 2:
		tail = append(tail, in...)
		if len(tail) > 24 {
			tail = tail[len(tail)-24:]
		}
	case 3:
		tail = []byte("0e1\"}]}00,")
	default:
		tail = []byte{0xc0, 0x01, 0x00, 0x02, 0xff, 0x10, 0x61, 0x00, 0x00, 0x80}
	}
	off := m.rng.Intn(3)
	whole = append(make([]byte, off, off+len(in)+len(tail)), in...)
	whole = append(whole, tail...)
	return whole[off : off+len(in)], whole
}

// Dec decodes in into register r.
func (m *M) Dec(r int, format string, in []byte, opt DecOpt) bool {
	buf, whole := m.layout(in)
	wholeIn := append([]byte{}, whole...)
	e := Ev{"op": "dec", "fmt": format, "entry": opt.Entry, "r": r, "in": Bs(append([]byte{}, in...)),
		"cached": opt.Cached, "share": opt.Share, "ok": false, "dumped": false, "inmod": false, "ro": false, "nav": true, "big": opt.Big,
		"q": []Step{}}
	if opt.Q != nil {
		e["q"] = opt.Q
	}
	load := opt.Entry == "load" || opt.Entry == "unmarshal"
	if bytes.Contains(in, []byte("Date(")) {
		opt.NoDump = false // the value must be seen
	}
	if load {
		if m.reg[r] == nil {
			return false
		}
		if len(opt.Q) == 0 {
			m.recycle(r)
		} else if t := m.nav(m.reg[r], opt.Q); t != nil && t.ValueCache() != nil {
			return false
		}
	} else {
		m.drop(r)
	}
	res := false
	m.call(e, func() {
		var v *dx.DxValue
		var err error
		if load {
			v = m.nav(m.reg[r], opt.Q)
			e["nav"] = v != nil
			if v == nil {
				return
			}
			e["ro"] = v.ReadOnly()
			if opt.Entry == "unmarshal" {
				err = dx.Unmarshal(buf, v)
			} else {
				switch format {
				case "json":
					err = v.LoadFromJson(buf, opt.Share)
				case "msgpack":
					err = v.LoadFromMsgPack(buf, opt.Share)
				case "bson":
					err = v.LoadFromBson(buf, opt.Share)
				case "yaml":
					err = v.LoadFromYaml(buf)
				}
			}
		} else if opt.Entry == "file" {
			fn := m.fileName("in." + format)
			if werr := os.WriteFile(fn, in, 0600); werr != nil {
				fatal(werr)
			}
			switch format {
			case "json":
				v, err = dx.NewValueFromJsonFile(fn, opt.Cached)
			case "msgpack":
				v, err = dx.NewValueFromMsgPackFile(fn, opt.Cached)
			case "yaml":
				v, err = dx.NewValueFromYamlFile(fn, opt.Cached)
			}
			after, _ := os.ReadFile(fn)
			e["inmod"] = !bytes.Equal(after, in)
			os.Remove(fn)
		} else {
			v, err = decodeNew(format, buf, opt.Cached, opt.Share)
		}
		if !bytes.Equal(whole, wholeIn) {
			e["inmod"] = true
		}
		if err != nil {
			// the message must be printable
			e["err"] = len(err.Error()) > 0
		} else {
			e["err"] = true
		}
		e["ok"] = err == nil
		e["hasdoc"] = v != nil
		shareLive := opt.Share && format != "yaml"
		if !shareLive {
			scribble(whole)
		} else {
			m.bufs = append(m.bufs, sharedBuf{whole, wholeIn})
		}
		ro := e["ro"].(bool)
		if !load {
			if err == nil && v != nil {
				m.place(r, v, opt.Cached || format == "yaml")
			}
		}
		if m.reg[r] != nil && !ro {
			m.built[r] = false
			m.lazy[r] = m.lazy[r] || format == "json"
		}
		if !opt.NoDump {
			e["dumped"] = true
			x := v
			if x != nil && (load || err == nil) {
				e["d"] = dump(x, "items")
				if !load || len(opt.Q) == 0 {
					m.lazy[r] = false
				}
			} else {
				e["dumped"] = false
			}
		}
		res = err == nil && v != nil
	})
	m.remember(e, format, in)
	return res
}

// remember links a decoding to an earlier one of the same text.
func (m *M) remember(e Ev, format string, in []byte) {
	text := bytes.TrimLeft(in, " \t\r\n")
	if e["entry"] == "file" && (format == "json" || format == "yaml") {
		text = bytes.TrimLeft(bytes.TrimPrefix(in, []byte{0xef, 0xbb, 0xbf}), " \t\r\n")
	}
	if e["st"] != "ok" || e["big"] == true || e["ro"] == true || e["nav"] != true || len(text) == 0 || bytes.Contains(in, []byte("Date(")) {
		return
	}
	if len(m.past) < 200 {
		m.past = append(m.past, pastIn{format, append([]byte{}, in...)})
	}
	if e["entry"] == "file" && (format == "json" || format == "yaml") {
		in = bytes.TrimPrefix(in, []byte{0xef, 0xbb, 0xbf})
	}
	k := format + "\x00" + string(in)
	if m.prev == nil {
		m.prev = map[string]int{}
	}
	if p, ok := m.prev[k]; ok {
		e["prev"] = p
		if m.ev[p-1]["dumped"] == false && e["dumped"] == true {
			m.prev[k] = len(m.ev)
		}
	} else {
		m.prev[k] = len(m.ev)
	}
}

// Again decodes an input of this history once more, through any entry.
func (m *M) Again() {
	if len(m.past) == 0 || m.dead {
		return
	}
	q := m.past[m.rng.Intn(len(m.past))]
	entry := m.pick([]string{"new", "load", "load", "file"})
	if entry == "file" && (q.format == "bson" || m.dir == "") {
		entry = "new"
	}
	r := m.rng.Intn(3)
	if entry == "load" {
		if m.reg[r] == nil || m.reg[r].ReadOnly() {
			m.New(r, m.pick(loadKinds), m.coin())
		}
		if q.format == "json" && m.rng.Intn(3) == 0 {
			entry = "unmarshal"
		}
	}
	m.Dec(r, q.format, q.in, DecOpt{Entry: entry, Cached: m.coin(), Share: m.coin() && entry != "file" && entry != "unmarshal"})
}

// enumDec decodes in by both entries, over values of changing kinds.
func (m *M) enumDec(format string, in []byte, idx int) {
	m.Dec(0, format, in, DecOpt{Entry: "new", Cached: idx%2 == 0, Share: idx%3 == 0})
	if m.dead {
		return
	}
	r := 1 + idx%3
	if m.reg[r] == nil || idx%5 == 0 {
		m.New(r, loadKinds[(idx/5)%len(loadKinds)], idx%2 == 0)
	}
	m.Dec(r, format, in, DecOpt{Entry: "load", Share: idx%4 == 0})
}

var loadKinds = []string{"obj", "arr", "str", "int", "flt", "dbl", "dt", "bin", "ext"}

func decodeNew(format string, buf []byte, cached, share bool) (*dx.DxValue, error) {
	switch format {
	case "json":
		return dx.NewValueFromJson(buf, cached, share)
	case "msgpack":
		return dx.NewValueFromMsgPack(buf, cached, share)
	case "bson":
		return dx.NewValueFromBson(buf, cached, share)
	case "yaml":
		return dx.NewValueFromYaml(buf, cached)
	}
	panic(format)
}

// EncOpt says how to encode.
type EncOpt struct {
	Format string // json, msgpack, bson
	Fmtd   bool
	Style  string // none, all, ansi
	EscDt  bool
	Pre    []byte
	Alt    int
}

var styles = map[string]dx.JsonEscapeStyle{"none": dx.JSE_NoEscape, "all": dx.JSE_AllEscape, "ansi": dx.JSE_OnlyAnsiChar}

// Enc encodes the value at p of register r behind the bytes opt.Pre and returns the produced bytes.
func (m *M) Enc(r int, p []Step, opt EncOpt) []byte {
	if m.reg[r] == nil {
		return nil
	}
	e := Ev{"op": "enc", "r": r, "p": p, "fmt": opt.Format, "fmtd": opt.Fmtd, "style": opt.Style, "escdt": opt.EscDt,
		"pre": Bs(append([]byte{}, opt.Pre...)), "built": m.built[r], "out": Bs{}, "err": false, "preok": true}
	var res []byte
	m.call(e, func() {
		v := m.nav(m.reg[r], p)
		e["nav"] = v != nil
		if v == nil {
			return
		}
		var dst []byte
		if opt.Pre != nil || opt.Alt%2 == 1 {
			dst = append(make([]byte, 0, len(opt.Pre)+[]int{0, m.rng.Intn(8), m.rng.Intn(64), 65 + m.rng.Intn(300)}[m.rng.Intn(4)]), opt.Pre...)
		}
		var out []byte
		var err error
		switch opt.Format {
		case "json":
			switch {
			case opt.Alt == 2 && !opt.Fmtd && opt.Style == "all" && opt.EscDt && len(opt.Pre) == 0:
				out, err = dx.Marshal(v)
			case opt.Alt%2 == 0:
				out = v.ToJson(opt.Fmtd, styles[opt.Style], opt.EscDt, dst)
			case opt.Fmtd:
				out = dx.Value2FormatJson(v, styles[opt.Style], opt.EscDt, dst)
			default:
				out = dx.Value2Json(v, styles[opt.Style], opt.EscDt, dst)
			}
		case "msgpack":
			if opt.Alt%2 == 0 {
				out = v.ToMsgPack(dst)
			} else {
				out = dx.Value2MsgPack(v, dst)
			}
		case "bson":
			if opt.Alt%2 == 0 {
				out, err = dx.Value2Bson(v, dst)
			} else {
				out = v.ToBson(dst)
			}
		}
		e["err"] = err != nil
		e["out"] = append(Bs{}, out...)
		e["preok"] = bytes.Equal(dst, opt.Pre) // the bytes handed over are as they were, even when the result moved
		if len(out) >= len(opt.Pre) {
			res = append([]byte{}, out[len(opt.Pre):]...)
		}
		// the produced bytes belong to the caller
		scribble(out)
	})
	return res
}
