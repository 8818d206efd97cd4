// Histories: each mode produces one chunk of events.
package main

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"strings"

	dx "github.com/suiyunonghen/dxsvalue"
)

func (m *M) pick(a []string) string { return a[m.rng.Intn(len(a))] }
func (m *M) coin() bool             { return m.rng.Intn(2) == 0 }
func (m *M) kd() string {
	return m.pick([]string{"obj", "obj", "arr", "arr", "str", "int", "flt", "dbl", "dt", "bin", "ext", "null", "true", "false", "nan", "inf"})
}
func (m *M) anyReg() int {
	l := m.live()
	if len(l) == 0 {
		return -1
	}
	return l[m.rng.Intn(len(l))]
}

var idxPool = []int{-1, 0, 0, 1, 1, 2, 3, 5, 100}

func (m *M) idx() int {
	if m.wide && m.coin() {
		return m.rng.Intn(36)
	}
	return idxPool[m.rng.Intn(len(idxPool))]
}

// names in use at the handle, so that stores and removals often hit
func (m *M) nameAt(r int, p []Step) string {
	if !m.lazy[r] && m.rng.Intn(3) > 0 {
		if v := m.nav(m.reg[r], p); v != nil && v.Type() == dx.VT_Object && v.Count() > 0 {
			k := strings.Clone(v.KeyNameByIndex(m.rng.Intn(v.Count())))
			if m.icase && m.coin() {
				if m.coin() {
					k = strings.ToUpper(k)
				} else {
					k = strings.ToLower(k)
				}
			}
			return k
		}
	}
	return m.key()
}

func (m *M) randO(r int, p []Step) O {
	k := Bs(m.nameAt(r, p))
	switch m.rng.Intn(40) {
	case 0:
		return O{"f": "SetInt", "i": i64(m.int())}
	case 1:
		return O{"f": "SetFloat", "fl": f32(m.flt())}
	case 2:
		return O{"f": "SetDouble", "d": f64(m.dbl())}
	case 3:
		return O{"f": "SetTime", "d": f64(m.dt())}
	case 4:
		return O{"f": "SetDelphiTime", "d": f64(m.dt())}
	case 5:
		return O{"f": "SetString", "s": Bs(m.str())}
	case 6:
		return O{"f": "SetBool", "bv": m.coin()}
	case 7:
		return O{"f": m.pick([]string{"SetBinary", "SetBinaryShared"}), "b": Bs(m.bytes())}
	case 8:
		return O{"f": "SetExtType", "x": m.rng.Intn(128)}
	case 9:
		return O{"f": "Reset", "kd": m.kd()}
	case 10:
		return O{"f": "Clear"}
	case 11, 12:
		return O{"f": m.pick([]string{"SetKey", "SetKeyCached"}), "k": k, "kd": m.kd()}
	case 13, 14:
		return O{"f": "SetKeyInt", "k": k, "i": i64(m.int())}
	case 15:
		return O{"f": "SetKeyFloat", "k": k, "fl": f32(m.flt())}
	case 16:
		return O{"f": "SetKeyDouble", "k": k, "d": f64(m.dbl())}
	case 17, 18:
		return O{"f": "SetKeyString", "k": k, "s": Bs(m.str())}
	case 19:
		return O{"f": "SetKeyBool", "k": k, "bv": m.coin()}
	case 20:
		return O{"f": "SetKeyTime", "k": k, "d": f64(m.dt())}
	case 21:
		return O{"f": "SetIndex", "n": m.idx(), "kd": m.kd()}
	case 22:
		return O{"f": "SetIndexInt", "n": m.idx(), "i": i64(m.int())}
	case 23:
		return O{"f": "SetIndexFloat", "n": m.idx(), "fl": f32(m.flt())}
	case 24:
		return O{"f": "SetIndexDouble", "n": m.idx(), "d": f64(m.dbl())}
	case 25:
		return O{"f": "SetIndexString", "n": m.idx(), "s": Bs(m.str())}
	case 26:
		return O{"f": "SetIndexBool", "n": m.idx(), "bv": m.coin()}
	case 27:
		return O{"f": "SetIndexTime", "n": m.idx(), "d": f64(m.dt())}
	case 28:
		return O{"f": "Append", "kd": m.kd()}
	case 29, 30:
		return O{"f": "Insert", "n": m.idx(), "kd": m.kd()}
	case 31, 32:
		return O{"f": "RemoveKey", "k": k}
	case 33:
		return O{"f": "RemoveIndex", "n": m.idx()}
	case 34, 35:
		ks := []Bs{}
		for n := 1 + m.rng.Intn(3); n > 0; n-- {
			ks = append(ks, Bs(m.pick([]string{"a", "b", "c", "0", "1", "A", "k\"q"})))
		}
		if !m.lazy[r] && m.coin() {
			ks[0] = k
		}
		return O{"f": "ForcePath", "ks": ks, "kd": m.kd()}
	case 36:
		if m.rng.Intn(4) == 0 {
			if m.coin() {
				return O{"f": "SetKeyNil", "k": k}
			}
			return O{"f": "SetIndexNil", "n": m.idx()}
		}
		return O{"f": "SetKeyConst", "k": k, "kd": m.pick([]string{"null", "true", "false", "nan", "inf"})}
	case 37:
		return O{"f": "SetIndexConst", "n": m.idx(), "kd": m.pick([]string{"null", "true", "false", "nan", "inf"})}
	case 38:
		k = Bs(fmt.Sprintf("new%d", m.rng.Intn(50)))
		if m.coin() {
			return O{"f": "SetKeyBin", "k": k, "b": Bs(m.bytes())}
		}
		return O{"f": "SetKeyExt", "k": k, "x": 1 + m.rng.Intn(127), "b": Bs(m.bytes())}
	}
	return O{"f": "RemoveKey", "k": k}
}

func (m *M) RandMut() {
	r := m.anyReg()
	if r < 0 {
		return
	}
	p := m.walk(r, 3)
	if m.rng.Intn(8) == 0 { // move another document in
		l := m.live()
		src := l[m.rng.Intn(len(l))]
		if src != r {
			if m.coin() {
				m.Mut(r, p, O{"f": "SetKeyValue", "k": Bs(m.nameAt(r, p))}, src)
			} else {
				m.Mut(r, p, O{"f": "SetIndexValue", "n": m.idx()}, src)
			}
			return
		}
	}
	if m.rng.Intn(12) == 0 {
		m.Extract(r, p, m.nameAt(r, p), m.rng.Intn(NREG))
		return
	}
	m.Mut(r, p, m.randO(r, p), -1)
}

func (m *M) RandRead() {
	r := m.anyReg()
	if r < 0 {
		return
	}
	p := m.walk(r, 2)
	fam := m.pick([]string{"direct", "direct", "name", "path", "index"})
	ty := m.pick(types)
	if fam == "index" {
		ty = m.pick(types[:5])
	}
	var ks []Bs
	if fam == "path" {
		for n := m.rng.Intn(4); n > 0; n-- {
			ks = append(ks, Bs(m.pick([]string{"a", "b", "c", "0", "1"})))
		}
		if len(ks) > 0 {
			ks[0] = Bs(m.nameAt(r, p))
		}
	}
	m.Read(r, p, fam, ty, m.nameAt(r, p), m.idx(), ks, m.rng.Intn(12))
}

func (m *M) RandLook() {
	r := m.anyReg()
	if r < 0 {
		return
	}
	p := m.walk(r, 3)
	what := m.pick([]string{"count", "type", "keyname", "items", "byname", "find", "bypath", "byindex", "bin", "visit"})
	var ks []Bs
	if what == "bypath" {
		ks = []Bs{Bs(m.nameAt(r, p))}
		for n := m.rng.Intn(3); n > 0; n-- {
			ks = append(ks, Bs(m.pick([]string{"a", "b", "0", "1"})))
		}
	}
	m.Look(r, p, what, m.nameAt(r, p), m.idx(), ks)
}

func (m *M) profAll() *Prof {
	return &Prof{Leaves: leavesAll, Depth: 3, Width: 4, Root: m.pick([]string{"obj", "obj", "arr"})}
}
func (m *M) profJson() *Prof {
	return &Prof{Leaves: leavesJson, Depth: 3, Width: 4, Root: m.pick([]string{"obj", "obj", "arr", "any"})}
}

// RandDoc gives r a document from any source. lazy: do not look at it.
func (m *M) RandDoc(r int, lazy bool) {
	switch m.rng.Intn(6) {
	case 0:
		m.New(r, m.kd(), m.coin())
	case 1:
		m.Build(r, m.doc(m.profAll()), m.coin())
	case 2, 3:
		if m.icase && m.rng.Intn(3) == 0 {
			m.collide, m.mixed = true, true
		}
		in := m.jsonDoc(m.doc(m.profJson()))
		m.collide = false
		m.Dec(r, "json", in, DecOpt{Entry: "new", Cached: m.coin(), Share: m.coin(), NoDump: lazy})
	case 4:
		m.Dec(r, "msgpack", m.mpDoc(m.doc(&Prof{Leaves: leavesMp, Depth: 3, Width: 4, Root: "obj"})), DecOpt{Entry: "new", Cached: m.coin(), Share: m.coin(), NoDump: lazy})
	case 5:
		pf := &Prof{Leaves: leavesMp, Depth: 2, Width: 4, Root: "obj"}
		m.Build(r, m.doc(pf), m.coin())
	}
}

func (m *M) freeReg() int {
	var f []int
	for i, v := range m.reg {
		if v == nil {
			f = append(f, i)
		}
	}
	if len(f) == 0 || m.rng.Intn(6) == 0 {
		return m.rng.Intn(NREG)
	}
	return f[m.rng.Intn(len(f))]
}

func (m *M) RandClone() {
	r := m.anyReg()
	to := m.freeReg()
	if r < 0 || to == r {
		return
	}
	p := []Step{}
	if m.rng.Intn(3) == 0 {
		p = m.walk(r, 2)
	}
	m.Clone(r, p, to, m.coin())
}

func (m *M) RandCopy() {
	r, to := m.anyReg(), m.anyReg()
	if r < 0 {
		return
	}
	how := m.pick([]string{"CopyFrom", "CopyFromCache", "SetValue", "SetValueStruct", "AddFrom", "AddFromCache"})
	p, q := []Step{}, []Step{}
	if m.rng.Intn(3) == 0 || r == to {
		p = m.walk(r, 3)
	}
	if m.rng.Intn(3) == 0 || r == to {
		q = m.walk(to, 3)
	}
	m.Copy(r, p, to, q, how)
}

func (m *M) RandEnc() []byte {
	r := m.anyReg()
	if r < 0 {
		return nil
	}
	return m.EncReg(r)
}

func (m *M) EncReg(r int) []byte {
	p := []Step{}
	if m.rng.Intn(4) == 0 {
		p = m.walk(r, 2)
	}
	var pre []byte
	if m.coin() {
		pre = []byte(m.pick([]string{"", "x", "prefix:", "\x00\xff"}))
	}
	f := m.pick([]string{"json", "json", "json", "msgpack", "bson"})
	if f == "bson" {
		v := m.nav(m.reg[r], p)
		if v == nil || v.Type() > dx.VT_Array {
			f = "msgpack"
		}
	}
	return m.Enc(r, p, EncOpt{Format: f, Fmtd: m.coin(), Style: m.pick([]string{"none", "all", "ansi", "ansi"}), EscDt: m.coin(), Pre: pre, Alt: m.rng.Intn(4)})
}

func (m *M) RandLoad(r int) {
	q := []Step{}
	if m.rng.Intn(4) == 0 && m.reg[r] != nil {
		q = m.walk(r, 2)
	}
	format, in := m.someInput()
	entry := "load"
	if format == "json" && m.rng.Intn(4) == 0 {
		entry = "unmarshal"
	}
	m.Dec(r, format, in, DecOpt{Entry: entry, Share: m.coin() && entry == "load", Q: q})
}

// someInput is an encoded document, sometimes damaged.
func (m *M) someInput() (string, []byte) {
	format := m.pick([]string{"json", "json", "msgpack", "bson", "yaml"})
	var in []byte
	alpha := jsonAlphabet
	switch format {
	case "json":
		pf := m.profJson()
		pf.Root = m.pick([]string{"obj", "obj", "arr", "any"})
		in = m.jsonDoc(m.doc(pf))
	case "msgpack":
		in = m.mpDoc(m.doc(&Prof{Leaves: leavesMp, Depth: 3, Width: 3, Root: m.pick([]string{"obj", "arr", "any"})}))
		alpha = mpAlphabet
	case "bson":
		in = m.bsonDoc(m.doc(&Prof{Leaves: leavesBson, Depth: 2, Width: 4, Root: "obj"}))
		alpha = bsonAlphabet
	case "yaml":
		in = m.yamlText()
		alpha = yamlAlphabet
	}
	switch m.rng.Intn(5) {
	case 0:
		in = m.damage(in, alpha)
	case 1:
		if m.rng.Intn(4) == 0 {
			in = []byte(m.pick([]string{"", " ", "\n\t "}))
		}
	}
	return format, in
}

func (m *M) RandEq() {
	r, r2 := m.anyReg(), m.anyReg()
	if r < 0 {
		return
	}
	p, q := []Step{}, []Step{}
	if m.rng.Intn(3) == 0 {
		p = m.walk(r, 3)
		q = p
		if m.coin() {
			q = m.walk(r2, 3)
		}
	}
	m.Eq(r, p, r2, q)
}

func (m *M) RandMerge(full bool) {
	r, to := m.anyReg(), m.anyReg()
	if r < 0 {
		return
	}
	p, q := []Step{}, []Step{}
	if m.rng.Intn(4) == 0 {
		p, q = m.walk(r, 2), m.walk(to, 2)
	}
	if r == to {
		switch m.rng.Intn(3) {
		case 0: // with itself
			q = p
		case 1: // two parts of one document
			if v, t := m.nav(m.reg[r], p), m.nav(m.reg[r], q); v == nil || t == nil || v != t && (within(v, t) || within(t, v)) {
				return
			}
		default:
			return
		}
	}
	pol := Policy{CB: m.rng.Intn(3) > 0, Dflt: m.pick([]string{"normal", "normal", "replace", "custom"})}
	if pol.CB {
		for n := m.rng.Intn(4); n > 0; n-- {
			path := m.pick([]string{"a", "b", "c", "A", "ab", "key"})
			for m.rng.Intn(3) == 0 {
				path += "/" + m.pick([]string{"a", "b", "c"})
			}
			pol.Rules = append(pol.Rules, Rule{Bs(path), m.pick([]string{"normal", "replace", "custom"})})
		}
	}
	m.Merge(to, q, r, p, pol, full)
}

// within: a lies in b
func within(a, b *dx.DxValue) bool {
	if a == b {
		return true
	}
	found := false
	b.Visit(func(_ string, c *dx.DxValue) bool {
		found = found || c != nil && within(a, c)
		return !found
	})
	return found
}

// ---------------------------------------------------------------- modes

func steps(m *M, n int, f func(i int)) {
	for i := 0; i < n && !m.dead; i++ {
		if m.icase && m.rng.Intn(10) == 0 {
			m.Fold(m.rng.Intn(3) > 0)
		}
		f(i)
	}
	if m.icase && !m.dead {
		m.Fold(true)
	}
}

// Fold switches the comparison of keys; documents then hold keys which differ in case only.
func (m *M) Fold(on bool) {
	m.call(Ev{"op": "fold", "on": on}, func() { dx.IgnoreCase = on })
	m.prev, m.past = nil, nil
	m.mixed = true
}

// hist: mutation histories over several documents (C01).
func modeHist(m *M, n int) {
	lazy := m.rng.Intn(3) == 0
	m.RandDoc(0, lazy)
	if m.coin() {
		m.RandDoc(1, lazy)
	}
	steps(m, n, func(i int) {
		switch m.rng.Intn(20) {
		case 0:
			m.RandDoc(m.freeReg(), lazy)
		case 1:
			m.RandClone()
		case 2, 3, 4:
			m.RandLook()
		case 5:
			if r := m.anyReg(); r >= 0 && !lazy {
				m.Dump(r, m.via())
			} else if r >= 0 {
				m.Dump(r, "clone")
			}
		case 6:
			if m.rng.Intn(4) == 0 {
				m.Free(m.anyRegOr(0))
			}
		default:
			m.RandMut()
		}
		if m.anyReg() < 0 {
			m.RandDoc(0, lazy)
		}
	})
	m.DumpAll()
}

func (m *M) anyRegOr(d int) int {
	if r := m.anyReg(); r >= 0 {
		return r
	}
	return d
}

// leafdocs: every pool value under keys, read in every way (C02).
func modeReads(m *M, n int) {
	d := Dobj()
	for i := 0; i < 12; i++ {
		t := m.pick(append([]string{"str", "str", "str"}, leavesAll...))
		d.KV = append(d.KV, KV{Bs(fmt.Sprintf("k%d", i)), m.leaf(t, nil)})
	}
	d.KV = append(d.KV, KV{Bs("o"), Dobj(KV{Bs("in"), m.leaf(m.pick(leavesAll), nil)})}, KV{Bs("ar"), Darr(m.leaf(m.pick(leavesAll), nil), m.leaf(m.pick(leavesAll), nil))})
	names := []string{"o", "ar", "nope", "K1"}
	for i := 0; i < 12; i++ {
		names = append(names, fmt.Sprintf("k%d", i))
	}
	src := m.rng.Intn(4)
	if m.icase && m.rng.Intn(3) == 0 {
		src = 2
	}
	switch src {
	case 0, 1:
		m.Build(0, d, m.coin())
	case 2:
		jd := Dobj()
		for i := 0; i < 12; i++ {
			jd.KV = append(jd.KV, KV{Bs(fmt.Sprintf("k%d", i)), m.leaf(m.pick(leavesJson), nil)})
		}
		if m.coin() { // names with escapes, looked up as they are and as the text spells them
			for _, k := range []string{`k"q`, "n\nl", `x\y`, "é"} {
				jd.KV = append(jd.KV, KV{Bs(k), m.leaf(m.pick(leavesJson), nil)})
			}
			names = append(names, `k"q`, `k\"q`, "n\nl", `n\nl`, `x\y`, `x\\y`, "é", `\u00e9`, `n\u000al`)
		}
		if m.icase && m.coin() {
			cs := []string{"Name", "NAME", "name", "nAme"}
			m.rng.Shuffle(4, func(i, j int) { cs[i], cs[j] = cs[j], cs[i] })
			for _, k := range cs[:2+m.rng.Intn(2)] {
				jd.KV = append(jd.KV, KV{Bs(k), m.leaf(m.pick(leavesJson), nil)})
			}
			for q := 0; q < 4; q++ {
				names = append(names, "Name", "NAME", "name", "naME")
			}
			m.collide, m.mixed = true, true
			defer func() { m.collide = false }()
		}
		jd.KV = append(jd.KV, KV{Bs("o"), Dobj(KV{Bs("in"), m.leaf(m.pick(leavesJson), nil)})}, KV{Bs("ar"), Darr(m.leaf(m.pick(leavesJson), nil), m.leaf("str", nil))})
		m.Dec(0, "json", m.jsonDoc(jd), DecOpt{Entry: "new", Cached: m.coin(), Share: m.coin(), NoDump: true})
	case 3:
		pd := m.doc(&Prof{Leaves: leavesBson, Depth: 2, Width: 8, Root: "obj", Keys: append([]string{}, names...)})
		m.Dec(0, "bson", m.bsonDoc(pd), DecOpt{Entry: "new", Cached: m.coin(), Share: m.coin()})
	}
	steps(m, n, func(i int) {
		fam := m.pick([]string{"direct", "name", "path", "index"})
		ty := m.pick(types)
		if fam == "index" {
			ty = m.pick(types[:5])
		}
		k := m.pick(names)
		p := []Step{}
		var ks []Bs
		switch fam {
		case "direct":
			p = []Step{{K: Bs(k)}}
			if k == "o" && m.coin() {
				p = append(p, Step{K: Bs("in")})
			}
			if k == "ar" && m.coin() {
				p = append(p, Step{N: m.rng.Intn(3)})
			}
		case "path":
			ks = []Bs{Bs(k)}
			if k == "o" {
				ks = append(ks, Bs(m.pick([]string{"in", "out"})))
			}
			if k == "ar" {
				ks = append(ks, Bs(m.pick([]string{"0", "1", "2", "-1", "x"})))
			}
			if m.rng.Intn(10) == 0 {
				ks = append(ks, Bs("deep"))
			}
		case "index", "name":
			if m.rng.Intn(6) == 0 {
				p = []Step{{K: Bs(m.pick([]string{"o", "ar", "k1"}))}}
				k = m.pick([]string{"in", "0", "1", "x"})
			}
		}
		m.Read(0, p, fam, ty, k, m.rng.Intn(17)-1, ks, m.rng.Intn(12))
	})
	m.DumpAll()
}

// copies (C03)
func modeCopy(m *M, n int) {
	lazy := m.rng.Intn(3) == 0
	m.RandDoc(0, lazy)
	if m.rng.Intn(3) == 0 {
		m.Dec(1, "bson", m.bsonDoc(m.doc(&Prof{Leaves: leavesBson, Depth: 2, Width: 4, Root: "obj"})), DecOpt{Entry: "new", Cached: m.coin(), Share: m.coin()})
	} else {
		m.RandDoc(1, lazy)
	}
	steps(m, n, func(i int) {
		switch m.rng.Intn(16) {
		case 0, 1, 2:
			m.RandClone()
		case 3, 4, 5:
			m.RandCopy()
		case 6:
			m.RandEq()
		case 7:
			if r := m.anyReg(); r >= 0 && m.coin() {
				m.Free(r)
			}
		case 8:
			if r := m.anyReg(); r >= 0 {
				m.RandLoad(r)
			}
		case 9:
			m.RandDoc(m.freeReg(), lazy)
		case 10, 11:
			if r := m.anyReg(); r >= 0 && !lazy {
				m.Dump(r, m.via())
			}
		case 12:
			if r := m.anyReg(); r >= 0 {
				m.Mut(r, []Step{}, O{"f": "Clear"}, -1)
			}
		default:
			m.RandMut()
		}
		if m.anyReg() < 0 {
			m.RandDoc(0, lazy)
		}
	})
	m.DumpAll()
}

var mergeKeys = []string{"a", "b", "c", "A", "ab", "key", "k\"q", "é", "a/b"}

func (m *M) mergeDoc(r int, lazy bool) {
	root := "obj"
	if m.rng.Intn(8) == 0 {
		root = "arr"
	}
	mergeKeys := mergeKeys
	if m.small {
		mergeKeys = mergeKeys[:3]
	}
	leavesAll, leavesJson, leavesMp := leavesAll, leavesJson, leavesMp
	if m.rng.Intn(3) == 0 { // scalars of one type in the arrays
		leavesAll = []string{m.pick(leavesAll), m.pick(leavesAll)}
		leavesJson = []string{m.pick(leavesJson), m.pick(leavesJson)}
		leavesMp = []string{m.pick(leavesMp), m.pick(leavesMp)}
	}
	switch m.rng.Intn(3) {
	case 0:
		m.Build(r, m.doc(&Prof{Leaves: leavesAll, Keys: mergeKeys, Depth: 3, Width: 5, Root: root, Str: m.shortStr}), m.coin())
	case 1:
		m.Dec(r, "json", m.jsonDoc(m.doc(&Prof{Leaves: leavesJson, Keys: mergeKeys, Depth: 3, Width: 5, Root: root, Str: m.shortStr})), DecOpt{Entry: "new", Cached: m.coin(), Share: m.coin(), NoDump: lazy})
	case 2:
		m.Dec(r, "msgpack", m.mpDoc(m.doc(&Prof{Leaves: leavesMp, Keys: mergeKeys, Depth: 3, Width: 5, Root: root, Str: m.shortStr})), DecOpt{Entry: "new", Cached: m.coin(), Share: m.coin(), NoDump: lazy})
	}
}

func (m *M) shortStr() string { return m.pick([]string{"", "x", "y", "q\"", "é"}) }

// merging (C04)
func modeMerge(m *M, n int) {
	lazy := m.rng.Intn(3) == 0
	steps(m, n/8+1, func(i int) {
		m.mergeDoc(0, lazy)
		m.mergeDoc(1, lazy)
		if m.rng.Intn(3) == 0 {
			m.mergeDoc(2, lazy)
		}
		m.RandMerge(!lazy && m.coin())
		if m.rng.Intn(3) == 0 {
			m.RandMerge(false)
		}
		if !lazy || m.coin() {
			m.Dump(1, m.via())
		}
		m.Dump(0, m.via())
		if m.coin() {
			m.RandMut()
			m.RandMut()
			if m.coin() {
				m.Free(m.anyRegOr(1))
			}
		}
		m.DumpAll()
	})
}

// equality (C05)
func modeEq(m *M, n int) {
	steps(m, n/8+1, func(i int) {
		for q := 0; q < NREG; q++ {
			m.drop(q)
		}
		switch m.rng.Intn(4) {
		case 0:
			d := m.doc(m.profAll())
			m.Build(0, d, m.coin())
			m.Clone(0, []Step{}, 1, m.coin())
			m.Build(2, d, m.coin())
		case 1:
			d := m.doc(m.profJson())
			m.Dec(0, "json", m.jsonDoc(d), DecOpt{Entry: "new", Cached: m.coin(), Share: m.coin(), NoDump: true})
			m.Dec(1, "json", m.jsonDoc(d), DecOpt{Entry: "new", Cached: m.coin(), Share: m.coin(), NoDump: true})
			m.Build(2, d, m.coin())
		case 2:
			d := m.doc(&Prof{Leaves: leavesMp, Depth: 3, Width: 4, Root: "obj"})
			m.Dec(0, "msgpack", m.mpDoc(d), DecOpt{Entry: "new", Cached: m.coin(), Share: m.coin(), NoDump: true})
			m.Build(1, d, m.coin())
			m.Clone(0, []Step{}, 2, m.coin())
		case 3: // small scalars of all types
			for q := 0; q < 3; q++ {
				t := m.pick(leavesAll)
				var d *D
				switch t {
				case "int":
					d = Dint([]int64{0, 1, 3, -1, 1 << 53, 1<<53 + 1}[m.rng.Intn(6)])
				case "dbl":
					d = Ddbl([]float64{0, 1, 3, -1, 0.5, 1 << 53, math.Copysign(0, -1)}[m.rng.Intn(7)])
				case "flt":
					d = Dflt([]float32{0, 1, 3, -1, 0.5, 1 << 24}[m.rng.Intn(6)])
				case "str":
					d = Dstr(m.pick([]string{"", "a", "A", "ab", "a\"", "1"}))
				case "bin":
					d = Dbin([]byte(m.pick([]string{"", "a", "b", "ab"})))
				case "ext":
					d = Dext(m.rng.Intn(2), []byte(m.pick([]string{"", "a", "b"})))
				default:
					d = m.leaf(t, nil)
				}
				if m.coin() {
					d = Darr(d)
				}
				m.Build(q, d, m.coin())
			}
		}
		m.eqAll()
		for k := m.rng.Intn(3); k > 0; k-- {
			r := m.rng.Intn(3)
			if m.reg[r] == nil {
				continue
			}
			p := m.walk(r, 3)
			m.Mut(r, p, m.randO(r, p), -1)
			m.eqAll()
		}
		m.DumpAll()
	})
}

func (m *M) eqAll() {
	for a := 0; a < 3; a++ {
		for b := 0; b < 3; b++ {
			m.Eq(a, []Step{}, b, []Step{})
		}
	}
}

// JSON decoding (C06): all entry points and options
func modeJsonDec(m *M, n int) {
	steps(m, n, func(i int) {
		if m.rng.Intn(5) == 0 {
			m.Again()
		}
		d := m.doc(&Prof{Leaves: leavesJson, Depth: 1 + m.rng.Intn(3), Width: 5, Root: m.pick([]string{"obj", "obj", "arr", "any"})})
		in := m.jsonDoc(d)
		r := m.rng.Intn(3)
		entry := m.pick([]string{"new", "new", "load", "unmarshal", "file"})
		if (entry == "load" || entry == "unmarshal") && m.reg[r] == nil {
			m.New(r, m.kd(), m.coin())
			if m.reg[r] != nil && m.reg[r].ReadOnly() {
				m.New(r, "obj", m.coin())
			}
		}
		if entry == "file" && m.rng.Intn(3) == 0 {
			in = append([]byte{0xef, 0xbb, 0xbf}, in...)
		}
		m.Dec(r, "json", in, DecOpt{Entry: entry, Cached: m.coin(), Share: m.coin(), NoDump: m.coin()})
		if m.rng.Intn(4) == 0 {
			m.Dec(3, "json", m.damage(in, jsonAlphabet), DecOpt{Entry: "new", Cached: m.coin(), Share: m.coin()})
		}
		if m.rng.Intn(4) == 0 && m.reg[r] != nil {
			m.Free(r)
		}
		if m.reg[r] != nil {
			m.Dump(r, m.via())
		}
	})
	m.DumpAll()
}

// JSON encoding (C07)
func modeJsonEnc(m *M, n int) {
	steps(m, n, func(i int) {
		r := 0
		switch m.rng.Intn(5) {
		case 0, 1:
			m.Build(0, m.doc(&Prof{Leaves: leavesAll, Depth: 3, Width: 4, Root: m.pick([]string{"obj", "arr", "any"})}), m.coin())
		case 2:
			m.Dec(0, "json", m.jsonDoc(m.doc(m.profJson())), DecOpt{Entry: "new", Cached: m.coin(), Share: m.coin(), NoDump: m.coin()})
		case 3:
			m.Dec(0, "bson", m.bsonDoc(m.doc(&Prof{Leaves: leavesBson, Depth: 2, Width: 4, Root: "obj"})), DecOpt{Entry: "new", Cached: m.coin(), Share: m.coin()})
		case 4:
			m.Build(0, m.doc(&Prof{Leaves: leavesAll, Keys: plainKeys, Depth: 3, Width: 4, Root: "obj", Str: func() string { return m.pick([]string{"a", "hello w", "é", "中", "", "x/y"}) }}), m.coin())
		}
		if m.reg[0] == nil {
			return
		}
		if m.coin() {
			m.RandMut()
		}
		for k := 0; k < 3; k++ {
			pre := []byte(nil)
			if m.rng.Intn(3) == 0 {
				pre = []byte("pre")
			}
			style := m.pick([]string{"none", "all", "ansi"})
			out := m.Enc(r, []Step{}, EncOpt{Format: "json", Fmtd: m.coin(), Style: style, EscDt: m.coin(), Pre: pre, Alt: m.rng.Intn(4)})
			if style != "none" && out != nil && m.coin() {
				m.Dec(1, "json", out, DecOpt{Entry: "new", Cached: m.coin(), Share: m.coin()})
			}
		}
		m.Dump(0, m.via())
	})
	m.DumpAll()
}

// malformed JSON (C08)
func modeJsonBad(m *M, n int) {
	d := m.doc(&Prof{Leaves: leavesJson, Depth: 3, Width: 3, Root: m.pick([]string{"obj", "arr"})})
	good := m.jsonDoc(d)
	target := m.pick([]string{"new", "new", "load"})
	try := func(in []byte) {
		if target == "load" {
			if m.reg[0] == nil {
				m.New(0, m.pick([]string{"obj", "arr", "str", "int"}), m.coin())
			}
			m.Dec(0, "json", in, DecOpt{Entry: "load", Share: m.coin()})
		} else {
			m.Dec(0, "json", in, DecOpt{Entry: "new", Cached: m.coin(), Share: m.coin()})
		}
	}
	if m.rng.Intn(4) == 0 { // brackets, then one of them wrong
		steps(m, n, func(i int) {
			in := m.brackets()
			if m.rng.Intn(4) > 0 {
				j := m.rng.Intn(len(in))
				switch m.rng.Intn(3) {
				case 0:
					in = append(in[:j:j], in[j+1:]...)
				case 1:
					in[j] = "{}[],:1\" "[m.rng.Intn(9)]
				case 2:
					in = append(in[:j:j], append([]byte{"{}[],"[m.rng.Intn(5)]}, in[j:]...)...)
				}
			}
			try(in)
		})
	} else if m.coin() && len(good) < 120 { // every truncation
		for i := 0; i < len(good) && !m.dead; i++ {
			try(good[:i])
		}
	} else {
		steps(m, n, func(i int) {
			try(m.damage(good, jsonAlphabet))
			if m.rng.Intn(3) == 0 {
				m.Again()
			}
			if m.rng.Intn(4) == 0 {
				m.Dec(1, "json", good, DecOpt{Entry: "new", Cached: m.coin(), Share: m.coin()})
			}
		})
	}
	try(good)
	m.DumpAll()
}

// brackets: a JSON text of nested containers and little else
func (m *M) brackets() []byte {
	depth := 2 + m.rng.Intn(14)
	in := []byte("1")
	if m.coin() {
		in = nil
	}
	for i := 0; i < depth; i++ {
		if len(in) == 0 || m.rng.Intn(3) > 0 {
			l, r := "", ""
			if len(in) > 0 && m.rng.Intn(5) == 0 {
				l, r = "[],", ",{}"
			}
			in = []byte("[" + l + string(in) + r + "]")
		} else {
			l, r := "", ""
			if m.rng.Intn(5) == 0 {
				l, r = `"b":{},`, `,"c":[]`
			}
			in = []byte("{" + l + `"a":` + string(in) + r + "}")
		}
	}
	return in
}

// enumerate short JSON texts (C08): all words over a small alphabet, sliced over the chunks
const enumAlphabet = "{}[],:\"1\\-.et "

func modeJsonEnum(m *M, part, parts, maxLen int) {
	alpha := []string{"{", "}", "[", "]", ",", ":", "\"", "\\", "1", "-", ".", "e", " ", "\"a\"", "true", "null", "0"}
	idx := 0
	var rec func(prefix []byte, left int)
	rec = func(prefix []byte, left int) {
		if m.dead {
			return
		}
		if idx%parts == part {
			m.enumDec("json", prefix, idx/parts)
		}
		idx++
		if left == 0 {
			return
		}
		for _, a := range alpha {
			rec(append(append([]byte{}, prefix...), a...), left-1)
		}
	}
	rec(nil, maxLen)
}

var bigSizes = []int{14, 15, 16, 17, 30, 31, 32, 33, 254, 255, 256, 257, 300}
var hugeSizes = []int{65534, 65535, 65536, 65537, 70000}

// MsgPack encoding (C09)
func modeMpEnc(m *M, n int) {
	steps(m, n, func(i int) {
		switch m.rng.Intn(6) {
		case 0, 1:
			m.Build(0, m.doc(&Prof{Leaves: leavesAll, Depth: 3, Width: 5, Root: m.pick([]string{"obj", "arr", "any"})}), m.coin())
		case 2:
			m.Dec(0, "json", m.jsonDoc(m.doc(m.profJson())), DecOpt{Entry: "new", Cached: m.coin(), Share: m.coin(), NoDump: m.coin()})
		case 3:
			m.Build(0, m.sized(bigSizes[m.rng.Intn(len(bigSizes))]), m.coin())
		case 4:
			d := Darr()
			for k := 0; k < 20; k++ {
				d.El = append(d.El, Dint(m.int()))
			}
			m.Build(0, d, m.coin())
		case 5:
			m.Dec(0, "bson", m.bsonDoc(m.doc(&Prof{Leaves: leavesBson, Depth: 2, Width: 4, Root: "obj"})), DecOpt{Entry: "new", Cached: m.coin(), Share: m.coin()})
		}
		if m.reg[0] == nil {
			return
		}
		pre := []byte(nil)
		if m.rng.Intn(3) == 0 {
			pre = []byte("pre")
		}
		out := m.Enc(0, []Step{}, EncOpt{Format: "msgpack", Pre: pre, Alt: m.rng.Intn(4)})
		if out != nil {
			m.Dec(1, "msgpack", out, DecOpt{Entry: "new", Cached: m.coin(), Share: m.coin()})
		}
		if m.coin() {
			m.Dump(0, m.via())
		}
	})
	m.DumpAll()
}

// sized: a document with one component of a given size
func (m *M) sized(n int) *D {
	switch m.rng.Intn(6) {
	case 0:
		return Dstr(strings.Repeat("s", n))
	case 1:
		return Dbin([]byte(strings.Repeat("b", n)))
	case 2:
		return Dext(m.rng.Intn(128), []byte(strings.Repeat("e", n)))
	case 3:
		d := Darr()
		for i := 0; i < n; i++ {
			d.El = append(d.El, Dint(int64(i%100)))
		}
		return d
	case 4:
		d := Dobj()
		for i := 0; i < n; i++ {
			d.KV = append(d.KV, KV{Bs(fmt.Sprintf("%d", i)), Dconst("null")})
		}
		return d
	default:
		return Dobj(KV{Bs(strings.Repeat("k", n)), Dint(1)}, KV{Bs("z"), Dstr("end")})
	}
}

// very large components (C09): one event each
func modeMpHuge(m *M, which int) {
	n := hugeSizes[which%len(hugeSizes)]
	var d *D
	switch (which / len(hugeSizes)) % 5 {
	case 0:
		d = Dstr(strings.Repeat("s", n))
	case 1:
		d = Dbin([]byte(strings.Repeat("b", n)))
	case 2:
		d = Dext(5, []byte(strings.Repeat("e", n)))
	case 3:
		d = Darr()
		for i := 0; i < n; i++ {
			d.El = append(d.El, Dconst("null"))
		}
	case 4:
		d = Dobj(KV{Bs(strings.Repeat("k", n)), Dint(1)})
	}
	m.Build(0, d, m.coin())
	out := m.Enc(0, []Step{}, EncOpt{Format: "msgpack"})
	if out != nil {
		m.Dec(1, "msgpack", out, DecOpt{Entry: "new", Cached: m.coin(), Share: m.coin(), Big: true})
	}
}

// MsgPack decoding (C10)
func modeMpDec(m *M, n int) {
	steps(m, n, func(i int) {
		if m.rng.Intn(6) == 0 {
			m.Again()
		}
		pf := &Prof{Leaves: leavesMp, Depth: 1 + m.rng.Intn(3), Width: 4, Root: m.pick([]string{"obj", "arr", "any"})}
		d := m.doc(pf)
		if m.rng.Intn(6) == 0 {
			d = m.sized(bigSizes[m.rng.Intn(len(bigSizes))])
		}
		in := m.mpDoc(d)
		m.decAny("msgpack", in)
		switch m.rng.Intn(5) {
		case 0: // truncations
			if len(in) < 60 {
				for k := 0; k < len(in) && !m.dead; k++ {
					m.decAny("msgpack", in[:k])
				}
			} else {
				m.decAny("msgpack", in[:m.rng.Intn(len(in))])
			}
		case 1, 2:
			m.decAny("msgpack", m.damage(in, mpAlphabet))
		}
	})
	m.DumpAll()
}

func (m *M) decAny(format string, in []byte) {
	r := m.rng.Intn(2)
	entry := m.pick([]string{"new", "new", "load", "file"})
	if entry == "file" && (format == "bson" || m.dir == "") {
		entry = "new"
	}
	if entry == "load" && m.reg[r] == nil {
		m.New(r, m.pick([]string{"obj", "arr", "str", "int", "bin"}), m.coin())
	}
	m.Dec(r, format, in, DecOpt{Entry: entry, Cached: m.coin(), Share: m.coin()})
}

// all inputs of up to two bytes, and every first byte with a few tails (C10)
func modeMpEnum(m *M, part, parts int) {
	idx := 0
	tails := [][]byte{{}, {0}, {1}, {0, 0}, {0, 1}, {1, 0, 0}, {0, 0, 0, 1}, {0xff, 0xff, 0xff, 0xff}, {0, 0, 0, 0, 0, 0, 0, 1}, {2, 0xa1, 'a', 1}, {1, 0xa1, 'a', 0xc0}, {0x7f, 1, 2, 3}, {1, 5, 9}, {12, 0xff, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1}, {4, 0xff, 0, 0, 0, 1}}
	for c := 0; c < 256; c++ {
		for _, t := range tails {
			if idx%parts == part && !m.dead {
				m.enumDec("msgpack", append([]byte{byte(c)}, t...), idx/parts)
				if idx%5 == 0 {
					m.Dec(0, "msgpack", append([]byte{0x91, byte(c)}, t...), DecOpt{Entry: "new"})
					m.Dec(0, "msgpack", append([]byte{0x81, 0xa1, 'k', byte(c)}, t...), DecOpt{Entry: "new"})
					m.Dec(0, "msgpack", append([]byte{0x81, byte(c)}, t...), DecOpt{Entry: "new"})
				}
			}
			idx++
		}
	}
}

// BSON encoding (C11)
func modeBsonEnc(m *M, n int) {
	keys := []string{"a", "b", "c", "A", "é", "k\"q", "x\\y", "", "longer key", "0"}
	steps(m, n, func(i int) {
		leaves := []string{"str", "str", "int", "int", "flt", "dbl", "dt", "bin", "null", "true", "false", "nan", "inf"}
		switch m.rng.Intn(6) {
		case 0, 1:
			m.Build(0, m.doc(&Prof{Leaves: leaves, Keys: keys, Depth: 3, Width: 5, Root: m.pick([]string{"obj", "obj", "arr"})}), m.coin())
		case 2:
			m.Dec(0, "json", m.jsonDoc(m.doc(&Prof{Leaves: leavesJson, Keys: keys, Depth: 3, Width: 4, Root: "obj"})), DecOpt{Entry: "new", Cached: m.coin(), Share: m.coin(), NoDump: m.coin()})
		case 3:
			m.Dec(0, "bson", m.bsonDoc(m.doc(&Prof{Leaves: leavesBson, Keys: keys, Depth: 2, Width: 4, Root: "obj"})), DecOpt{Entry: "new", Cached: m.coin(), Share: m.coin(), NoDump: m.coin()})
		case 4:
			d := Darr()
			for k := m.rng.Intn(14); k >= 0; k-- {
				d.El = append(d.El, Dint(m.int()))
			}
			m.Build(0, Dobj(KV{Bs("l"), d}, KV{Bs("e"), Dobj()}, KV{Bs("f"), Darr()}), m.coin())
		case 5:
			d := m.doc(&Prof{Leaves: leaves, Keys: keys, Depth: 2, Width: 3, Root: "arr"})
			if m.rng.Intn(8) == 0 {
				d = m.long(true)
			}
			if m.rng.Intn(3) > 0 {
				d = Dobj(KV{Bs("l"), d}, KV{Bs("z"), Dint(1)})
			}
			m.Build(0, d, m.coin())
		}
		if m.reg[0] == nil {
			return
		}
		pre := []byte(nil)
		if m.rng.Intn(3) == 0 {
			pre = []byte("pre")
		}
		if m.coin() {
			m.Retouch(0)
		}
		if v := m.reg[0]; v == nil || v.Type() > dx.VT_Array {
			return
		}
		out := m.Enc(0, []Step{}, EncOpt{Format: "bson", Pre: pre, Alt: m.rng.Intn(4)})
		if out != nil && len(out) < 4000 {
			m.Dec(1, "bson", out, DecOpt{Entry: "new", Cached: m.coin(), Share: m.coin()})
		}
		if m.coin() {
			m.Dump(0, m.via())
		}
	})
	m.DumpAll()
}

// long: an array or object with many members, which need longer index keys in BSON
func (m *M) long(huge bool) *D {
	n := []int{9, 10, 11, 12, 99, 100, 101, 102, 130, 256}[m.rng.Intn(10)]
	if huge && m.rng.Intn(20) == 0 {
		n = 1001
	}
	if m.rng.Intn(4) == 0 {
		d := Dobj()
		for i := 0; i < n; i++ {
			d.KV = append(d.KV, KV{Bs(fmt.Sprintf("k%d", i)), Dint(int64(i % 7))})
		}
		return d
	}
	d := Darr()
	for i := 0; i < n; i++ {
		d.El = append(d.El, m.pickD(i))
	}
	return d
}

func (m *M) pickD(i int) *D {
	switch i % 5 {
	case 3:
		return Dstr("s")
	case 4:
		return Darr()
	}
	return Dint(int64(i))
}

// Retouch stores integers and binaries over members, which may carry a subtype.
func (m *M) Retouch(r int) {
	for k := m.rng.Intn(4); k > 0; k-- {
		p := m.walk(r, 2)
		name := Bs(m.nameAt(r, p))
		switch m.rng.Intn(9) {
		case 0:
			m.Mut(r, p, O{"f": m.pick([]string{"SetBinary", "SetBinaryShared"}), "b": Bs(m.idBytes())}, -1)
		case 1:
			m.Mut(r, p, O{"f": "SetKeyBin", "k": name, "b": Bs(m.idBytes())}, -1)
		case 2:
			m.Mut(r, p, O{"f": "SetInt", "i": i64(m.int())}, -1)
		case 3:
			m.Mut(r, p, O{"f": "SetKeyInt", "k": name, "i": i64(m.int())}, -1)
		case 4:
			m.Mut(r, p, O{"f": "SetKey", "k": name, "kd": m.pick([]string{"bin", "int", "ext"})}, -1)
		case 5:
			if len(p) == 0 {
				p = m.leafPath(r)
			}
			if m.nav(m.reg[r], p) != nil && m.nav(m.reg[r], p).ValueCache() == nil {
				m.Mut(r, p, O{"f": "Clear"}, -1)
			}
		case 6:
			m.SetGo(r, m.leafPath(r), "root", "", 0, false, m.idBytes())
		case 7:
			m.SetGo(r, p, "key", string(name), 0, false, m.idBytes())
		case 8:
			m.SetGo(r, p, "key", string(name), 0, false, m.int())
		}
	}
}

// leafPath leads to some member of r, a leaf when it finds one
func (m *M) leafPath(r int) []Step {
	for k := 0; k < 6; k++ {
		p := m.walk(r, 4)
		if v := m.nav(m.reg[r], p); v != nil && len(p) > 0 && v.Type() > dx.VT_Array {
			return p
		}
	}
	return m.walk(r, 4)
}

// BSON decoding (C12)
func modeBsonDec(m *M, n int) {
	steps(m, n, func(i int) {
		if m.rng.Intn(6) == 0 {
			m.Again()
		}
		d := m.doc(&Prof{Leaves: leavesBson, Depth: 1 + m.rng.Intn(3), Width: 4, Root: "obj"})
		if m.rng.Intn(50) == 0 {
			d = Dobj(KV{Bs("l"), m.long(false)}, KV{Bs("z"), Dint(1)})
		}
		in := m.bsonDoc(d)
		m.decAny("bson", in)
		switch m.rng.Intn(5) {
		case 0:
			if len(in) < 60 {
				for k := 0; k < len(in) && !m.dead; k++ {
					m.decAny("bson", in[:k])
				}
			} else {
				m.decAny("bson", in[:m.rng.Intn(len(in))])
			}
		case 1, 2, 3:
			b := m.damage(in, bsonAlphabet)
			if m.coin() && len(b) >= 4 { // keep the outer length consistent
				copy(b, le(uint64(len(b)), 4))
				if m.coin() {
					b[len(b)-1] = 0
				}
			}
			m.decAny("bson", b)
		}
	})
	m.DumpAll()
}

// one element of every type code with bodies of many sizes (C12)
func modeBsonEnum(m *M, part, parts int) {
	bodies := [][]byte{{}, {0}, {1}, {0, 0, 0, 0}, {1, 0, 0, 0}, {1, 0, 0, 0, 0}, {2, 0, 0, 0, 'a', 0}, {5, 0, 0, 0, 0}, {5, 0, 0, 0, 1}, {6, 0, 0, 0, 10, 0}, {0, 0, 0, 0, 0}, {1, 0, 0, 0, 0, 9}, {1, 0, 0, 0, 4, 9},
		{4, 0, 0, 0, 2, 0, 0, 0, 0}, {5, 0, 0, 0, 2, 1, 0, 0, 0, 7}, {0xff, 0xff, 0xff, 0xff}, {0xff, 0xff, 0xff, 0x7f, 0}, {1, 2, 3, 4, 5, 6, 7, 8}, {0, 0, 0, 0, 0, 0, 0xf0, 0x3f}, {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12},
		{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}, {0, 0, 0, 0x80}, {8, 0, 0, 0, 10, '0', 0, 0}, {8, 0, 0, 0, 10, '1', 0, 0}}
	idx := 0
	for c := 0; c < 256; c++ {
		if c > 20 && c != 127 && c != 255 && c%16 != 0 {
			continue
		}
		for _, b := range bodies {
			for _, tail := range []int{0, 1, 2} {
				if idx%parts == part && !m.dead {
					body := append([]byte{byte(c), 'k', 0}, b...)
					if tail == 1 {
						body = append(body, 16, 'z', 0, 7, 0, 0, 0)
					}
					doc := append(append(le(uint64(len(body)+5), 4), body...), 0)
					if tail == 2 {
						doc = append([]byte{0, 0, 0, 0, 3, 'o', 0}, doc...)
						doc = append(doc, 0)
						copy(doc, le(uint64(len(doc)), 4))
					}
					m.enumDec("bson", doc, idx/parts)
				}
				idx++
			}
		}
	}
}

// YAML (C13)
func modeYaml(m *M, n int) {
	steps(m, n, func(i int) {
		if m.rng.Intn(4) == 0 {
			m.Again()
		}
		in := m.yamlText()
		m.decAny("yaml", in)
		if m.rng.Intn(4) == 0 {
			m.Dec(2, "yaml", m.damage(in, yamlAlphabet), DecOpt{Entry: "new", Cached: m.coin()})
		}
	})
	m.DumpAll()
}

// arbitrary bytes in every decoder; each result must equal a fresh process's (C14)
func modeFresh(m *M, n int) {
	steps(m, n, func(i int) {
		if m.rng.Intn(4) == 0 {
			m.Again()
		}
		format, in := m.someInput()
		if format != "yaml" && m.rng.Intn(4) == 0 {
			format, in = "yaml", m.yamlText()
		}
		if m.rng.Intn(4) == 0 {
			in = make([]byte, m.rng.Intn(24))
			m.rng.Read(in)
		} else if m.rng.Intn(2) == 0 {
			in = m.damage(in, map[string]string{"json": jsonAlphabet, "msgpack": mpAlphabet, "bson": bsonAlphabet, "yaml": yamlAlphabet}[format])
		}
		r := m.rng.Intn(3)
		cached := m.coin()
		m.Dec(r, format, in, DecOpt{Entry: "new", Cached: cached, Share: false})
		e := m.ev[len(m.ev)-1]
		if e["op"] == "dec" && !bytes.Contains(in, []byte("Date(")) {
			freshWanted = append(freshWanted, freshReq{e, format, in, cached})
		}
		switch m.rng.Intn(6) {
		case 0:
			if m.reg[r] != nil {
				m.Free(r)
			}
		case 1:
			if m.reg[r] != nil {
				m.Mut(r, []Step{}, O{"f": "Clear"}, -1)
			}
		case 2:
			m.RandMut()
		case 3:
			if m.reg[r] != nil && m.coin() {
				m.Clone(r, []Step{}, 4, m.coin())
			}
		}
	})
	m.DumpAll()
}

// recycling (C15)
func modePool(m *M, n int) {
	steps(m, n, func(i int) {
		switch m.rng.Intn(18) {
		case 0, 1:
			m.New(m.freeReg(), m.pick([]string{"obj", "arr", "str", "int", "dbl", "bin", "ext", "dt"}), m.rng.Intn(4) > 0)
		case 2, 3, 4:
			format, in := m.someInput()
			m.Dec(m.freeReg(), format, in, DecOpt{Entry: "new", Cached: m.rng.Intn(4) > 0, Share: m.rng.Intn(4) == 0})
		case 5, 6, 7:
			if r := m.anyReg(); r >= 0 {
				m.Free(r)
			}
		case 8, 9:
			r := m.anyReg()
			to := m.freeReg()
			if r >= 0 && to != r {
				m.Clone(r, []Step{}, to, m.rng.Intn(4) > 0)
			}
		case 10:
			if r := m.anyReg(); r >= 0 {
				m.Mut(r, []Step{}, O{"f": "Clear"}, -1)
			}
		case 11:
			if r := m.anyReg(); r >= 0 {
				m.RandLoad(r)
			}
		case 12:
			if r := m.anyReg(); r >= 0 {
				m.Dump(r, m.via())
			}
			if m.coin() {
				m.Again()
			}
		case 13:
			m.RandCopy()
		case 14:
			m.RandMerge(false)
		case 15:
			m.Build(m.freeReg(), m.doc(m.profAll()), m.rng.Intn(4) > 0)
		default:
			m.RandMut()
		}
		if i%7 == 6 {
			m.DumpAll()
		}
	})
	m.DumpAll()
}

// shared constants (C16)
func modeConst(m *M, n int) {
	witness := Dobj(KV{Bs("t"), Dconst("true")}, KV{Bs("f"), Dconst("false")}, KV{Bs("n"), Dconst("null")}, KV{Bs("l"), Darr(Dconst("true"), Dconst("null"), Dconst("false"))})
	m.Dec(5, "json", m.jsonDoc(witness), DecOpt{Entry: "new", Cached: m.coin()})
	m.Build(4, Dobj(), m.coin())
	for _, k := range []string{"null", "true", "false", "nan", "inf"} {
		m.Mut(4, []Step{}, O{"f": "SetKeyConst", "k": Bs(k), "kd": k}, -1)
	}
	steps(m, n, func(i int) {
		r := m.rng.Intn(4)
		if m.reg[r] == nil || m.rng.Intn(6) == 0 {
			switch m.rng.Intn(4) {
			case 0:
				m.New(r, m.pick([]string{"null", "true", "false", "nan", "inf"}), m.coin())
			case 1:
				pf := &Prof{Leaves: []string{"null", "true", "false", "true", "int"}, Depth: 2, Width: 4, Root: m.pick([]string{"obj", "arr"}), Keys: plainKeys}
				m.Dec(r, "json", m.jsonDoc(m.doc(pf)), DecOpt{Entry: "new", Cached: m.coin()})
			case 2:
				pf := &Prof{Leaves: []string{"null", "true", "false", "true", "int"}, Depth: 2, Width: 4, Root: m.pick([]string{"obj", "arr"}), Keys: plainKeys}
				m.Dec(r, "msgpack", m.mpDoc(m.doc(pf)), DecOpt{Entry: "new", Cached: m.coin()})
			case 3:
				m.New(r, "obj", m.coin())
				for k := 0; k < 4; k++ {
					m.Mut(r, []Step{}, O{"f": "SetKeyConst", "k": Bs(m.pick(plainKeys)), "kd": m.pick([]string{"null", "true", "false", "nan", "inf"})}, -1)
				}
			}
			return
		}
		switch m.rng.Intn(12) {
		case 0:
			m.Copy(4+m.rng.Intn(2), m.walk(5, 2)[:0], r, m.walk(r, 2), m.pick([]string{"CopyFrom", "SetValue", "AddFrom"}))
		case 1:
			q := (r + 1) % 4
			m.Merge(r, []Step{}, 4+m.rng.Intn(2), []Step{}, Policy{CB: m.coin(), Dflt: m.pick([]string{"normal", "replace"})}, false)
			_ = q
		case 2:
			m.Clone(4+m.rng.Intn(2), m.walk(4, 1), r, m.coin())
		case 3:
			m.RandLoad(r)
		case 4:
			m.SetGo(r, m.walk(r, 2), "root", "", 0, false, m.goValue(4))
		case 5:
			m.Free(r)
		case 6:
			m.Extract(r, []Step{}, m.nameAt(r, []Step{}), (r+1)%4)
		case 7:
			q := (r + 1) % 4
			m.Merge(r, m.walk(r, 1), q, []Step{}, Policy{CB: false, Dflt: "normal"}, false)
		default:
			p := m.walk(r, 3)
			m.Mut(r, p, m.randO(r, p), -1)
		}
		m.Dump(4, m.via())
		m.Dump(5, m.via())
	})
	m.DumpAll()
}

// loading (C17)
func modeLoad(m *M, n int) {
	steps(m, n, func(i int) {
		if m.rng.Intn(6) == 0 {
			m.Again()
		}
		r := m.rng.Intn(3)
		if m.reg[r] == nil || m.rng.Intn(4) == 0 {
			m.RandDoc(r, m.coin())
			if m.coin() && m.reg[r] != nil {
				p := m.walk(r, 1)
				m.Mut(r, p, m.randO(r, p), -1)
			}
		}
		if m.reg[r] == nil {
			return
		}
		m.RandLoad(r)
		if m.coin() && m.reg[r] != nil {
			p := m.walk(r, 2)
			m.Mut(r, p, m.randO(r, p), -1)
		}
		if m.rng.Intn(3) == 0 && m.reg[r] != nil {
			m.Dump(r, m.via())
		}
	})
	m.DumpAll()
}

// aliasing and append-only output (C18)
func modeAlias(m *M, n int) {
	steps(m, n, func(i int) {
		if m.rng.Intn(8) == 0 {
			m.Again()
		}
		r := m.rng.Intn(3)
		format := m.pick([]string{"json", "msgpack", "bson", "yaml"})
		var in []byte
		switch format {
		case "json":
			in = m.jsonDoc(m.doc(m.profJson()))
		case "msgpack":
			in = m.mpDoc(m.doc(&Prof{Leaves: leavesMp, Depth: 3, Width: 4, Root: "obj"}))
		case "bson":
			in = m.bsonDoc(m.doc(&Prof{Leaves: leavesBson, Depth: 4, Width: 3, Root: "obj"}))
		case "yaml":
			in = m.yamlText()
		}
		entry := "new"
		if m.coin() {
			entry = "load"
			if m.reg[r] == nil {
				m.New(r, "obj", m.coin())
			}
		}
		m.Dec(r, format, in, DecOpt{Entry: entry, Cached: m.coin(), Share: m.rng.Intn(3) == 0, NoDump: format != "yaml" && m.coin()})
		if m.reg[r] == nil {
			return
		}
		for k := m.rng.Intn(3); k > 0; k-- {
			p := m.walk(r, 2)
			switch m.rng.Intn(3) {
			case 0:
				m.Mut(r, []Step{}, O{"f": "SetKeyBin", "k": Bs(m.nameAt(r, []Step{})), "b": Bs(m.idBytes())}, -1)
			case 1:
				m.Mut(r, p, O{"f": m.pick([]string{"SetBinary", "SetBinaryShared"}), "b": Bs(m.idBytes())}, -1)
			case 2:
				m.Mut(r, p, m.randO(r, p), -1)
			}
		}
		for k := 1 + m.rng.Intn(3); k > 0; k-- {
			m.EncReg(r)
		}
		if m.rng.Intn(3) == 0 { // small and empty documents behind the caller's bytes
			d := m.doc(&Prof{Leaves: leavesAll, Depth: 1, Width: 1, Root: m.pick([]string{"obj", "arr", "any"})})
			switch m.rng.Intn(4) {
			case 0:
				d = Darr()
			case 1:
				d = Dobj()
			}
			m.Build(3, d, m.coin())
			for _, f := range []string{"json", "msgpack", "bson"} {
				if f == "bson" && d.T != "obj" && d.T != "arr" {
					continue
				}
				m.Enc(3, []Step{}, EncOpt{Format: f, Fmtd: m.coin(), Style: m.pick([]string{"none", "all", "ansi"}), EscDt: m.coin(), Pre: []byte(m.pick([]string{"x", "prefix:", "\x00\xff"})), Alt: m.rng.Intn(4)})
			}
		}
		m.Dump(r, m.via())
		m.checkBufs()
	})
	m.DumpAll()
}

func (m *M) shortWalk(r int) []Step {
	if m.rng.Intn(3) > 0 {
		return []Step{}
	}
	return m.walk(r, 2)
}

// Go values to documents (C19)
func modeSetGo(m *M, n int) {
	steps(m, n, func(i int) {
		r := m.rng.Intn(2)
		if m.reg[r] == nil || m.reg[r].ReadOnly() {
			m.New(r, m.pick([]string{"obj", "arr", "str", "int", "obj", "bin"}), m.coin())
		}
		switch m.rng.Intn(6) {
		case 0:
			m.SetGo(r, []Step{}, "new", "", 0, m.coin(), m.goValue(4))
		case 1:
			m.SetGo(r, []Step{}, "root", "", 0, false, m.goValue(4))
		case 2, 3:
			if m.reg[r].Type() != dx.VT_Object && m.rng.Intn(3) > 0 || m.reg[r].Count() > 8 {
				m.Mut(r, []Step{}, O{"f": "Reset", "kd": "obj"}, -1)
			}
			p := m.shortWalk(r)
			k := fmt.Sprintf("n%d", m.rng.Intn(1000))
			if m.rng.Intn(3) > 0 {
				k = m.nameAt(r, p)
			}
			m.SetGo(r, p, "key", k, 0, false, m.goValue(4))
		case 4:
			if m.reg[r].Type() != dx.VT_Array && m.rng.Intn(3) > 0 || m.reg[r].Count() > 8 {
				m.Mut(r, []Step{}, O{"f": "Reset", "kd": "arr"}, -1)
			}
			m.SetGo(r, m.shortWalk(r), "index", "", m.rng.Intn(6)-1, false, m.goValue(4))
		case 5:
			m.Build(r, m.doc(m.profAll()), m.coin())
			m.SetGo(r, m.walk(r, 2), "root", "", 0, false, m.goValue(4))
		}
	})
	m.DumpAll()
}

// documents to Go values (C20)
func modeToGo(m *M, n int) {
	steps(m, n, func(i int) {
		if m.reg[0] == nil || m.rng.Intn(3) == 0 {
			leaves := []string{"str", "int", "flt", "dbl", "dt", "bin", "null", "true", "false", "str", "int"}
			if m.rng.Intn(3) == 0 {
				m.Dec(0, "json", m.jsonDoc(m.doc(&Prof{Leaves: leavesJson, Keys: dNames, Depth: 3, Width: 8, Root: m.pick([]string{"obj", "obj", "arr", "any"})})), DecOpt{Entry: "new", Cached: m.coin(), NoDump: m.coin()})
			} else {
				m.Build(0, m.goDoc(leaves), m.coin())
			}
		}
		if m.reg[0] == nil {
			return
		}
		p := []Step{}
		if m.rng.Intn(3) == 0 {
			p = m.walk(0, 2)
		}
		m.ToGo(0, p, m.coin(), nil)
		if m.rng.Intn(5) == 0 {
			m.RoundTrip(m.coin())
		}
	})
	m.DumpAll()
}

// goDoc: a document whose members mostly fit the destination fields
func (m *M) goDoc(leaves []string) *D {
	pf := &Prof{Leaves: leaves, Keys: dNames, Depth: 2, Width: 8, Root: m.pick([]string{"obj", "arr", "any"})}
	if m.rng.Intn(3) == 0 {
		return m.doc(pf)
	}
	d := Dobj()
	used := map[string]bool{}
	list := func(f func() *D) *D {
		a := Darr()
		for k := m.rng.Intn(5); k > 0; k-- {
			a.El = append(a.El, f())
		}
		return a
	}
	inner := func() *D {
		o := Dobj()
		for _, k := range []string{"X", "S", "F", "Bo", "x"} {
			if m.rng.Intn(3) > 0 {
				o.KV = append(o.KV, KV{Bs(k), m.leaf(m.pick(leaves), nil)})
			}
		}
		return o
	}
	for n := 4 + m.rng.Intn(16); n > 0; n-- {
		k := m.pick(dNames)
		if used[k] {
			continue
		}
		used[k] = true
		var v *D
		switch k {
		case "Ss", "Is", "Us", "Fs", "Bs", "Ts", "Regs":
			if m.rng.Intn(40) == 0 { // longer than the destination grows in one step
				lk := m.pick([]string{"int", "int", "str", "true"})
				v = Darr()
				for n := 250 + m.rng.Intn(400); n > 0; n-- {
					v.El = append(v.El, m.leaf(lk, &Prof{Str: m.shortStr}))
				}
				break
			}
			v = list(func() *D { return m.leaf(m.pick(leaves), nil) })
		case "Iss":
			v = list(func() *D { return list(func() *D { return Dint(m.int()) }) })
		case "In", "in":
			v = inner()
		case "Ins", "INS":
			v = list(inner)
		case "Bin":
			v = Dbin(m.bytes())
		default:
			v = m.leaf(m.pick(leaves), nil)
		}
		if m.rng.Intn(10) == 0 {
			v = m.docN(pf, 1, "")
		}
		d.KV = append(d.KV, KV{Bs(k), v})
	}
	return d
}

// reading never changes (C21)
func modeReadOnly(m *M, n int) {
	if m.rng.Intn(4) > 0 {
		m.Dec(0, "json", m.jsonDoc(m.doc(&Prof{Leaves: leavesJson, Depth: 3, Width: 5, Root: m.pick([]string{"obj", "obj", "arr"})})), DecOpt{Entry: "new", Cached: m.coin(), Share: m.coin(), NoDump: true})
	} else {
		m.RandDoc(0, true)
	}
	if m.reg[0] == nil {
		return
	}
	m.RandDoc(1, true)
	steps(m, n, func(i int) {
		lz := m.lazy[0]
		switch m.rng.Intn(12) {
		case 0, 1, 2:
			m.RandRead()
		case 3, 4:
			m.RandLook()
		case 5, 6:
			m.RandEnc()
		case 7:
			m.RandEq()
		case 8:
			m.Clone(0, []Step{}, 2+m.rng.Intn(2), m.coin())
			m.RandEq()
		case 9:
			m.ToGo(0, m.walk(0, 1), m.coin(), nil)
		case 10:
			m.Copy(0, []Step{}, 2, []Step{}, "CopyFrom")
		case 11:
			if m.reg[1] != nil && m.rng.Intn(3) == 0 {
				m.Merge(1, []Step{}, 0, []Step{}, Policy{CB: false, Dflt: "normal"}, false)
			}
		}
		m.lazy[0] = lz
		if m.rng.Intn(10) == 0 {
			m.Dump(0, "clone")
		}
	})
	m.DumpAll()
}

// chains of formats (C22)
func modeChain(m *M, n int) {
	keys := []string{"a", "b", "k\"q", "x\\y", "n\nl", "é", "中", "😀", "\x01", "", "t\tb", "a/b", "A"}
	steps(m, n/4+1, func(i int) {
		pf := &Prof{Leaves: leavesJson, Keys: keys, Depth: 3, Width: 5, Root: "obj", Str: func() string { return strings.ReplaceAll(m.str(), "\x00", "") }}
		switch m.rng.Intn(3) {
		case 0:
			m.Build(0, m.doc(pf), m.coin())
		case 1:
			m.Dec(0, "json", m.jsonDoc(m.doc(pf)), DecOpt{Entry: "new", Cached: m.coin(), Share: m.coin(), NoDump: true})
		case 2:
			m.Dec(0, "msgpack", m.mpDoc(m.doc(pf)), DecOpt{Entry: "new", Cached: m.coin(), Share: m.coin(), NoDump: true})
		}
		if m.reg[0] == nil {
			return
		}
		cur := 0
		for k := 2 + m.rng.Intn(4); k > 0 && !m.dead; k-- {
			f := m.pick([]string{"json", "msgpack", "bson"})
			out := m.Enc(cur, []Step{}, EncOpt{Format: f, Fmtd: m.coin(), Style: m.pick([]string{"all", "ansi"}), Alt: m.rng.Intn(4)})
			next := cur + 1
			if out == nil || next >= NREG {
				break
			}
			if !m.Dec(next, f, out, DecOpt{Entry: "new", Cached: m.coin(), Share: m.coin(), NoDump: m.coin() && f != "json"}) {
				break
			}
			cur = next
		}
		m.Eq(0, []Step{}, cur, []Step{})
		m.DumpAll()
	})
}

// files (C23)
func modeFile(m *M, n int) {
	steps(m, n, func(i int) {
		switch m.rng.Intn(8) {
		case 0, 1, 2:
			d := m.doc(m.profJson())
			if m.coin() {
				d = m.doc(&Prof{Leaves: leavesAll, Depth: 3, Width: 4, Root: "obj"})
			}
			if m.rng.Intn(12) == 0 { // a long text
				d = Darr(Dstr(strings.Repeat("long ", 200+m.rng.Intn(1700))), m.sized(300))
			}
			m.Build(0, d, m.coin())
			if m.coin() {
				m.Dec(0, "json", m.jsonDoc(m.doc(m.profJson())), DecOpt{Entry: "new", Cached: m.coin(), NoDump: m.coin()})
			}
			m.SaveJson(0, m.coin(), m.coin(), m.rng.Intn(4))
		case 3, 4:
			format, in := m.someInput()
			if format == "bson" {
				return
			}
			if m.rng.Intn(12) == 0 { // a long file
				big := Darr(Dstr(strings.Repeat("long ", 200+m.rng.Intn(1700))), m.sized(300))
				if format == "msgpack" {
					in = m.mpDoc(big)
				} else if format == "yaml" {
					in = nil
					for k := 0; len(in) < 600+m.rng.Intn(8000); k++ {
						in = append(in, fmt.Sprintf("key%d: some words\n", k)...)
					}
				} else {
					var sb strings.Builder
					m.jsonText(&sb, big.El[0], 0)
					in = append(append([]byte("["+sb.String()+","), m.jsonDoc(m.doc(m.profJson()))...), ']')
				}
			}
			if format != "msgpack" && m.rng.Intn(3) == 0 {
				in = append([]byte{0xef, 0xbb, 0xbf}, in...)
			}
			m.Dec(1, format, in, DecOpt{Entry: "file", Cached: m.coin()})
		case 5:
			m.MissingFile(m.pick([]string{"json", "msgpack", "yaml", "binload", "save", "binsave"}))
		case 6, 7:
			sz := []int{0, 1, 5, 100, 511, 512, 513, 1000, 2047, 2049, 4095, 4096, 4097, 5000, 8192, 8193}[m.rng.Intn(16)]
			b := make([]byte, sz)
			m.rng.Read(b)
			m.BinFile(b, m.coin(), m.coin(), m.rng.Intn(4))
		}
	})
	m.DumpAll()
}

func (m *M) oldFile(fn string, old int) {
	os.Remove(fn)
	if old > 0 {
		if err := os.WriteFile(fn, []byte(strings.Repeat("old content ", old*40)), 0600); err != nil {
			fatal(err)
		}
	}
}

// SaveJson writes register r to a file, possibly over an older one, and reads it back.
func (m *M) SaveJson(r int, bom, fmtd bool, old int) {
	if m.reg[r] == nil {
		return
	}
	fn := m.fileName("out.json")
	m.oldFile(fn, old)
	e := Ev{"op": "fsave", "r": r, "bom": bom, "fmtd": fmtd, "ok": false, "bytes": Bs{}, "built": m.built[r]}
	m.call(e, func() {
		err := dx.Value2File(m.reg[r], fn, bom, fmtd)
		e["ok"] = err == nil
		b, _ := os.ReadFile(fn)
		e["bytes"] = Bs(b)
	})
	if b, err := os.ReadFile(fn); err == nil && !m.dead {
		m.Dec(2, "json", b, DecOpt{Entry: "file", Cached: m.coin()})
	}
	os.Remove(fn)
}

// MissingFile: opening what is not there must fail.
func (m *M) MissingFile(what string) {
	fn := m.fileName("no/such/file")
	e := Ev{"op": "nofile", "what": what, "err": false, "doc": false}
	m.call(e, func() {
		var v *dx.DxValue
		var err error
		switch what {
		case "json":
			v, err = dx.NewValueFromJsonFile(fn, m.coin())
		case "msgpack":
			v, err = dx.NewValueFromMsgPackFile(fn, m.coin())
		case "yaml":
			v, err = dx.NewValueFromYamlFile(fn, m.coin())
		case "save":
			err = dx.Value2File(dx.NewObject(false), fn, false, false)
		case "binload":
			b := dx.NewValue(dx.VT_Binary)
			b.SetBinary([]byte("keep"), true)
			err = b.SetBinaryFromFile(fn)
			if string(b.Binary()) != "keep" {
				v = b
			}
		case "binsave":
			b := dx.NewValue(dx.VT_Binary)
			b.SetBinary([]byte("x"), true)
			err = b.SaveBinaryToFile(fn)
		}
		e["err"] = err != nil
		e["doc"] = v != nil
	})
}

// BinFile saves a binary value and loads it into another one.
func (m *M) BinFile(b []byte, ext, ext2 bool, old int) {
	fn := m.fileName("bin.dat")
	m.oldFile(fn, old)
	mk := func(x bool, content []byte) *dx.DxValue {
		if x {
			v := dx.NewValue(dx.VT_ExBinary)
			v.SetExtType(9)
			v.SetBinary(content, true)
			return v
		}
		v := dx.NewValue(dx.VT_Binary)
		v.SetBinary(content, true)
		return v
	}
	e := Ev{"op": "binfile", "b": Bs(append([]byte{}, b...)), "ext": ext, "ok": false, "file": Bs{}, "back": Ev{}}
	m.call(e, func() {
		v := mk(ext, b)
		err := v.SaveBinaryToFile(fn)
		f, _ := os.ReadFile(fn)
		e["file"] = Bs(f)
		w := mk(ext2, []byte("previous content"))
		err2 := w.SetBinaryFromFile(fn)
		f2, _ := os.ReadFile(fn)
		e["ok"] = err == nil && err2 == nil && string(f) == string(f2)
		e["back"] = dump(w, "items")
		e["exp"] = map[bool]*D{true: Dext(9, b), false: Dbin(b)}[ext2]
	})
	os.Remove(fn)
}
