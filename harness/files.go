package main

import (
	"bytes"
	"os"
	"path/filepath"

	dx "github.com/suiyunonghen/dxsvalue"
)

// The driver's file system: three names in a directory of its own, a name that is a directory and one below a
// directory that does not exist. The first three start out as no files.
const nFiles = 5

func (m *M) slotName(f int) string {
	switch f {
	case 3:
		return filepath.Join(m.dir, "slots", "sub")
	case 4:
		return filepath.Join(m.dir, "slots", "none", "x")
	}
	return filepath.Join(m.dir, "slots", string(rune('a'+f))+".dat")
}

func (m *M) slotsInit() {
	if m.slots {
		return
	}
	m.slots = true
	os.RemoveAll(filepath.Join(m.dir, "slots"))
	if err := os.MkdirAll(m.slotName(3), 0700); err != nil {
		fatal(err)
	}
}

// slotState: what the files hold now.
func (m *M) slotState() []Ev {
	out := []Ev{}
	for f := 0; f < nFiles; f++ {
		b, err := os.ReadFile(m.slotName(f))
		if err != nil {
			out = append(out, Ev{"ok": false})
		} else {
			out = append(out, Ev{"ok": true, "v": Bs(b)})
		}
	}
	return out
}

// FileOpt is one file operation.
type FileOpt struct {
	O      string // put, del, savej, load, bsave, bload, read
	F, R   int
	Fmt    string
	Bytes  Bs
	Cached bool
	Bom    bool
	Fmtd   bool
}

// FileOp performs o and records what all files hold afterwards.
func (m *M) FileOp(o FileOpt) {
	if m.dir == "" {
		return
	}
	m.slotsInit()
	fn := m.slotName(o.F)
	e := Ev{"op": "file", "o": o.O, "f": o.F, "r": o.R, "fmt": o.Fmt, "b": append(Bs{}, o.Bytes...), "bom": o.Bom, "fmtd": o.Fmtd, "cached": o.Cached,
		"ok": false, "err": true, "hasdoc": false, "got": Bs{}, "built": false, "skip": false}
	switch o.O {
	case "savej", "bsave", "bload":
		if m.reg[o.R] == nil {
			return
		}
		e["built"] = m.built[o.R]
	case "load":
		m.drop(o.R)
	}
	m.call(e, func() {
		var err error
		switch o.O {
		case "put":
			if o.F > 2 {
				e["skip"] = true
				break
			}
			if err := os.WriteFile(fn, o.Bytes, 0600); err != nil {
				fatal(err)
			}
		case "del":
			if o.F < 3 {
				os.Remove(fn)
			}
		case "savej":
			err = dx.Value2File(m.reg[o.R], fn, o.Bom, o.Fmtd)
		case "load":
			var v *dx.DxValue
			switch o.Fmt {
			case "json":
				v, err = dx.NewValueFromJsonFile(fn, o.Cached)
			case "msgpack":
				v, err = dx.NewValueFromMsgPackFile(fn, o.Cached)
			default:
				v, err = dx.NewValueFromYamlFile(fn, o.Cached)
			}
			e["hasdoc"] = v != nil
			if err == nil && v != nil {
				m.place(o.R, v, o.Cached || o.Fmt == "yaml")
				e["d"] = dump(v, "items")
			}
		case "bsave":
			err = m.reg[o.R].SaveBinaryToFile(fn)
		case "bload":
			err = m.reg[o.R].SetBinaryFromFile(fn)
		case "read":
			var b []byte
			b, err = dx.ReadFile(fn)
			if err == nil {
				e["got"] = append(Bs{}, b...)
				scribble(b)
			}
		}
		e["ok"] = err == nil
		if err != nil {
			e["err"] = len(err.Error()) > 0
		}
		e["fs"] = m.slotState()
	})
}

// modeFs: histories over the driver's files (C23)
func modeFs(m *M, n int) {
	steps(m, n, func(i int) {
		f := m.rng.Intn(3)
		if m.rng.Intn(10) == 0 {
			f = 3 + m.rng.Intn(2)
		}
		r := m.rng.Intn(3)
		o := FileOpt{F: f, R: r, Fmt: m.pick([]string{"json", "msgpack", "yaml"}), Cached: m.coin(), Bom: m.coin(), Fmtd: m.coin()}
		switch m.rng.Intn(12) {
		case 0:
			_, in := m.someInput()
			if m.rng.Intn(3) == 0 {
				in = append([]byte{0xef, 0xbb, 0xbf}, in...)
			}
			if bytes.Contains(in, []byte("Date(")) {
				return
			}
			o.O, o.Bytes = "put", in
		case 1:
			o.O = "del"
		case 2, 3, 4:
			if m.reg[r] == nil || m.coin() {
				d := m.doc(m.profJson())
				if m.rng.Intn(3) == 0 {
					d = Dbin(m.bytesOf(m.rng.Intn(700)))
				}
				m.Build(r, d, m.coin())
			}
			o.O = "savej"
		case 5, 6, 7:
			o.O = "load"
		case 8:
			o.O = "bsave"
			if m.coin() {
				b := m.bytesOf([]int{0, 1, 3, 20, 511, 512, 513, 600, 1024}[m.rng.Intn(9)])
				if m.coin() {
					m.Build(r, Dbin(b), m.coin())
				} else {
					m.Build(r, Dext(1+m.rng.Intn(100), b), m.coin())
				}
			}
		case 9:
			o.O = "bload"
		case 10:
			o.O = "read"
		case 11:
			m.RandMut()
			return
		}
		m.FileOp(o)
	})
	m.DumpAll()
}

func (m *M) bytesOf(n int) []byte {
	b := make([]byte, n)
	m.rng.Read(b)
	return b
}
