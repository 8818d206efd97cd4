package main

import (
	"encoding/json"
	"reflect"
	"strings"
)

// script: documents to build and operations to perform on them.
type script struct {
	IC    bool              `json:"ic"`
	Steps []json.RawMessage `json:"steps"`
}

type rawStep struct {
	Op     string                     `json:"op"`
	R      int                        `json:"r"`
	To     int                        `json:"to"`
	V      *D                         `json:"v"`
	Via    string                     `json:"via"` // how the document is produced: build, cached, json, msgpack
	P      []rawPath                  `json:"p"`
	Q      []rawPath                  `json:"q"`
	O      map[string]json.RawMessage `json:"o"`
	K      Bs                         `json:"k"`
	Pol    Policy                     `json:"pol"`
	Cached bool                       `json:"cached"`
	Src    *int                       `json:"src"`
	In     Bs                         `json:"in"`
	Fmt    string                     `json:"fmt"`
	Entry  string                     `json:"entry"`
	Share  bool                       `json:"share"`
	NoDump bool                       `json:"nodump"`
	How    string                     `json:"how"`
	Kd     string                     `json:"kd"`
	Fam    string                     `json:"fam"`
	Ty     string                     `json:"ty"`
	What   string                     `json:"what"`
	N      int                        `json:"n"`
	Ks     []Bs                       `json:"ks"`
	Alt    int                        `json:"alt"`
	Style  string                     `json:"style"`
	Fmtd   bool                       `json:"fmtd"`
	Pre    Bs                         `json:"pre"`
	Act    string                     `json:"act"`
	F      int                        `json:"f"`
	Bom    bool                       `json:"bom"`
	Gt     *goTerm                    `json:"gt"`
	Seed   int64                      `json:"seed"`
	Icase  bool                       `json:"icase"`
	Keep   string                     `json:"keep"` // decode the produced bytes again into register to
}

type rawPath struct {
	K *Bs  `json:"k"`
	N *int `json:"n"`
}

func paths(p []rawPath) []Step {
	out := []Step{}
	for _, s := range p {
		if s.K != nil {
			b := *s.K
			if b == nil {
				b = Bs{}
			}
			out = append(out, Step{K: b})
		} else {
			out = append(out, Step{N: *s.N})
		}
	}
	return out
}

func mutO(raw map[string]json.RawMessage) O {
	o := O{}
	for k, v := range raw {
		switch k {
		case "f", "kd":
			var s string
			json.Unmarshal(v, &s)
			o[k] = s
		case "k", "i", "fl", "d", "s", "b":
			var b Bs
			json.Unmarshal(v, &b)
			o[k] = b
		case "n", "x":
			var n int
			json.Unmarshal(v, &n)
			o[k] = n
		case "bv":
			var b bool
			json.Unmarshal(v, &b)
			o[k] = b
		case "ks":
			var b []Bs
			json.Unmarshal(v, &b)
			o[k] = b
		}
	}
	return o
}

func (s *script) run(m *M) {
	for _, raw := range s.Steps {
		var st rawStep
		if err := json.Unmarshal(raw, &st); err != nil {
			fatal(err)
		}
		if m.dead {
			return
		}
		switch st.Op {
		case "build":
			switch st.Via {
			case "json":
				m.Dec(st.R, "json", m.jsonDoc(st.V), DecOpt{Entry: "new", Cached: st.Cached, NoDump: true})
			case "msgpack":
				m.Dec(st.R, "msgpack", m.mpDoc(st.V), DecOpt{Entry: "new", Cached: st.Cached, NoDump: true})
			case "lazy": // JSON without escapes
				var sb strings.Builder
				m.jsonText(&sb, st.V, 0)
				m.Dec(st.R, "json", []byte(sb.String()), DecOpt{Entry: "new", Cached: st.Cached, NoDump: true})
			case "consts": // the shared constants themselves
				m.BuildS(st.R, st.V, st.Cached, true)
			default:
				m.Build(st.R, st.V, st.Cached)
			}
		case "new":
			m.New(st.R, st.Kd, st.Cached)
		case "read":
			for a := 0; a < 4; a++ {
				m.Read(st.R, paths(st.P), st.Fam, st.Ty, string(st.K), st.N, st.Ks, a)
				if st.Fam == "direct" || st.Fam == "path" || st.Fam == "index" {
					break
				}
			}
		case "look":
			m.Look(st.R, paths(st.P), st.What, string(st.K), st.N, st.Ks)
		case "enc":
			out := m.Enc(st.R, paths(st.P), EncOpt{Format: st.Fmt, Fmtd: st.Fmtd, Style: st.Style, EscDt: false, Pre: st.Pre, Alt: st.Alt})
			if st.Keep == "dec" && out != nil {
				m.Dec(st.To, st.Fmt, out, DecOpt{Entry: "new", Cached: st.Cached, Share: st.Share})
			}
		case "setgo":
			m.rng.Seed(st.Seed)
			m.SetGo(st.R, paths(st.P), st.How, string(st.K), st.N, st.Cached, st.Gt.value(m))
		case "togo":
			m.rng.Seed(st.Seed)
			var t reflect.Type
			if st.Gt != nil {
				t = st.Gt.typ()
			}
			m.ToGo(st.R, paths(st.P), st.Icase, t)
		case "mut":
			src := -1
			if st.Src != nil {
				src = *st.Src
			}
			m.Mut(st.R, paths(st.P), mutO(st.O), src)
		case "merge":
			m.Merge(st.To, paths(st.Q), st.R, paths(st.P), st.Pol, true)
		case "clone":
			m.Clone(st.R, paths(st.P), st.To, st.Cached)
		case "copy":
			m.Copy(st.R, paths(st.P), st.To, paths(st.Q), st.How)
		case "eq":
			m.Eq(st.R, paths(st.P), st.To, paths(st.Q))
		case "extract":
			m.Extract(st.R, paths(st.P), string(st.K), st.To)
		case "file":
			m.FileOp(FileOpt{O: st.Act, F: st.F, R: st.R, Fmt: st.Fmt, Bytes: st.In, Cached: st.Cached, Bom: st.Bom, Fmtd: st.Fmtd})
		case "free":
			m.Free(st.R)
		case "dec":
			m.Dec(st.R, st.Fmt, st.In, DecOpt{Entry: st.Entry, Cached: st.Cached, Share: st.Share, Q: paths(st.Q), NoDump: st.NoDump})
		case "dump":
			via := st.Via
			if via == "" {
				via = "items"
			}
			m.Dump(st.R, via)
		case "dumpall":
			m.DumpAll()
		default:
			fatal(&json.UnsupportedValueError{Str: st.Op})
		}
	}
}
