// dxh drives the library and records what it does, as traces for the specification to judge.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	dx "github.com/suiyunonghen/dxsvalue"
)

var lastTick int64

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "dxh:", err)
	os.Exit(4)
}

type freshReq struct {
	e      Ev
	format string
	in     []byte
	cached bool
}

var freshWanted []freshReq

type out struct {
	w *bufio.Writer
	n int
}

func (o *out) chunk(id int, mode string, m *M) {
	if len(m.ev) == 0 {
		return
	}
	j, err := json.Marshal(Ev{"id": id, "mode": mode, "ic": m.icase, "ev": m.ev})
	if err != nil {
		fatal(err)
	}
	o.w.Write(j)
	o.w.WriteByte('\n')
	o.n++
}

func main() {
	os.Setenv("TZ", "UTC")
	time.Local = time.UTC
	if len(os.Args) < 2 {
		fatal(fmt.Errorf("no command"))
	}
	switch os.Args[1] {
	case "gen":
		genCmd(os.Args[2:])
	case "fresh":
		freshCmd()
	case "replay":
		replayCmd(os.Args[2:])
	default:
		fatal(fmt.Errorf("unknown command %s", os.Args[1]))
	}
}

// watchdog: a call that does not return ends the driver.
func watchdog(what string, curID *int64) {
	atomic.StoreInt64(&lastTick, time.Now().UnixNano())
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			if time.Since(time.Unix(0, atomic.LoadInt64(&lastTick))) > 20*time.Second {
				buf := make([]byte, 1<<16)
				n := runtime.Stack(buf, true)
				fmt.Fprintf(os.Stderr, "dxh: HANG %s chunk=%d\n%s\n", what, atomic.LoadInt64(curID), buf[:n])
				os.Exit(5)
			}
		}
	}()
}

// genCmd: -mode M -seed S -chunks N -len L -out FILE -dir SCRATCH
func genCmd(args []string) {
	fs := flag.NewFlagSet("gen", flag.ExitOnError)
	mode := fs.String("mode", "", "")
	seed := fs.Int64("seed", 1, "")
	chunks := fs.Int("chunks", 10, "")
	length := fs.Int("len", 30, "")
	outf := fs.String("out", "", "")
	dir := fs.String("dir", "", "")
	procs := fs.Int("procs", 8, "")
	ic := fs.Bool("ic", false, "")
	fs.Parse(args)
	f, err := os.Create(*outf)
	if err != nil {
		fatal(err)
	}
	o := &out{w: bufio.NewWriter(f)}
	dx.IgnoreCase = *ic
	var cur atomic.Value
	cur.Store((*M)(nil))
	curID := int64(0)
	watchdog(fmt.Sprintf("mode=%s seed=%d", *mode, *seed), &curID)
	if *mode == "conc" {
		concMode(o, *seed, *chunks, *length, *procs)
	} else {
		for i := 0; i < *chunks; i++ {
			atomic.StoreInt64(&curID, int64(i))
			dx.IgnoreCase = *ic
			m := newM(*seed*1000003 + int64(i))
			m.dir = *dir
			runMode(m, *mode, i, *chunks, *length)
			if *mode == "fresh" {
				runFresh()
			}
			o.chunk(i, *mode, m)
		}
	}
	if err := o.w.Flush(); err != nil {
		fatal(err)
	}
	f.Close()
	fmt.Printf("chunks=%d\n", o.n)
}

func runMode(m *M, mode string, i, chunks, n int) {
	defer func() {
		if r := recover(); r != nil {
			// a panic outside a recorded call: navigation helpers use the library too
			m.emit(Ev{"op": "crash", "st": "panic", "msg": fmt.Sprint(r)})
		}
	}()
	switch mode {
	case "hist", "copy", "merge", "eq", "pool", "load", "const", "readonly":
		m.small = m.rng.Intn(3) == 0
	}
	switch mode {
	case "hist", "copy", "merge", "eq", "pool", "load", "const", "readonly", "reads", "togo":
		m.wide = m.rng.Intn(5) == 0
	case "alias", "jsonenc", "mpenc", "bsonenc", "chain":
		m.wide = m.rng.Intn(12) == 0
	}
	switch mode {
	case "jsondec", "jsonbad", "load", "fresh", "pool", "alias", "file", "fs":
		m.dates = m.rng.Intn(3) == 0
	}
	switch mode {
	case "hist":
		modeHist(m, n)
	case "reads":
		modeReads(m, n)
	case "copy":
		modeCopy(m, n)
	case "merge":
		modeMerge(m, n)
	case "eq":
		modeEq(m, n)
	case "jsondec":
		modeJsonDec(m, n)
	case "jsonenc":
		modeJsonEnc(m, n)
	case "jsonbad":
		modeJsonBad(m, n)
	case "jsonenum":
		modeJsonEnum(m, i, chunks, n)
	case "mpenc":
		modeMpEnc(m, n)
	case "mphuge":
		modeMpHuge(m, i)
	case "mpdec":
		modeMpDec(m, n)
	case "mpenum":
		modeMpEnum(m, i, chunks)
	case "bsonenc":
		modeBsonEnc(m, n)
	case "bsondec":
		modeBsonDec(m, n)
	case "bsonenum":
		modeBsonEnum(m, i, chunks)
	case "yaml":
		modeYaml(m, n)
	case "fresh":
		modeFresh(m, n)
	case "pool":
		modePool(m, n)
	case "const":
		modeConst(m, n)
	case "load":
		modeLoad(m, n)
	case "alias":
		modeAlias(m, n)
	case "setgo":
		modeSetGo(m, n)
	case "togo":
		modeToGo(m, n)
	case "readonly":
		modeReadOnly(m, n)
	case "chain":
		modeChain(m, n)
	case "fs":
		modeFs(m, n)
	case "file":
		modeFile(m, n)
	default:
		fatal(fmt.Errorf("unknown mode %s", mode))
	}
}

// concMode: many goroutines, each with its own documents.
func concMode(o *out, seed int64, chunks, n, procs int) {
	runtime.GOMAXPROCS(procs)
	ms := make([]*M, chunks)
	var wg sync.WaitGroup
	next := int64(-1)
	for p := 0; p < procs; p++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= chunks {
					return
				}
				m := newM(seed*7000003 + int64(i))
				ms[i] = m
				switch i % 16 {
				case 0, 1:
					runMode(m, "copy", i, chunks, n)
				case 2:
					runMode(m, "yaml", i, chunks, n/3+1)
				case 3, 4:
					runMode(m, "const", i, chunks, n)
				case 5:
					runMode(m, "jsonenc", i, chunks, n/4+1)
				case 6:
					runMode(m, "alias", i, chunks, n/4+1)
				case 7:
					runMode(m, "merge", i, chunks, n)
				case 8:
					runMode(m, "setgo", i, chunks, n/2+1)
				case 9:
					runMode(m, "togo", i, chunks, n/2+1)
				case 10:
					runMode(m, "chain", i, chunks, n)
				case 11:
					runMode(m, "hist", i, chunks, n)
				default:
					runMode(m, "pool", i, chunks, n)
				}
			}
		}()
	}
	wg.Wait()
	for i, m := range ms {
		o.chunk(i, "conc", m)
	}
}

// ---------------------------------------------------------------- fresh processes

type freshIn struct {
	Format string `json:"format"`
	In     []byte `json:"in"`
	Cached bool   `json:"cached"`
}

func freshOne(q freshIn) Ev {
	e := Ev{"ok": false, "hasdoc": false}
	func() {
		defer func() {
			if r := recover(); r != nil {
				e["panic"] = true
			}
		}()
		v, err := decodeNew(q.Format, q.In, q.Cached, false)
		e["ok"] = err == nil
		e["hasdoc"] = v != nil
		if err == nil && v != nil {
			e["d"] = dump(v, "items")
		}
	}()
	return e
}

func freshCmd() {
	var q freshIn
	if err := json.NewDecoder(os.Stdin).Decode(&q); err != nil {
		fatal(err)
	}
	go func() {
		time.Sleep(20 * time.Second)
		os.Exit(5)
	}()
	j, _ := json.Marshal(freshOne(q))
	os.Stdout.Write(j)
}

// runFresh decodes every wanted input as the first call of a new process.
func runFresh() {
	self, err := os.Executable()
	if err != nil {
		fatal(err)
	}
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for i := range freshWanted {
		q := freshWanted[i]
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			j, _ := json.Marshal(freshIn{q.format, q.in, q.cached})
			cmd := exec.Command(self, "fresh")
			cmd.Stdin = bytes.NewReader(j)
			res, err := cmd.Output()
			if err != nil {
				q.e["fresh"] = json.RawMessage(`{"ok":false,"hasdoc":false,"dead":true}`)
				return
			}
			q.e["fresh"] = json.RawMessage(res)
		}()
		atomic.StoreInt64(&lastTick, time.Now().UnixNano())
	}
	wg.Wait()
	freshWanted = nil
}

// ---------------------------------------------------------------- replay of model-generated cases

// replayCmd: -in FILE -out FILE: each line of the input is a list of steps produced by the specification.
func replayCmd(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	inf := fs.String("in", "", "")
	outf := fs.String("out", "", "")
	dir := fs.String("dir", "", "")
	fs.Parse(args)
	f, err := os.Open(*inf)
	if err != nil {
		fatal(err)
	}
	w, err := os.Create(*outf)
	if err != nil {
		fatal(err)
	}
	o := &out{w: bufio.NewWriter(w)}
	curID := int64(0)
	watchdog("replay", &curID)
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	id := 0
	for sc.Scan() {
		line := sc.Bytes()
		if len(line) == 0 {
			continue
		}
		var s script
		if err := json.Unmarshal(line, &s); err != nil {
			fatal(fmt.Errorf("line %d: %v", id+1, err))
		}
		dx.IgnoreCase = s.IC
		m := newM(int64(id))
		m.dir = *dir
		atomic.StoreInt64(&curID, int64(id))
		s.run(m)
		o.chunk(id, "replay", m)
		id++
	}
	if err := o.w.Flush(); err != nil {
		fatal(err)
	}
	fmt.Printf("chunks=%d\n", o.n)
}
