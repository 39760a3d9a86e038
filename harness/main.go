// Command vdrive runs the real pa-m/sklearn code on cases and records what it
// did, one JSON object per line, for TLC to judge against the specification.
//
//	vdrive run -area A -cases FILE -out FILE -seed N -tier T
//	vdrive child -cases FILE -from K -to K2     (internal)
//
// The driver holds no oracle: it only executes calls and writes down inputs and results.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"sync"
	"time"
)

// Obj is a JSON object.
type Obj = map[string]interface{}

// Case is one call (or one history) for the real code.
type Case struct {
	Op  string `json:"op"`
	In  Obj    `json:"in"`
	Tag string `json:"tag,omitempty"` // set on probes for listed findings
}

// Area is a family of cases: how to make them and how to run one.
type Area struct {
	Gen func(g *Gen) // adds seeded cases through g.Add
	Run map[string]func(in Obj) Obj
}

var areas = map[string]*Area{}

func register(name string, gen func(g *Gen), run map[string]func(in Obj) Obj) {
	areas[name] = &Area{Gen: gen, Run: run}
}

// CaseTimeout is how long one case may take before it is reported as not terminating.
var caseTimeout = 45 * time.Second

func runCase(a *Area, c Case) (out Obj) {
	f, ok := a.Run[c.Op]
	if !ok {
		panic("vdrive: no such op " + c.Op)
	}
	defer func() {
		if r := recover(); r != nil {
			msg := fmt.Sprint(r)
			if len(msg) > 300 {
				msg = msg[:300]
			}
			if os.Getenv("VDRIVE_STACK") != "" {
				debug.PrintStack()
			}
			out = Obj{"panic": msg}
		}
	}()
	return f(c.In)
}

func main() {
	if len(os.Args) < 2 {
		log.Fatal("usage: vdrive run|child ...")
	}
	fs := flag.NewFlagSet("vdrive", flag.ExitOnError)
	area := fs.String("area", "", "")
	casesF := fs.String("cases", "", "cases generated by TLC (ndjson), optional")
	out := fs.String("out", "", "")
	seed := fs.Int64("seed", 1, "")
	tier := fs.String("tier", "quick", "")
	from := fs.Int("from", 0, "")
	to := fs.Int("to", 0, "")
	only := fs.Bool("only", false, "run only the cases of the file, generate none")
	shards := fs.Int("shards", 4, "")
	must(fs.Parse(os.Args[2:]))
	log.SetOutput(io.Discard)
	a := areas[*area]
	if a == nil {
		fmt.Fprintln(os.Stderr, "unknown area", *area)
		os.Exit(3)
	}
	switch os.Args[1] {
	case "child":
		child(a, *casesF, *from, *to)
	case "run":
		var cases []Case
		if *casesF != "" {
			cases = append(cases, readCases(*casesF)...)
		}
		if !*only {
			g := newGen(*seed, *tier, *area)
			a.Gen(g)
			cases = append(cases, g.Cases...)
		}
		parent(*area, cases, *out, *shards)
	}
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "vdrive:", err)
		os.Exit(3)
	}
}

func readCases(f string) (cs []Case) {
	fh, err := os.Open(f)
	must(err)
	defer fh.Close()
	sc := bufio.NewScanner(fh)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		if len(bytes.TrimSpace(sc.Bytes())) == 0 {
			continue
		}
		var c Case
		d := json.NewDecoder(bytes.NewReader(sc.Bytes()))
		d.UseNumber()
		must(d.Decode(&c))
		cs = append(cs, c)
	}
	must(sc.Err())
	return
}

// child runs cases [from,to) and writes "index\tjson" lines to stdout.
func child(a *Area, f string, from, to int) {
	cs := readCases(f)
	realStdout := os.Stdout
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0) // the library prints
	w := bufio.NewWriter(realStdout)
	for k := from; k < to; k++ {
		fmt.Fprintf(w, "S %d\n", k)
		w.Flush()
		o := runCase(a, cs[k])
		b, err := json.Marshal(o)
		if err != nil {
			b, _ = json.Marshal(Obj{"panic": "unencodable output: " + err.Error()})
		}
		fmt.Fprintf(w, "R %d ", k)
		w.Write(b)
		w.WriteByte('\n')
		w.Flush()
	}
}

func parent(area string, cases []Case, out string, shards int) {
	dir, err := os.MkdirTemp(filepath.Dir(out), "vdrive")
	must(err)
	defer os.RemoveAll(dir)
	cf := filepath.Join(dir, "cases.ndjson")
	{
		fh, err := os.Create(cf)
		must(err)
		w := bufio.NewWriter(fh)
		for _, c := range cases {
			b, err := json.Marshal(c)
			must(err)
			w.Write(b)
			w.WriteByte('\n')
		}
		must(w.Flush())
		must(fh.Close())
	}
	outs := make([]json.RawMessage, len(cases))
	if shards > len(cases) {
		shards = 1
	}
	var wg sync.WaitGroup
	var infra error
	hangs := 0
	var mu sync.Mutex
	per := (len(cases) + shards - 1) / shards
	for s := 0; s < shards; s++ {
		lo, hi := s*per, (s+1)*per
		if hi > len(cases) {
			hi = len(cases)
		}
		if lo >= hi {
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			crashes := 0
			for lo < hi {
				next, err := runChild(area, cf, lo, hi, outs)
				if err != nil {
					mu.Lock()
					infra = err
					mu.Unlock()
					return
				}
				lo = next
				if lo < hi {
					crashes++
				}
				mu.Lock()
				if bytes.HasPrefix(outs[next-1], []byte(`{"hang"`)) {
					hangs++
				}
				stuck := hangs >= 4
				mu.Unlock()
				if stuck && lo < hi {
					for k := lo; k < hi; k++ {
						outs[k] = json.RawMessage(`{"hang":"not run: too many calls did not end"}`)
					}
					return
				}
				if crashes > 25 { // the verdict is clear; do not restart for ever
					for k := lo; k < hi; k++ {
						outs[k] = json.RawMessage(`{"crash":"not run: too many crashes"}`)
					}
					return
				}
			}
		}()
	}
	wg.Wait()
	must(infra)
	fh, err := os.Create(out)
	must(err)
	w := bufio.NewWriter(fh)
	for k, c := range cases {
		b, _ := json.Marshal(struct {
			Case
			Out json.RawMessage `json:"out"`
		}{c, outs[k]})
		w.Write(b)
		w.WriteByte('\n')
	}
	must(w.Flush())
	must(fh.Close())
}

// runChild runs a child over [lo,hi) and returns the first index not done.
func runChild(area, cf string, lo, hi int, outs []json.RawMessage) (int, error) {
	cmd := exec.Command(os.Args[0], "child", "-area", area, "-cases", cf, "-from", strconv.Itoa(lo), "-to", strconv.Itoa(hi))
	var stderr bytes.Buffer
	cmd.Stderr = &limitWriter{w: &stderr, n: 1 << 16}
	cmd.Env = append(os.Environ(), "GOMAXPROCS="+strconv.Itoa(runtime.NumCPU()), "GOMEMLIMIT=6GiB")
	pipe, err := cmd.StdoutPipe()
	if err != nil {
		return lo, err
	}
	if err := cmd.Start(); err != nil {
		return lo, err
	}
	cur, done := lo-1, lo
	var mu sync.Mutex
	last := time.Now()
	stop := make(chan struct{})
	hung := false
	go func() {
		for {
			select {
			case <-stop:
				return
			case <-time.After(time.Second):
			}
			mu.Lock()
			late := time.Since(last) > caseTimeout
			if late {
				hung = true
			}
			mu.Unlock()
			if late {
				cmd.Process.Kill()
				return
			}
		}
	}()
	sc := bufio.NewScanner(pipe)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		b := sc.Bytes()
		if len(b) < 2 {
			continue
		}
		mu.Lock()
		last = time.Now()
		mu.Unlock()
		switch b[0] {
		case 'S':
			cur, _ = strconv.Atoi(string(b[2:]))
		case 'R':
			sp := bytes.IndexByte(b[2:], ' ')
			k, _ := strconv.Atoi(string(b[2 : 2+sp]))
			outs[k] = append(json.RawMessage(nil), b[3+sp:]...)
			done = k + 1
		}
	}
	close(stop)
	err = cmd.Wait()
	if done >= hi {
		return hi, nil
	}
	if cur < done { // died between cases or before the first: not the code under test
		return lo, fmt.Errorf("driver child died outside a case: %v: %s", err, stderr.String())
	}
	mu.Lock()
	defer mu.Unlock()
	if hung {
		outs[cur] = json.RawMessage(`{"hang":"no result within ` + caseTimeout.String() + `"}`)
	} else {
		msg := stderr.String()
		if len(msg) > 400 {
			msg = msg[:400]
		}
		b, _ := json.Marshal(Obj{"crash": fmt.Sprint(err) + ": " + msg})
		outs[cur] = b
	}
	return cur + 1, nil
}

type limitWriter struct {
	w io.Writer
	n int
}

func (l *limitWriter) Write(p []byte) (int, error) {
	if l.n > 0 {
		q := p
		if len(q) > l.n {
			q = q[:l.n]
		}
		l.w.Write(q)
		l.n -= len(q)
	}
	return len(p), nil
}
