package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/sirupsen/logrus"
	"pgregory.net/rapid"
)

// Exit codes of a worker: 0 held, 10 violated, 11 the running case hung, 12 the
// running case used too much memory; anything else is a fault of the harness or
// a fatal error of the Go runtime, in which case the current-case file tells
// which case it was.
const (
	exitHeld      = 0
	exitViolation = 10
	exitHang      = 11
	exitMemory    = 12
	exitHarness   = 20
)

const (
	cpuLimit  = 20 * time.Second  // processor time of one case
	wallLimit = 240 * time.Second // a case that uses no processor time is stuck
	memLimit  = 3 << 30
)

type stats struct {
	Property   string            `json:"property"`
	Cases      int               `json:"cases"`
	Nontrivial int               `json:"nontrivial"`
	Hashes     []uint64          `json:"hashes"`
	Classes    map[string]int    `json:"classes"`
	Samples    []json.RawMessage `json:"samples"`
	Known      map[string]int    `json:"known"`
	Violation  string            `json:"violation,omitempty"`
	Replay     string            `json:"replay,omitempty"`
	Seconds    float64           `json:"seconds"`
}

type replayFile struct {
	Property string          `json:"property"`
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
}

func main() {
	logrus.SetOutput(io.Discard)
	debug.SetMaxStack(256 << 20)
	if len(os.Args) < 2 {
		fatalf(exitHarness, "usage: harness run|replay|list|sample ...")
	}
	if f := os.Getenv("VERIF_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	switch os.Args[1] {
	case "run":
		run(os.Args[2:])
	case "replay":
		replay(os.Args[2:])
	case "sample":
		sample(os.Args[2:])
	case "list":
		var out []map[string]interface{}
		for _, id := range propIDs() {
			p := props[id]
			out = append(out, map[string]interface{}{"id": id, "rule": p.Rule, "quick": p.Quick, "thorough": p.Thorough, "race": p.Race, "assume": p.Assume})
		}
		json.NewEncoder(os.Stdout).Encode(out)
	default:
		fatalf(exitHarness, "unknown command %s", os.Args[1])
	}
}

func propIDs() []string {
	var ids []string
	for id := range props {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

// tb is what rapid reports to.
type tb struct {
	name   string
	failed bool
	logs   []string
}

type failNow struct{}

func (t *tb) Helper()                           {}
func (t *tb) Name() string                      { return t.name }
func (t *tb) Logf(f string, a ...interface{})   { t.logs = append(t.logs, fmt.Sprintf(f, a...)) }
func (t *tb) Log(a ...interface{})              { t.logs = append(t.logs, fmt.Sprint(a...)) }
func (t *tb) Skipf(f string, a ...interface{})  { panic("skip") }
func (t *tb) Skip(a ...interface{})             { panic("skip") }
func (t *tb) SkipNow()                          { panic("skip") }
func (t *tb) Errorf(f string, a ...interface{}) { t.failed = true; t.Logf(f, a...) }
func (t *tb) Error(a ...interface{})            { t.failed = true; t.Log(a...) }
func (t *tb) Fatalf(f string, a ...interface{}) { t.Errorf(f, a...); panic(failNow{}) }
func (t *tb) Fatal(a ...interface{})            { t.Error(a...); panic(failNow{}) }
func (t *tb) FailNow()                          { t.failed = true; panic(failNow{}) }
func (t *tb) Fail()                             { t.failed = true }
func (t *tb) Failed() bool                      { return t.failed }

func run(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	id := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	cases := fs.Int("cases", 100, "")
	out := fs.String("out", "", "")
	current := fs.String("current", "", "file that holds the running case")
	replayPath := fs.String("replay", "", "where to write a failing case")
	shrink := fs.Duration("shrink", 20*time.Second, "")
	known := fs.String("known", "", "keys of the known findings")
	deadline := fs.Duration("deadline", time.Hour, "no new cases after this time")
	fs.Parse(args)
	listed := map[string]bool{}
	for _, k := range strings.Split(*known, ",") {
		listed[k] = true
	}
	p := props[*id]
	if p == nil {
		fatalf(exitHarness, "no property %q", *id)
	}
	cur, err := os.OpenFile(*current, os.O_CREATE|os.O_RDWR, 0600)
	if err != nil {
		fatalf(exitHarness, "%v", err)
	}
	testing.Init() // rapid asks package testing for its flags
	herr(flag.CommandLine.Parse(nil))
	setFlag("rapid.checks", strconv.Itoa(*cases))
	setFlag("rapid.seed", strconv.FormatUint(*seed, 10))
	setFlag("rapid.nofailfile", "true")
	setFlag("rapid.shrinktime", shrink.String())
	go watchdog()

	st := &stats{Property: p.ID, Classes: map[string]int{}, Known: map[string]int{}}
	hashes := map[uint64]struct{}{}
	var lastFail []byte
	var lastErr error
	var harnessErr error
	start := time.Now()
	t := &tb{name: p.ID}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(failNow); !ok {
					panic(r)
				}
			}
		}()
		rapid.Check(t, func(rt *rapid.T) {
			if lastErr == nil && time.Since(start) > *deadline {
				return
			}
			c := p.gen(rt)
			data, err := json.Marshal(c)
			if err != nil {
				harnessErr = err
				rt.Fatalf("stop")
			}
			writeCurrent(cur, data)
			// the check sees what a replay would see
			c2, err := p.decode(data)
			if err != nil {
				harnessErr = err
				rt.Fatalf("stop")
			}
			rec := &Rec{}
			beginCase()
			err = p.runCase(c2, rec)
			endCase()
			if lastErr == nil {
				st.Cases++
				if rec.nontrivial {
					st.Nontrivial++
					hashes[hash64(data)] = struct{}{}
				}
				for _, cl := range rec.classes {
					st.Classes[cl]++
				}
				if rec.nontrivial && len(st.Samples) < 3 && len(data) < 4000 {
					st.Samples = append(st.Samples, append([]byte(nil), data...))
				}
			}
			if f, ok := err.(*finding); ok && listed[f.key] {
				st.Known[f.key]++
				err = nil
			}
			if h, ok := err.(*harnessError); ok {
				harnessErr = h
				rt.Fatalf("stop")
			}
			if err != nil {
				lastErr = err
				lastFail = append([]byte(nil), data...)
				rt.Fatalf("property violated")
			}
		})
	}()
	st.Seconds = time.Since(start).Seconds()
	for h := range hashes {
		st.Hashes = append(st.Hashes, h)
	}
	code := exitHeld
	switch {
	case harnessErr != nil:
		fatalf(exitHarness, "%s: %v", p.ID, harnessErr)
	case lastErr != nil:
		st.Violation = lastErr.Error()
		st.Replay = *replayPath
		herr(writeReplay(*replayPath, p.ID, lastErr.Error(), lastFail))
		code = exitViolation
	case t.failed:
		fatalf(exitHarness, "%s: rapid: %v", p.ID, t.logs)
	}
	data, err := json.Marshal(st)
	herr(err)
	herr(os.WriteFile(*out, data, 0600))
	cur.Close()
	pprof.StopCPUProfile()
	os.Exit(code)
}

func writeCurrent(f *os.File, data []byte) {
	var head [8]byte
	n := len(data)
	for i := range head {
		head[i] = byte(n >> (8 * uint(i)))
	}
	f.WriteAt(append(head[:], data...), 0)
}

func setFlag(name, val string) {
	if err := flag.CommandLine.Set(name, val); err != nil {
		fatalf(exitHarness, "%v", err)
	}
}

func writeReplay(path, id, msg string, c []byte) error {
	if err := os.MkdirAll(filepath.Dir(path), 0755); err != nil {
		return err
	}
	data, err := json.MarshalIndent(replayFile{id, msg, c}, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(data, '\n'), 0644)
}

// replay runs a saved case. What depends on chance inside the code under test
// (map order, scheduling) gets many tries.
func replay(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	n := fs.Int("n", 300, "tries")
	fs.Parse(args)
	data, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fatalf(exitHarness, "%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(data, &rf); err != nil {
		fatalf(exitHarness, "%v", err)
	}
	p := props[rf.Property]
	if p == nil {
		fatalf(exitHarness, "no property %q", rf.Property)
	}
	go watchdog()
	deadline := time.Now().Add(60 * time.Second)
	for i := 0; i < *n && (i == 0 || time.Now().Before(deadline)); i++ {
		c, err := p.decode(rf.Case)
		if err != nil {
			fatalf(exitHarness, "%v", err)
		}
		beginCase()
		err = p.runCase(c, &Rec{replaying: true})
		endCase()
		switch e := err.(type) {
		case nil:
		case *finding:
			fmt.Printf("known finding %s\n", e.Error())
			os.Exit(exitHeld)
		case *harnessError:
			fatalf(exitHarness, "%v", e)
		default:
			fmt.Printf("violated on try %d: %v\n", i+1, err)
			os.Exit(exitViolation)
		}
	}
	fmt.Println("held")
}

func sample(args []string) {
	fs := flag.NewFlagSet("sample", flag.ExitOnError)
	id := fs.String("prop", "", "")
	seed := fs.Int("seed", 1, "")
	n := fs.Int("n", 5, "")
	fs.Parse(args)
	p := props[*id]
	g := rapid.Custom(func(t *rapid.T) interface{} { return p.gen(t) })
	for i := 0; i < *n; i++ {
		data, err := json.Marshal(g.Example(*seed + i))
		herr(err)
		fmt.Println(string(data))
	}
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// watchdog ends the process when one case takes too much processor time or
// memory, or is stuck.
func watchdog() {
	var last int64 = -1
	var cpu0 time.Duration
	var t0 time.Time
	for {
		time.Sleep(200 * time.Millisecond)
		if atomic.LoadInt64(&caseRunning) == 0 {
			last = -1
			continue
		}
		if n := atomic.LoadInt64(&caseNumber); n != last {
			last, cpu0, t0 = n, cpuTime(), time.Now()
			continue
		}
		used := cpuTime() - cpu0
		if used > cpuLimit || time.Since(t0) > wallLimit {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			fatalf(exitHang, "case does not end: %v processor time, %v\n%s", used, time.Since(t0), buf)
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > memLimit {
			fatalf(exitMemory, "case uses %d bytes of memory", ms.HeapAlloc)
		}
	}
}
