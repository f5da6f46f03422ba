// Command harness decides the properties of /verif/properties.jsonl by
// generated-input search: every property is a generator of cases (rapid), an
// oracle that is independent of the code under test, and a check that runs the
// real code on the case and compares.
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"strconv"
	"sync/atomic"

	"pgregory.net/rapid"
)

// B is a byte string. In JSON it is written as the inside of a quoted Go
// string, so that replay files are readable and keep every byte.
type B string

func (b B) MarshalJSON() ([]byte, error) {
	q := strconv.QuoteToASCII(string(b))
	return json.Marshal(q[1 : len(q)-1])
}

func (b *B) UnmarshalJSON(p []byte) error {
	var s string
	if err := json.Unmarshal(p, &s); err != nil {
		return err
	}
	u, err := strconv.Unquote(`"` + s + `"`)
	if err != nil {
		return err
	}
	*b = B(u)
	return nil
}

func strs(bs []B) []string {
	res := make([]string, len(bs))
	for i, b := range bs {
		res[i] = string(b)
	}
	return res
}

// Rec records what one case exercised.
type Rec struct {
	classes    []string
	nontrivial bool
	info       string
	replaying  bool
}

// Class counts the case under a label, to see what the generator produces.
func (r *Rec) Class(format string, args ...interface{}) {
	if len(args) == 0 {
		r.classes = append(r.classes, format)
		return
	}
	r.classes = append(r.classes, fmt.Sprintf(format, args...))
}

// ClassIf counts the case under a label if the condition holds.
func (r *Rec) ClassIf(cond bool, label string) {
	if cond {
		r.classes = append(r.classes, label)
	}
}

// NonTrivial marks the case as one in which the property had something to say.
func (r *Rec) NonTrivial(cond bool) {
	if cond {
		r.nontrivial = true
	}
}

// Prop is a property with its generator and its check.
type Prop struct {
	ID       string
	Rule     string // how cases are made and what makes one non-trivial
	Assume   []string
	Quick    int // cases, all workers together
	Thorough int
	Race     bool // the deciding build has the race detector on
	gen      func(*rapid.T) interface{}
	decode   func([]byte) (interface{}, error)
	check    func(interface{}, *Rec) error
	known    func(error) string
}

var props = map[string]*Prop{}

func register[C any](p Prop, gen func(*rapid.T) C, check func(C, *Rec) error) {
	p.gen = func(t *rapid.T) interface{} { return gen(t) }
	p.decode = func(data []byte) (interface{}, error) {
		var c C
		err := json.Unmarshal(data, &c)
		return c, err
	}
	p.check = func(c interface{}, r *Rec) error { return check(c.(C), r) }
	if props[p.ID] != nil {
		panic("duplicate property " + p.ID)
	}
	props[p.ID] = &p
}

// finding is a violation that is listed in KNOWN_FINDINGS.txt under its key.
type finding struct {
	key string
	err error
}

func (f *finding) Error() string { return f.key + ": " + f.err.Error() }

// harnessError is a fault of the harness or of its environment, never a
// violation.
type harnessError struct{ err error }

func (h *harnessError) Error() string { return "harness: " + h.err.Error() }

func herr(err error) {
	if err != nil {
		panic(&harnessError{err})
	}
}

// runCase runs the check on a case. A panic of the code under test is a
// violation of every property: nothing of what is generated may panic.
func (p *Prop) runCase(c interface{}, rec *Rec) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(*harnessError); ok {
				err = h
				return
			}
			if e, ok := r.(error); ok && isHarnessPanic(e) {
				err = &harnessError{e}
				return
			}
			err = fmt.Errorf("panic: %v\n%s", r, shortStack())
		}
	}()
	return p.check(c, rec)
}

func isHarnessPanic(err error) bool {
	var h *harnessError
	return errors.As(err, &h)
}

func shortStack() string {
	s := string(debug.Stack())
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

func hash64(p []byte) uint64 {
	h := fnv.New64a()
	h.Write(p)
	return h.Sum64()
}

// progress of the running case, read by the watchdog
var caseNumber int64
var caseRunning int64

func beginCase() { atomic.AddInt64(&caseNumber, 1); atomic.StoreInt64(&caseRunning, 1) }
func endCase()   { atomic.StoreInt64(&caseRunning, 0) }

func fatalf(code int, format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, format+"\n", args...)
	os.Exit(code)
}

// give hands the things over as a host may: all at once (how is 0), or in groups
// of that many, in a slice that the host uses for something else afterwards.
func give[V any](how int, put func(...V), vs []V) {
	if how <= 0 || how > len(vs) {
		how = len(vs)
	}
	for len(vs) > 0 {
		n := min(how, len(vs))
		s := append(make([]V, 0, n+2), vs[:n]...)
		put(s...)
		clear(s[:cap(s)])
		vs = vs[n:]
	}
}
