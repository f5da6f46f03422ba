package main

// Bodies: limits, fidelity, temporary files, what cannot be parsed.

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math"
	"os"
	"path/filepath"
	"strings"

	ms "github.com/senghoo/modsecurity-go/modsecurity"
	"github.com/senghoo/modsecurity-go/modsecurity/operators"
	"pgregory.net/rapid"
)

// Body is a body made from few numbers, so that large ones are cheap to draw.
type Body struct {
	Unit B   `json:"unit"`
	N    int `json:"n"` // bytes
}

func (b Body) String() string {
	if b.N == 0 {
		return ""
	}
	u := string(b.Unit)
	if u == "" {
		u = "x"
	}
	return strings.Repeat(u, b.N/len(u)+1)[:b.N]
}

// ---- C19: bodies beyond a limit

type LimitRule struct {
	Stage int    `json:"stage"`
	Var   string `json:"var"`            // "" for a rule that looks at no body and always fires
	Also  bool   `json:"also,omitempty"` // and at something else, which matches
	Neg   bool   `json:"neg,omitempty"`
	Chain bool   `json:"chain,omitempty"` // the body is looked at by the second link
	Cnt   bool   `json:"cnt,omitempty"`
}

type LimitCase struct {
	Mode    int         `json:"mode"`
	Mem     int64       `json:"mem"`
	Limit   int64       `json:"limit"`
	ResLim  int64       `json:"reslim"`
	Access  bool        `json:"access"`
	Multi   int         `json:"multi"`          // a multipart body of that many parts
	Part    int         `json:"part,omitempty"` // the size of the first of them
	Method  string      `json:"method"`
	Chunks  []Body      `json:"chunks"`
	ResBody []Body      `json:"resbody"`
	Rules   []LimitRule `json:"rules"`
	Results bool        `json:"results"` // collected after every stage
}

// what Go's multipart reader takes: more parts, or more in them than that
// beyond what is kept in memory, are not parsed
const (
	goMaxParts = 1000
	goMaxExtra = 10 << 20
)

func (c *LimitCase) multipart() string {
	var sb strings.Builder
	for i := 0; i < c.Multi; i++ {
		fmt.Fprintf(&sb, "--b\r\nContent-Disposition: form-data; name=\"n%d\"\r\n\r\nv%d", i, i)
		if i == 0 {
			sb.WriteString(strings.Repeat("v", c.Part))
		}
		sb.WriteString("\r\n")
	}
	sb.WriteString("--b--\r\n")
	return sb.String()
}

func checkLimits(c *LimitCase, rec *Rec) error {
	e := ms.NewEngine()
	e.TmpPath = scratch()
	e.RequestBodyInMem, e.RequestBody, e.ResponseBody = c.Mem, c.Limit, c.ResLim
	e.RequestBodyAccess, e.ResponseBodyAccess = c.Access, c.Access
	switch c.Mode {
	case modeOn:
		e.Enable(ms.StatusOn)
	case modeOff:
		e.Enable(ms.StatusOff)
	case modeDetect:
		e.Enable(ms.StatusDect)
	}
	for i, r := range c.Rules {
		first := ms.NewSecRule()
		first.Phase = r.Stage
		first.AppendVariables(&constVar{vals: []string{"x"}})
		op, err := operators.NewOperatorRx("")
		herr(err)
		first.SetOperator(op)
		if r.Var != "" {
			look := first
			if r.Chain {
				look = ms.NewSecRule()
				look.SetOperator(op)
				first.AppendSubRules(look)
			}
			look.Variables = nil
			v := newVariable[r.Var]()
			if r.Cnt {
				v = countOf(v)
			}
			look.AppendVariables(v)
			if r.Also {
				look.AppendVariables(&constVar{vals: []string{"x"}})
			}
			if r.Neg {
				op, err := operators.NewOperatorRx("nothing has this")
				herr(err)
				look.SetOperator(op)
				look.Not = true
			}
		}
		first.AppendActions(&probe{2, fmt.Sprintf("r%d", i)})
		e.AddSecRule(first)
	}
	tr, err := e.NewTransaction()
	if err != nil {
		return err
	}
	defer closeTx(tr)
	tc := &trace{}
	tr.Data[traceKey] = tc

	// the model
	body, resBody := "", ""
	abort, said, heard := false, false, false
	var want []string
	stageRuns := func(stage int) {
		for i, r := range c.Rules {
			if r.Stage != stage || abort || c.Mode == modeOff {
				continue
			}
			fires := r.Var == "" || r.Also || r.Cnt
			if r.Var == "RESPONSE_BODY" {
				fires = fires || c.Access && stage >= 5 && resBody != ""
			} else if r.Var != "" {
				ct := "urlencoded"
				if c.Multi > 0 {
					ct = "multipart"
				}
				inspected := c.Access && stage >= 3 && body != "" && (c.Method == "POST" || c.Method == "PUT" || c.Method == "PATCH")
				if inspected && r.Var == "REQUEST_BODY" && ct == "multipart" {
					inspected = false
				}
				over := inspected && (ct == "urlencoded" && int64(len(body)) > max(c.Mem, 0) || ct == "multipart" && (c.Multi > goMaxParts || int64(c.Part) > c.Mem+goMaxExtra))
				rec.ClassIf(over && c.Part > 0, "inspected beyond the limit, a large part")
				said = said || over
				rec.ClassIf(over, "inspected beyond the limit")
				rec.ClassIf(inspected && !over && int64(len(body)) == c.Mem, "exactly at the limit")
				rec.NonTrivial(over || inspected && int64(len(body)) == c.Mem)
				switch {
				case over && c.Mode != modeDetect:
					abort = true
					fires = false
				case over:
				case inspected:
					fires = true
				}
			}
			if fires {
				want = append(want, fmt.Sprintf("stage%d:r%d", stage, i))
			}
		}
	}
	check := func(after string) error {
		if fmt.Sprint(tc.events) != fmt.Sprint(want) {
			return fmt.Errorf("after %s: fired %v, want %v", after, tc.events, want)
		}
		if !c.Results && after != "log" {
			return nil
		}
		for k := 0; k < 2; k++ {
			i := tr.Result()
			if i.Disruptive != abort || abort && i.Status != 413 || !abort && i.Status != 200 {
				return fmt.Errorf("after %s: result is %+v, want interception %v", after, i, abort)
			}
			heard = heard || len(i.Log) > 0
			if heard != said {
				return fmt.Errorf("after %s: result is %+v: a body beyond the limit was looked at: %v, but the log says so: %v", after, i, said, heard)
			}
		}
		return nil
	}
	appendTo := func(side string, add func([]byte) error, size func() int64, content *string, limit int64, chunks []Body) error {
		for _, ch := range chunks {
			s := ch.String()
			err := add([]byte(s))
			if fits := int64(len(*content)+len(s)) <= limit; fits != (err == nil) {
				return fmt.Errorf("%s body of %d bytes, limit %d: %d more bytes: error %v", side, len(*content), limit, len(s), err)
			}
			if err == nil {
				*content += s
			} else {
				rec.Class(side + " body refused")
				rec.NonTrivial(true)
			}
			if n := size(); n != int64(len(*content)) {
				return fmt.Errorf("%s body is %d bytes, want %d", side, n, len(*content))
			}
		}
		return nil
	}
	tr.ProcessConnection("192.0.2.1", "1", "192.0.2.2", "80")
	stageRuns(1)
	if err := check("conn"); err != nil {
		return err
	}
	tr.ProcessRequestURL((&Tx{Path: "/"}).url(), c.Method, "HTTP/1.1")
	ct := "application/x-www-form-urlencoded"
	chunks := c.Chunks
	if c.Multi > 0 {
		ct = "multipart/form-data; boundary=b"
		s := c.multipart()
		chunks = []Body{{B(s), len(s)}}
	}
	tr.ProcessRequestHeader(map[string][]string{"Content-Type": {ct}})
	stageRuns(2)
	if err := check("reqhdr"); err != nil {
		return err
	}
	if err := appendTo("request", tr.AppendRequestBody, tr.Request.Body.Len, &body, c.Limit, chunks); err != nil {
		return err
	}
	tr.ProcessRequestBody()
	stageRuns(3)
	if err := check("reqbody"); err != nil {
		return err
	}
	tr.ProcessResponseHeaders(200, "HTTP/1.1", nil)
	stageRuns(4)
	if err := check("reshdr"); err != nil {
		return err
	}
	if err := appendTo("response", tr.AppendResponseBody, tr.Response.Body.Len, &resBody, c.ResLim, c.ResBody); err != nil {
		return err
	}
	tr.ProcessResponseBody()
	stageRuns(5)
	if err := check("resbody"); err != nil {
		return err
	}
	tr.ProcessLogging()
	stageRuns(6)
	if err := check("log"); err != nil {
		return err
	}
	// the accepted body is there whatever was refused or intercepted
	for _, b := range []struct {
		side string
		r    interface {
			io.Reader
			io.Seeker
		}
		want string
	}{{"request", tr.Request.Body, body}, {"response", tr.Response.Body, resBody}} {
		if _, err := b.r.Seek(0, io.SeekStart); err != nil {
			return err
		}
		got, err := io.ReadAll(b.r)
		if err != nil || string(got) != b.want {
			return fmt.Errorf("%s body has %d bytes that are %s what was accepted (%d bytes): %v", b.side, len(got), map[bool]string{true: "", false: "not"}[string(got) == b.want], len(b.want), err)
		}
	}
	return nil
}

// oddLimits are limits that a host has no reason to set.
func oddLimits(t *rapid.T, mem, limit *int64) {
	if !chance(t, 1, 50) {
		return
	}
	odd := func(old int64) int64 {
		return pick(t, old, -1, -1, -2, -1000, math.MinInt64, math.MaxInt64, math.MaxInt64-1, math.MaxInt32)
	}
	*mem, *limit = odd(*mem), odd(*limit)
}

func genLimits(t *rapid.T) *LimitCase {
	c := &LimitCase{Mode: pick(t, modeOn, modeOn, modeOn, modeUnset, modeDetect, modeDetect, modeOff), Access: !chance(t, 1, 8), Results: rapid.Bool().Draw(t, "results")}
	c.Method = pick(t, "POST", "POST", "PUT", "PATCH", "POST", "GET")
	c.Mem = int64(pick(t, bigSize(t, 70000), intn(t, 0, 40), intn(t, 0, 40)))
	if chance(t, 1, 100) {
		c.Mem = int64(pick(t, huge...))
	}
	c.Limit = pick(t, c.Mem, c.Mem+1, c.Mem*2, c.Mem+int64(intn(t, 0, 100)), 134217728, c.Mem/2)
	if chance(t, 1, 12) {
		c.Multi = pick(t, 1, 5, 100, 999, 1000, 1001, 1002, 1500)
		c.Limit = 134217728
		if c.Multi <= 5 && chance(t, 1, 10) {
			c.Mem = int64(pick(t, 0, 100, 1<<20))
			c.Part = int(c.Mem) + goMaxExtra + pick(t, 1, 1000, 1<<20, -100000)
		}
	}
	if c.Multi == 0 {
		oddLimits(t, &c.Mem, &c.Limit)
	}
	near := func(n int64) int {
		n = max(n, -100)
		v := n + int64(pick(t, 0, 0, 1, 1, -1, 2, intn(t, -20, 60)))
		if v < 0 {
			v = 0
		}
		return int(v)
	}
	unit := func() B {
		return B(pick(t, "a=b&", "x", "ab&", "a=%41&", "\x00", "=", "é=1&"))
	}
	split := func(total int) []Body {
		if total == 0 && chance(t, 1, 2) {
			return nil
		}
		var res []Body
		for n := intn(t, 0, 3); n > 0 && total > 0; n-- {
			k := pick(t, intn(t, 0, total), 1, total/2)
			if k > total {
				k = total
			}
			res = append(res, Body{unit(), k})
			total -= k
		}
		res = append(res, Body{unit(), total})
		if chance(t, 1, 5) {
			res = append(res, Body{unit(), intn(t, 0, 3)})
		}
		return res
	}
	c.Chunks = split(near(pick(t, min(c.Mem, 1<<21), min(c.Mem, 1<<21), c.Limit%(1<<20))))
	c.ResLim = int64(pick(t, intn(t, 0, 30), bigSize(t, 10000)))
	if chance(t, 1, 200) {
		c.ResLim = int64(pick(t, huge...))
	}
	c.ResBody = split(near(c.ResLim))
	for n := count(t, 1, 5, 15); n > 0; n-- {
		r := LimitRule{Stage: pick(t, 3, 3, 3, 3, 4, 5, 6, 2, 1)}
		switch k := intn(t, 0, 9); {
		case k < 3:
		case k == 3:
			r.Var = "RESPONSE_BODY"
		default:
			r.Var = pick(t, "ARGS_POST", "REQUEST_BODY", "ARGS", "ARGS_POST_NAMES", "ARGS_NAMES")
		}
		if r.Var != "" {
			r.Also = chance(t, 1, 4)
			r.Neg = chance(t, 1, 4)
			r.Chain = chance(t, 1, 4)
			if r.Var != "RESPONSE_BODY" {
				r.Cnt = chance(t, 1, 6)
			}
		}
		c.Rules = append(c.Rules, r)
	}
	// a body of nothing but separators has no parameters
	for _, ch := range c.Chunks {
		for i, s := 0, ch.String(); i < len(s) && c.Multi == 0; i++ {
			if s[i] != '&' {
				return c
			}
		}
	}
	if c.Multi == 0 {
		c.Chunks = nil
	}
	return c
}

// ---- C20: the body is what was appended

type BufOp struct {
	K string `json:"k"`
	S B      `json:"s,omitempty"`
	N int    `json:"n,omitempty"`
	W int    `json:"w,omitempty"`
}

type BufCase struct {
	Mem   int64   `json:"mem"`
	Limit int64   `json:"limit"`
	Res   bool    `json:"res"` // the response body
	Ops   []BufOp `json:"ops"`
}

type bodyBuffer interface {
	io.ReadWriteSeeker
	io.WriterTo
	io.Closer
	String() (string, error)
	Bytes() ([]byte, error)
	Len() int64
}

type shortWriter struct {
	left int
	got  []byte
}

func (w *shortWriter) Write(p []byte) (int, error) {
	n := len(p)
	if n > w.left {
		n = w.left
	}
	w.got = append(w.got, p[:n]...)
	w.left -= n
	if n < len(p) {
		return n, errInjected
	}
	return n, nil
}

func checkBuffer(c *BufCase, rec *Rec) error {
	dir := filepath.Join(scratch(), "c20")
	herr(os.RemoveAll(dir))
	herr(os.MkdirAll(dir, 0700))
	e := ms.NewEngine()
	e.TmpPath = dir
	e.RequestBodyInMem, e.RequestBody, e.ResponseBody = c.Mem, c.Limit, c.Limit
	tr, err := e.NewTransaction()
	if err != nil {
		return err
	}
	var b bodyBuffer = tr.Request.Body
	add := tr.AppendRequestBody
	mem := c.Mem
	if c.Res {
		b, add, mem = tr.Response.Body, tr.AppendResponseBody, c.Limit
	}
	mem = max(mem, 0) // nothing is less than nothing
	rec.ClassIf(c.Mem < 0 || c.Limit < 0, "a limit below zero")
	var content string
	var pos int64
	reading, gone, appends := false, false, 0
	disk := int64(-1)
	defer fileLimit(-1)
	spilled := func() bool { return int64(len(content)) > mem }
	rest := func() string {
		if pos >= int64(len(content)) {
			return ""
		}
		return content[pos:]
	}
	for i, op := range c.Ops {
		fail := func(f string, a ...interface{}) error {
			return fmt.Errorf("operation %d, %s(%d, %d bytes), body of %d bytes, position %d: %s", i, op.K, op.N, len(op.S), len(content), pos, fmt.Sprintf(f, a...))
		}
		switch op.K {
		case "append", "write":
			p := []byte(op.S)
			var err error
			n := len(p)
			if op.K == "append" {
				err = add(p)
			} else {
				n, err = b.Write(p)
			}
			for j := range p {
				p[j] = '#'
			}
			room := int64(len(content)+len(p)) <= c.Limit
			spills := !spilled() && int64(len(content)+len(p)) > mem
			if err != nil && op.K == "write" && n != 0 {
				return fail("refused, but %d bytes are said to be written", n)
			}
			switch {
			case len(p) == 0:
			case reading && err == nil:
				return fail("accepted after the body was read")
			case reading, !room:
				if err == nil {
					return fail("accepted beyond the limit")
				}
			case spills && gone:
				if err == nil {
					return fail("accepted though there is nowhere to put it")
				}
				rec.Class("spill failed")
			case (spilled() || spills) && disk >= 0 && int64(len(content)+len(p)) > disk:
				if err == nil {
					return fail("accepted though the disk is full")
				}
				rec.Class("disk full")
				rec.ClassIf(!spilled(), "disk full when it spills")
			case err != nil:
				return fail("not accepted: %v", err)
			case n != len(p):
				return fail("%d bytes accepted", n)
			default:
				content += string(op.S)
				appends++
				if spills {
					rec.Class("spilled")
				}
			}
		case "rmdir":
			if !spilled() { // the next spill finds no directory
				herr(os.RemoveAll(dir))
				gone = true
			}
		case "mkdir":
			herr(os.MkdirAll(dir, 0700))
			gone = false
		case "full": // no file may grow beyond op.N bytes
			disk = int64(op.N)
			herr(fileLimit(op.N))
		case "room":
			disk = -1
			herr(fileLimit(-1))
		case "read":
			reading = true
			p := make([]byte, op.N)
			n, err := b.Read(p)
			r := rest()
			if n < 0 || n > len(p) || n > len(r) || string(p[:n]) != r[:n] {
				return fail("read %d bytes that are not the body", n)
			}
			switch {
			case r == "" && err != io.EOF:
				return fail("at the end: error %v", err)
			case r != "" && n == 0 && len(p) > 0:
				return fail("nothing read before the end: %v", err)
			case err != nil && err != io.EOF, err == io.EOF && n < len(r):
				return fail("error %v after %d bytes of %d", err, n, len(r))
			}
			pos += int64(n)
		case "all":
			reading = true
			got, err := io.ReadAll(b)
			if err != nil || string(got) != rest() {
				return fail("read %d bytes, want %d, error %v", len(got), len(rest()), err)
			}
			pos += int64(len(got))
			rec.NonTrivial(len(got) > 0 && appends > 1)
		case "writeto":
			reading = true
			w := &shortWriter{left: 1 << 40}
			n, err := b.WriteTo(w)
			if err != nil || n != int64(len(w.got)) || string(w.got) != rest() {
				return fail("wrote %d bytes, %d arrived, want %d, error %v", n, len(w.got), len(rest()), err)
			}
			pos += n
			rec.NonTrivial(len(w.got) > 0 && appends > 1)
		case "writefail":
			reading = true
			w := &shortWriter{left: op.N}
			_, err := b.WriteTo(w)
			r := rest()
			if !strings.HasPrefix(r, string(w.got)) {
				return fail("what arrived is not the body")
			}
			if len(r) > op.N && !errors.Is(err, errInjected) {
				return fail("failure of the writer not reported: %v", err)
			}
			if len(r) <= op.N && (err != nil || string(w.got) != r) {
				return fail("%d bytes arrived, want %d, error %v", len(w.got), len(r), err)
			}
			pos, err = b.Seek(0, io.SeekStart)
			if err != nil || pos != 0 {
				return fail("back to the start: %d, %v", pos, err)
			}
		case "seek":
			if op.N > 1<<40 || op.N < -1<<40 {
				continue // beyond what a file system can address
			}
			reading = true
			base := map[int]int64{io.SeekStart: 0, io.SeekCurrent: pos, io.SeekEnd: int64(len(content))}
			want := base[op.W] + int64(op.N)
			got, err := b.Seek(int64(op.N), op.W)
			switch {
			case want < 0 && err == nil:
				return fail("position %d", got)
			case want >= 0 && (err != nil || got != want):
				return fail("position %d, want %d, error %v", got, want, err)
			case want >= 0:
				pos = want
			}
		case "string", "bytes":
			reading = true
			var got string
			var err error
			if op.K == "string" {
				got, err = b.String()
			} else {
				var p []byte
				p, err = b.Bytes()
				got = string(p)
			}
			if spilled() {
				if err == nil {
					return fail("no error though the body is not in memory")
				}
				if !strings.HasPrefix(content, got) {
					return fail("not the beginning of the body")
				}
			} else if err != nil || got != content {
				return fail("%d bytes, error %v", len(got), err)
			}
			rec.NonTrivial(appends > 1)
		}
		if n := b.Len(); n != int64(len(content)) {
			return fmt.Errorf("after operation %d, %s of %d bytes: length %d, want %d", i, op.K, len(op.S), n, len(content))
		}
	}
	// a last look at the whole
	if n, err := b.Seek(0, io.SeekStart); n != 0 || err != nil {
		return fmt.Errorf("to the start: %d, %v", n, err)
	}
	if got, err := io.ReadAll(b); err != nil || string(got) != content {
		return fmt.Errorf("the body of %d bytes is read as %d bytes, error %v", len(content), len(got), err)
	}
	rec.ClassIf(spilled(), "in a file")
	rec.ClassIf(!spilled(), "in memory")
	if err := b.Close(); err != nil {
		return fmt.Errorf("close: %v", err)
	}
	return nil
}

func genBuffer(t *rapid.T) *BufCase {
	c := &BufCase{Mem: int64(pick(t, intn(t, 0, 12), intn(t, 0, 60), bigSize(t, 40000))), Res: chance(t, 1, 4)}
	if chance(t, 1, 200) {
		c.Mem = int64(pick(t, huge...))
	}
	c.Limit = c.Mem + int64(pick(t, 0, intn(t, 0, 60), bigSize(t, 70000), bigSize(t, 70000), 1<<30, 1<<30))
	oddLimits(t, &c.Mem, &c.Limit)
	big := c.Mem > 500
	appendOp := func() BufOp {
		op := BufOp{K: pick(t, "append", "append", "write")}
		s := rawBytes(t, 12)
		if big && chance(t, 1, 2) || chance(t, 1, 30) {
			n := bigSize(t, 40000)
			if chance(t, 1, 200) || c.Mem > 90000 && chance(t, 1, 4) {
				n = pick(t, huge...)
			}
			if s == "" {
				s = "0123456789"
			}
			s = strings.Repeat(s, n/len(s)+1)[:n]
			if len(s) > 3 { // so that places can be told apart
				s = s[:len(s)-2] + string([]byte{byte(n), byte(n >> 8)})
			}
		}
		op.S = B(s)
		return op
	}
	least := pick(t, 0, 1, 2, 2)
	faults := chance(t, 1, 5)
	for n := many(t, least, 6, 60, 700); n > 0; n-- {
		if faults && chance(t, 1, 2) {
			c.Ops = append(c.Ops, BufOp{K: "full", N: pick(t, 0, intn(t, 0, 60), int(max(c.Mem, 0)&(1<<30-1)), int(max(c.Mem, 0)&(1<<30-1))+intn(t, 0, 30), bigSize(t, 70000))})
		}
		c.Ops = append(c.Ops, appendOp())
		if faults && chance(t, 1, 2) {
			c.Ops = append(c.Ops, BufOp{K: "room"})
		}
		if chance(t, 1, 15) {
			c.Ops = append(c.Ops, BufOp{K: pick(t, "rmdir", "mkdir")})
		}
	}
	for n := many(t, least/2, 6, 40, 400); n > 0; n-- {
		switch intn(t, 0, 8) {
		case 0, 1:
			c.Ops = append(c.Ops, BufOp{K: "read", N: pick(t, 1, 2, 3, 7, intn(t, 1, 100), bigSize(t, 70000)+1, pick(t, huge...))})
		case 2:
			c.Ops = append(c.Ops, BufOp{K: "all"})
		case 3:
			c.Ops = append(c.Ops, BufOp{K: "writeto"})
		case 4, 5:
			c.Ops = append(c.Ops, BufOp{K: "seek", N: pick(t, 0, 0, 1, -1, intn(t, -30, 30), intn(t, 0, 80000), int(c.Mem)+intn(t, -2, 2), pick(t, huge...)), W: intn(t, 0, 2)})
		case 6:
			c.Ops = append(c.Ops, BufOp{K: pick(t, "string", "bytes")})
		case 7:
			c.Ops = append(c.Ops, BufOp{K: "writefail", N: pick(t, 0, 1, intn(t, 0, 40), bigSize(t, 50000))})
		default:
			c.Ops = append(c.Ops, appendOp())
		}
	}
	return c
}

// ---- C21: temporary files

type TmpCase struct {
	Txs     []*Tx    `json:"txs"`
	Steps   [][]int  `json:"steps"` // for each transaction, which of its steps are taken
	Deny    int      `json:"deny"`  // the stage that denies, 0 for none
	Big     int      `json:"big"`   // bytes of a file part added
	Cut     int      `json:"cut"`   // bytes cut from the end of the bodies
	NewDir  bool     `json:"newdir"`
	NoDir   bool     `json:"nodir,omitempty"` // the directory cannot be made
	NoReads bool     `json:"noreads"`
	Vars    []string `json:"vars"`
	Disk    int      `json:"disk,omitempty"`  // bytes a file may have, 0 for any number
	NoMem   bool     `json:"nomem,omitempty"` // nothing is kept in memory
	Empty   int      `json:"empty,omitempty"` // pieces of no bytes before and after the bodies
	Gone    int      `json:"gone,omitempty"`  // before the bodies are closed something else removes 1: the files, 2: the directory
}

func filesIn(dir string) []string {
	var res []string
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err == nil && !d.IsDir() {
			res = append(res, p)
		}
		return nil
	})
	return res
}

// openIn counts the descriptors of this process that are open on files below a
// directory, removed ones included.
func openIn(dir string) int {
	n := 0
	ents, err := os.ReadDir("/proc/self/fd")
	herr(err)
	for _, e := range ents {
		if p, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(p, dir) {
			n++
		}
	}
	return n
}

func checkTmp(c *TmpCase, rec *Rec) error {
	base := scratch()
	root := filepath.Dir(base)
	herr(os.RemoveAll(filepath.Join(root, "tmp")))
	herr(os.MkdirAll(filepath.Join(root, "tmp"), 0700))
	dir := filepath.Join(base, "c21")
	herr(os.RemoveAll(dir))
	if c.NewDir {
		dir = filepath.Join(dir, "a", "b")
	} else {
		herr(os.MkdirAll(dir, 0700))
	}
	tmp := filepath.Join(root, "tmp")
	left := openIn(base+"/") + openIn(tmp+"/") // by an earlier case that failed
	defer fileLimit(-1)
	if c.NoDir {
		rec.Class("no directory")
		rec.NonTrivial(true)
		file := filepath.Join(dir, "file")
		herr(os.MkdirAll(dir, 0700))
		herr(os.WriteFile(file, nil, 0600))
		e := c.Txs[0].engine()
		link := filepath.Join(dir, "link")
		herr(os.Symlink(filepath.Join(dir, "nowhere"), link))
		for _, p := range []string{filepath.Join(file, "x"), file, file + "/", link, "", filepath.Join(dir, strings.Repeat("x", 300)), dir + "/\x00"} {
			e.TmpPath = p
			if _, err := e.NewTransaction(); err == nil {
				return fmt.Errorf("a transaction is made though %q is no directory for its files and cannot be made one", p)
			}
		}
		herr(os.Remove(link))
		if fs := append(filesIn(tmp), filesIn(dir)...); len(fs) != 1 || openIn(dir+"/") > left {
			return fmt.Errorf("files left by a transaction that could not be made: %q", fs)
		}
		return nil
	}
	type open struct {
		tr    *ms.Transaction
		spill int
	}
	var all []open
	allowed := 0
	look := func(when string) error {
		if fs := filesIn(tmp); len(fs) > 0 {
			return fmt.Errorf("%s: files left in the system's directory for temporary files: %q", when, fs)
		}
		if fs := filesIn(dir); len(fs) > allowed {
			return fmt.Errorf("%s: %d temporary files, %d bodies that do not fit in memory: %q", when, len(fs), allowed, fs)
		}
		if n := openIn(dir+"/") + openIn(tmp+"/") - left; n > allowed {
			return fmt.Errorf("%s: %d open temporary files, %d bodies that do not fit in memory", when, n, allowed)
		}
		return nil
	}
	for i, x := range c.Txs {
		e := x.engine()
		e.TmpPath = dir
		body := string(x.Body)
		if c.Big > 0 && x.inspectsBody() == "multipart" {
			parts := append([]Part{{Name: "up", File: "f.bin", Is: true, Val: B(strings.Repeat("file", c.Big/4))}}, x.Parts...)
			body = multipartBody(parts, "XbX", "", "")
			x.CT, x.Mem, x.Limit = "multipart/form-data; boundary=XbX", int64(c.Big/3+1), 1<<30
			e.RequestBodyInMem, e.RequestBody = x.Mem, x.Limit
		}
		if c.Cut > 0 && c.Cut < len(body) {
			body = body[:len(body)-c.Cut]
		}
		if c.NoMem {
			e.RequestBodyInMem = 0
		}
		y := *x
		y.Body = B(body)
		for stage := 3; stage <= 5; stage++ {
			r := ms.NewSecRule()
			r.Phase = stage
			for _, v := range c.Vars {
				r.AppendVariables(newVariable[v]())
			}
			r.SetOperator(&collector{0})
			if !c.NoReads {
				e.AddSecRule(r)
			}
			if c.Deny == stage {
				d := ms.NewSecRule()
				d.Phase = stage
				d.AppendVariables(&constVar{vals: []string{"x"}})
				d.SetOperator(&eqOp{"x"})
				d.AppendActions(apiAction(Act{N: "deny"}, ""))
				e.AddSecRule(d)
			}
		}
		tr, err := e.NewTransaction()
		if err != nil {
			return err
		}
		o := open{tr: tr}
		for _, k := range c.Steps[i] {
			step := txSteps[k%len(txSteps)]
			if step == "body" || step == "resappend" {
				if step == "body" && o.spill == 0 && int64(len(body)) > e.RequestBodyInMem {
					o.spill = 1
					allowed++
					rec.NonTrivial(true)
					rec.Class("body in a file")
				}
			}
			if c.Disk > 0 {
				herr(fileLimit(c.Disk))
			}
			empty := func() {
				for i := 0; i < c.Empty && c.Disk == 0; i++ {
					if err := tr.AppendRequestBody([]byte{}); err != nil {
						panic(fmt.Sprintf("piece of no bytes not accepted: %v", err))
					}
					if err := tr.AppendResponseBody(nil); err != nil {
						panic(fmt.Sprintf("piece of no bytes not accepted: %v", err))
					}
				}
			}
			if step == "body" {
				empty()
				chunked(body, y.Chunks, func(p []byte) {
					if err := tr.AppendRequestBody(p); err != nil && c.Disk == 0 {
						panic(fmt.Sprintf("request body of %d bytes not accepted: %v", len(body), err))
					} else if err != nil {
						rec.Class("disk full")
					}
				})
				empty()
			} else {
				y.step(tr, step)
			}
			if c.Disk > 0 {
				herr(fileLimit(-1))
			}
			if err := look(step); err != nil {
				return err
			}
		}
		all = append(all, o)
	}
	switch c.Gone {
	case 1:
		for _, f := range filesIn(dir) {
			herr(os.Remove(f))
		}
	case 2:
		herr(os.RemoveAll(dir))
	}
	if c.Gone > 0 && allowed > 0 {
		rec.Class("files removed by something else")
	}
	// closed in another order than made
	for i := range all {
		o := all[(i+len(all)/2)%len(all)]
		if err := o.tr.Request.Body.Close(); err != nil && c.Gone == 0 {
			return fmt.Errorf("request body does not close: %v", err)
		}
		allowed -= o.spill
		if err := look("request body closed"); err != nil {
			return err
		}
		if err := o.tr.Response.Body.Close(); err != nil {
			return fmt.Errorf("response body does not close: %v", err)
		}
		if err := look("response body closed"); err != nil {
			return err
		}
	}
	if c.Big > 0 {
		rec.ClassIf(c.Cut > 0, "cut upload")
	}
	return nil
}

func genTmp(t *rapid.T) *TmpCase {
	c := &TmpCase{NewDir: chance(t, 1, 5), NoReads: chance(t, 1, 6), Deny: pick(t, 0, 0, 0, 3, 4, 5)}
	for n := pick(t, 1, 1, 2, 3); n > 0; n-- {
		x := genTx(t, txCfg{body: [2]int{9, 10}})
		if n := len(x.Body); n > 1 && chance(t, 1, 2) {
			x.Mem = int64(intn(t, 1, n-1))
		}
		var steps []int
		for k := range txSteps {
			if txSteps[k] == "body" || txSteps[k] == "reqbody" || !chance(t, 1, 8) {
				steps = append(steps, k)
			}
		}
		if chance(t, 1, 4) {
			steps = steps[:intn(t, 0, len(steps))]
		}
		c.Txs = append(c.Txs, x)
		c.Steps = append(c.Steps, steps)
	}
	c.Vars = []string{pick(t, "ARGS_POST", "ARGS", "ARGS_POST_NAMES", "REQUEST_BODY", "ARGS_NAMES"), pick(t, "ARGS_POST", "RESPONSE_BODY", "ARGS_NAMES")}
	if chance(t, 1, 6) {
		c.Big = pick(t, 40000, 100000, 9000, 300000)
	}
	if chance(t, 1, 4) {
		c.Cut = intn(t, 1, 60)
	}
	if chance(t, 1, 8) {
		c.Gone = intn(t, 1, 2)
	}
	c.NoDir = chance(t, 1, 60)
	if chance(t, 1, 4) {
		c.Empty = intn(t, 1, 2)
	}
	if c.NoMem = chance(t, 1, 6); c.NoMem && chance(t, 1, 2) {
		for _, x := range c.Txs {
			x.Body, x.Chunks, x.Parts = "", nil, nil
		}
		c.Empty++
	}
	if chance(t, 1, 6) {
		c.Disk = pick(t, 1, intn(t, 1, 60), intn(t, 1, 500), 9000, 50000)
	}
	return c
}

// ---- C29: a body that cannot be parsed is reported

type MalCase struct {
	Multi bool     `json:"multi"`
	CT    B        `json:"ct"`
	Body  B        `json:"body"`
	Bad   bool     `json:"bad"` // the body is not well-formed
	Why   string   `json:"why"`
	Mem   int64    `json:"mem"`
	Vars  []string `json:"vars"`
	Chunk []int    `json:"chunk"`
}

func checkMalformed(c *MalCase, rec *Rec) error {
	rec.NonTrivial(c.Bad)
	rec.Class(c.Why)
	x := &Tx{Method: "POST", Proto: "HTTP/1.1", Path: "/", CT: c.CT, Body: c.Body, Chunks: c.Chunk, ReqAccess: true, Mem: c.Mem, Limit: 1 << 30, Code: 200}
	e := x.engine()
	for i, v := range c.Vars {
		r := ms.NewSecRule()
		r.Phase = 3
		r.AppendVariables(newVariable[v]())
		r.SetOperator(&collector{i})
		e.AddSecRule(r)
	}
	tr, err := e.NewTransaction()
	if err != nil {
		return err
	}
	defer closeTx(tr)
	got := map[int][]string{}
	tr.Data[collectKey] = got
	for _, s := range txSteps[:4] {
		x.step(tr, s)
	}
	if tr.RequestBodyError != nil {
		return fmt.Errorf("error before the body is looked at: %v", tr.RequestBodyError)
	}
	for _, s := range txSteps[4:] {
		x.step(tr, s)
		if (tr.RequestBodyError != nil) != c.Bad {
			return fmt.Errorf("after %s: error of the request body is %v, malformed %v (%s)\n%s\n%q", s, tr.RequestBodyError, c.Bad, c.Why, c.CT, clip([]string{string(c.Body)}))
		}
	}
	if i := tr.Result(); i.Disruptive {
		return fmt.Errorf("intercepted: %+v", i)
	}
	// all rules that ask for the same get the same
	for i, v := range c.Vars {
		for j, w := range c.Vars[:i] {
			if v == w && !sameBag(got[i], got[j]) {
				return fmt.Errorf("%s is %q, then %q", v, got[j], got[i])
			}
		}
	}
	return nil
}

func genMalformed(t *rapid.T) *MalCase {
	c := &MalCase{Multi: rapid.Bool().Draw(t, "multi"), Bad: !chance(t, 1, 4), Why: "well-formed"}
	for n := intn(t, 1, 4); n > 0; n-- {
		c.Vars = append(c.Vars, pick(t, "ARGS_POST", "ARGS", "ARGS_POST_NAMES", "ARGS_NAMES"))
	}
	if !c.Multi {
		c.CT = B(pick(t, urlencodedCT...))
		var q string
		for {
			q, _ = genQuery(t, 4)
			if !badEscape(q) && strings.Trim(q, "&") != "" {
				break
			}
			q = "a=" + enc(t, genValue(t))
			break
		}
		if c.Bad {
			c.Why = "escape"
			bad := pick(t, "%", "%4", "%zz", "%g1", "%1g", "%u0041", "%%41", "% 41")
			i := intn(t, 0, 2)
			switch i {
			case 0:
				q = bad + pick(t, "", "=", "&") + q
			case 1:
				q += pick(t, "", "=", "&x=") + bad
			default:
				q += "&" + pick(t, "", "n=") + bad + "&z=1"
			}
			if !badEscape(q) {
				q += "&%zz"
			}
		}
		c.Body = B(q)
		c.Mem = int64(len(q) + intn(t, 0, 3))
		c.Chunk = genChunks(t, len(q))
		return c
	}
	x := &Tx{Method: "POST", ReqAccess: true}
	for len(x.Parts) == 0 {
		x.Parts = nil
		genMultipart(t, x)
		if len(x.Parts) == 0 {
			x.Parts = []Part{{Name: "a", Val: "1"}}
		}
	}
	boundary := "XbX"
	for i := range x.Parts {
		if strings.Contains(string(x.Parts[i].Val), "--XbX") {
			x.Parts[i].Val = "v"
		}
	}
	c.CT = "multipart/form-data; boundary=XbX"
	body := multipartBody(x.Parts, boundary, "", "\r\n")
	if c.Bad {
		c.Why = pick(t, "cut in a part", "no boundary", "wrong boundary", "no end", "bad part header")
		switch c.Why {
		case "cut in a part":
			// after the blank line of the last part, before its end
			i := strings.LastIndex(body, "\r\n--XbX--")
			j := strings.LastIndex(body[:i], "--XbX\r\n")
			j += strings.Index(body[j:], "\r\n\r\n") + 4
			body = body[:intn(t, j, i)]
		case "no boundary":
			c.CT = B(pick(t, "multipart/form-data", "multipart/form-data; charset=utf-8", "multipart/form-data; boundary=", "multipart/form-data; boundary=XbX; boundary=other", "multipart/form-data; a=1; a=2"))
			if chance(t, 1, 3) {
				body = pick(t, "----\r\n", "----", "--\r\nContent-Disposition: form-data; name=\"a\"\r\n\r\n1\r\n----\r\n") + pick(t, "", body)
			}
		case "wrong boundary":
			c.CT = "multipart/form-data; boundary=other"
		case "no end":
			i := strings.LastIndex(body, "\r\n--XbX--")
			body = body[:i]
		case "bad part header":
			i := strings.Index(body, "Content-Disposition")
			body = body[:i] + pick(t, "no header here\r\n", ": x\r\n", "a b\r\n") + body[i:]
		}
	}
	c.Body = B(body)
	c.Mem = int64(pick(t, len(body)+1, 1, len(body)/2+1))
	c.Chunk = genChunks(t, len(body))
	return c
}

func badEscape(s string) bool {
	hex := func(c byte) bool {
		return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
	}
	for i := 0; i < len(s); i++ {
		if s[i] == '%' && !(i+2 < len(s) && hex(s[i+1]) && hex(s[i+2])) {
			return true
		}
	}
	return false
}

func init() {
	register(Prop{ID: "C19", Quick: 400000, Thorough: 4000000,
		Rule: "Request and response bodies are appended in chunks whose sum is near the limits (in memory, in all), under rules of all stages some of which look into a body (alone, with other targets, negated, counted, as the second link of a chain) and some of which always fire; which chunks are accepted, which rules fire, and every result are compared with a model. Non-trivial: a rule looks into a body beyond what fits in memory or exactly at the limit, or a chunk is refused."},
		genLimits, checkLimits)
	register(Prop{ID: "C20", Quick: 200000, Thorough: 8000000,
		Rule: "Sequences of append, write, read, read all, write to (a writer that fails too), seek, string, bytes and length on a body, with limits about the sizes appended and with the directory for temporary files removed and restored, are compared step by step with a model that is a byte string and a position. Non-trivial: a body of two or more appends is read."},
		genBuffer, checkBuffer)
	register(Prop{ID: "C21", Quick: 30000, Thorough: 1000000,
		Rule: "1-3 generated transactions with bodies, often spilled, often multipart with uploads, complete or cut, are taken through some or all of their steps with rules that read the bodies or deny; between all steps the directories for temporary files and the open descriptors hold at most one file for each body beyond what fits in memory, and nothing once the bodies are closed. Non-trivial: a body is in a file."},
		genTmp, checkTmp)
	register(Prop{ID: "C29", Quick: 450000, Thorough: 5000000,
		Rule: "Urlencoded and multipart bodies, well-formed or broken in one of six ways (escapes, cut, no end, boundary missing or wrong, part header), in random chunks and in memory or in a file, are inspected by 1-4 rules; the error of the request body must be there from the first inspection to the end exactly if the body is malformed. Non-trivial: the body is malformed."},
		genMalformed, checkMalformed)
}
