package main

// Rule texts: layout, totality, fidelity of loading, rejection.

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"regexp"
	"strconv"
	"strings"
	"syscall"

	ms "github.com/senghoo/modsecurity-go/modsecurity"
	"github.com/senghoo/modsecurity-go/modsecurity/actions"
	"github.com/senghoo/modsecurity-go/modsecurity/operators"
	"github.com/senghoo/modsecurity-go/seclang"
	"github.com/senghoo/modsecurity-go/seclang/parser"
	"pgregory.net/rapid"
)

// Doc is a directive of a rule text, as data.
type Doc struct {
	K       string   `json:"k"` // engine reqbody resbody rule
	Val     string   `json:"val,omitempty"`
	Targets []Target `json:"targets,omitempty"`
	Neg     bool     `json:"neg,omitempty"`
	Bare    bool     `json:"bare,omitempty"` // @rx is not written
	Op      string   `json:"op,omitempty"`
	Arg     B        `json:"arg,omitempty"`
	Acts    []DAct   `json:"acts,omitempty"`
}

type DAct struct {
	N string `json:"n"`
	A B      `json:"a"`
	Q string `json:"q,omitempty"` // quotes around the argument
	H bool   `json:"h,omitempty"` // has an argument
}

var dirName = map[string]string{"engine": "SecRuleEngine", "reqbody": "SecRequestBodyAccess", "resbody": "SecResponseBodyAccess", "rule": "SecRule", "note": "SecHostNote", "flag": "SecHostFlag", "mode": "SecHostMode"}

// The directives of a host: a string, a switch and one of three settings. A set
// that has them adds a default action to the engine for each.
var hostTokens = map[string]int{"note": 9101, "flag": 9102, "mode": 9103}

const refusedNote = "not to be taken"

func init() {
	parser.RegisterDir(hostTokens["note"], dirName["note"], parser.StringArgDirectiveFactory(hostTokens["note"]))
	parser.RegisterDir(hostTokens["flag"], dirName["flag"], parser.BoolArgDirectiveFactory(hostTokens["flag"]))
	parser.RegisterDir(hostTokens["mode"], dirName["mode"], parser.TriBoolArgDirectiveFactory(hostTokens["mode"]))
	for _, tk := range hostTokens {
		seclang.RegisterDire(&hostDire{tk: tk})
	}
}

type hostDire struct {
	tk  int
	val string
}

func (h *hostDire) Token() int { return h.tk }
func (h *hostDire) FromSecLang(d parser.Directive) (seclang.Dire, error) {
	v := showDir(d)
	if s, ok := d.(*parser.StringArgDirective); ok && s.Value == refusedNote {
		return nil, errors.New("the host does not take it")
	}
	return &hostDire{d.Token(), v}, nil
}
func (h *hostDire) Execute(e *ms.Engine) error {
	e.RuleSet.AddDefaultActions(&hostNote{h.val})
	return nil
}

type hostNote struct{ val string }

func (a *hostNote) Name() string       { return "host" }
func (a *hostNote) Value() string      { return a.val }
func (a *hostNote) Do(*ms.Transaction) {}
func (a *hostNote) ActionGroup() int   { return ms.ActionGroupNonDisruptive }

// ---- writing

// layout draws how a text is written. A nil *rapid.T is the plain layout.
type layout struct{ t *rapid.T }

func (l layout) flip(num, den int) bool { return l.t != nil && chance(l.t, num, den) }

func (l layout) newline() string {
	if l.t == nil {
		return "\n"
	}
	return pick(l.t, "\n", "\n", "\r\n", "\r", "\n")
}

func (l layout) blanks(least int) string {
	if l.t == nil {
		return strings.Repeat(" ", least)
	}
	s := strings.Repeat(pick(l.t, " ", " ", "\t"), least)
	for l.flip(1, 3) {
		s += pick(l.t, " ", "\t", "\v", "\f")
	}
	if least > 0 && l.flip(1, 5) { // continued on the next line
		s += "\\" + l.newline() + pick(l.t, "", " ", "\t", "      ")
		if l.flip(1, 6) {
			s += "\\" + l.newline() + "  "
		}
	}
	return s
}

func (l layout) word(s string) string {
	if l.t == nil || !l.flip(1, 3) {
		return s
	}
	return pick(l.t, strings.ToLower(s), strings.ToUpper(s), mixCase(s))
}

func mixCase(s string) string {
	b := []byte(s)
	for i := range b {
		if i%2 == 0 {
			b[i] = bytes.ToLower(b[i : i+1])[0]
		} else {
			b[i] = bytes.ToUpper(b[i : i+1])[0]
		}
	}
	return string(b)
}

// arg writes a string as an argument of a directive.
func (l layout) arg(s string) string {
	quote := byte('"')
	if l.t != nil {
		switch intn(l.t, 0, 5) {
		case 0, 1:
			quote = '\''
		case 2:
			if s != "" {
				return bareEscapes.Replace(s)
			}
		}
	}
	var sb strings.Builder
	sb.WriteByte(quote)
	needless := l.flip(1, 5) && len(s) < 1000
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case needless && !strings.ContainsRune("abfnrtv\n\r", rune(c)) && l.flip(1, 4):
			// a backslash before what needs none
			sb.WriteString(`\` + string([]byte{c}))
		case c == '\\' || c == quote:
			sb.WriteString(`\` + string([]byte{c}))
		case c == '\n':
			if l.t != nil && !(i+1 < len(s) && s[i+1] == '\r') && l.flip(1, 2) {
				nl := l.newline()
				sb.WriteString("\\" + nl)
			} else {
				sb.WriteString(`\n`)
			}
		case c == '\r':
			sb.WriteString(`\r`)
		case c == '\t' && l.flip(1, 3):
			sb.WriteString(`\t`)
		case c == '\v' && l.flip(1, 3):
			sb.WriteString(`\v`)
		case c == '\f' && l.flip(1, 3):
			sb.WriteString(`\f`)
		case c == '\a' && l.flip(1, 3):
			sb.WriteString(`\a`)
		case c == '\b' && l.flip(1, 3):
			sb.WriteString(`\b`)
		case (c == '"' || c == '\'') && l.flip(1, 3):
			sb.WriteString(`\` + string([]byte{c}))
		default:
			sb.WriteByte(c)
		}
	}
	sb.WriteByte(quote)
	return sb.String()
}

// bareEscapes writes a string that has no quotes around it.
var bareEscapes = strings.NewReplacer(" ", `\ `, `\`, `\\`, `"`, `\"`, `'`, `\'`, "\n", `\n`, "\r", `\r`, "\t", `\t`, "\v", `\v`, "\f", `\f`)

func (a DAct) arg() string { return a.Q + string(a.A) + a.Q }

func (d Doc) write(l layout) string {
	name := l.word(dirName[d.K])
	if d.K != "rule" {
		if d.K == "note" {
			return name + l.blanks(1) + l.arg(string(d.Arg))
		}
		v := l.word(d.Val)
		if l.flip(1, 3) {
			v = l.arg(v)
		}
		return name + l.blanks(1) + v
	}
	var ts []string
	for _, t := range d.Targets {
		s := t.String()
		if l.flip(1, 6) && t.Sel != "" {
			i := strings.IndexByte(s, ':')
			s = s[:i] + "." + s[i+1:]
		}
		ts = append(ts, s)
	}
	targets := ts[0]
	for _, s := range ts[1:] {
		sep := "|"
		if l.flip(1, 4) {
			sep = ","
		}
		targets += sep + s
	}
	op := ""
	if d.Neg {
		op = "!"
	}
	if !d.Bare {
		op += "@" + d.Op
		if d.Arg != "" || l.flip(1, 2) {
			op += " "
		}
	}
	op += string(d.Arg)
	list := ""
	space := func() string {
		if l.t == nil || !l.flip(1, 3) {
			return ""
		}
		return pick(l.t, " ", "\n", "\t", "  ", "\n      ", "\v")
	}
	for i, a := range d.Acts {
		if i > 0 {
			list += ","
		}
		list += space() + a.N
		if a.H {
			list += space() + ":" + space() + a.arg()
		}
		list += space()
	}
	wr := func(s string) string {
		if l.t == nil {
			return `"` + quoteSec(s, '"') + `"`
		}
		return l.arg(s)
	}
	return name + l.blanks(1) + wr(targets) + l.blanks(1) + wr(op) + l.blanks(1) + wr(list)
}

func writeDocs(l layout, docs []Doc) string {
	var sb strings.Builder
	for l.flip(1, 6) {
		sb.WriteString(pick(l.t, "\n", " ", "\r\n", "\t"))
	}
	if l.flip(1, 200) { // the rest is far down
		sb.WriteString(strings.Repeat(pick(l.t, "\n", "\r\n", "\r", "\n\r", " \n"), bigSize(l.t, 20000)))
	}
	for i, d := range docs {
		sb.WriteString(d.write(l))
		if i == len(docs)-1 && l.flip(1, 3) {
			break // no newline at the end
		}
		sb.WriteString(l.blanks(0) + l.newline())
		for l.flip(1, 4) {
			sb.WriteString(pick(l.t, "\n", "\r\n", "  ", "\t", "\r"))
		}
	}
	return sb.String()
}

// ---- what a text says

var tkVar, tkOp, tkAct, tkTrans = map[string]int{}, map[string]int{}, map[string]int{}, map[string]int{}

func init() {
	for n, tk := range map[string]int{"ARGS": parser.TkVarArgs, "ARGS_GET": parser.TkVarArgsGet, "ARGS_GET_NAMES": parser.TkVarArgsGetNames, "ARGS_POST": parser.TkVarArgsPost, "ARGS_POST_NAMES": parser.TkVarArgsPostNames, "ARGS_NAMES": parser.TkVarArgsNames, "QUERY_STRING": parser.TkVarQueryString, "REMOTE_ADDR": parser.TkVarRemoteAddr, "REQUEST_BASENAME": parser.TkVarRequestBasename, "REQUEST_BODY": parser.TkVarRequestBody, "REQUEST_COOKIES": parser.TkVarRequestCookies, "REQUEST_COOKIES_NAMES": parser.TkVarRequestCookiesNames, "REQUEST_FILENAME": parser.TkVarRequestFilename, "REQUEST_HEADERS": parser.TkVarRequestHeaders, "REQUEST_HEADERS_NAMES": parser.TkVarRequestHeadersNames, "REQUEST_METHOD": parser.TkVarRequestMethod, "REQUEST_PROTOCOL": parser.TkVarRequestProtocol, "REQUEST_URI": parser.TkVarRequestUri, "RESPONSE_BODY": parser.TkVarResponseBody, "RESPONSE_CONTENT_LENGTH": parser.TkVarResponseContentLength, "RESPONSE_CONTENT_TYPE": parser.TkVarResponseContentType, "RESPONSE_HEADERS": parser.TkVarResponseHeaders, "RESPONSE_HEADERS_NAMES": parser.TkVarResponseHeadersNames, "RESPONSE_PROTOCOL": parser.TkVarResponseProtocol, "RESPONSE_STATUS": parser.TkVarResponseStatus} {
		tkVar[n] = tk
	}
	for n, tk := range map[string]int{"rx": parser.TkOpRx, "eq": parser.TkOpEq, "ge": parser.TkOpGe, "gt": parser.TkOpGt, "le": parser.TkOpLe, "lt": parser.TkOpLt} {
		tkOp[n] = tk
	}
	for n, tk := range map[string]int{"allow": parser.TkActionAllow, "msg": parser.TkActionMsg, "tag": parser.TkActionTag, "rev": parser.TkActionRev, "ver": parser.TkActionVer, "severity": parser.TkActionSeverity, "log": parser.TkActionLog, "deny": parser.TkActionDeny, "block": parser.TkActionBlock, "status": parser.TkActionStatus, "skip": parser.TkActionSkip, "pass": parser.TkActionPass} {
		tkAct[n] = tk
	}
	for n, tk := range map[string]int{"lowercase": parser.TkTransLowercase, "urlDecode": parser.TkTransUrlDecode, "urlDecodeUni": parser.TkTransUrlDecodeUni, "none": parser.TkTransNone, "compressWhitespace": parser.TkTransCompressWhitespace, "removeWhitespace": parser.TkTransRemoveWhitespace, "replaceNulls": parser.TkTransReplaceNulls, "removeNulls": parser.TkTransRemoveNulls} {
		tkTrans[n] = tk
	}
}

var severities = []string{"EMERGENCY", "ALERT", "CRITICAL", "ERROR", "WARNING", "NOTICE", "INFO", "DEBUG"}

func severityNum(s string) string {
	for i, n := range severities {
		if s == n {
			return strconv.Itoa(i)
		}
	}
	return s
}

var phaseNumber = map[string]int{"request": 2, "response": 4, "logging": 5}
var phaseStage = map[string]int{"request": 3, "response": 5, "logging": 6}

func (d Doc) num(name string) int {
	n := 0
	for _, a := range d.Acts {
		if a.N == name {
			n, _ = strconv.Atoi(string(a.A))
			if p, ok := phaseNumber[string(a.A)]; ok && name == "phase" {
				n = p
			}
		}
	}
	return n
}

func (d Doc) alias() string {
	res := ""
	for _, a := range d.Acts {
		if a.N == "phase" {
			res = ""
			if _, ok := phaseNumber[string(a.A)]; ok {
				res = string(a.A)
			}
		}
	}
	return res
}

func (d Doc) has(name string) bool {
	for _, a := range d.Acts {
		if a.N == name {
			return true
		}
	}
	return false
}

// parsed is the directive the parser is to give.
func (d Doc) parsed() parser.Directive {
	switch d.K {
	case "engine":
		return &parser.TriBoolArgDirective{Tk: parser.TkDirRuleEng, Value: map[string]int{"On": parser.TriBoolTrue, "Off": parser.TriBoolFalse, "DetectionOnly": parser.TriBoolElse}[d.Val]}
	case "reqbody":
		return &parser.BoolArgDirective{Tk: parser.TkDirReqBody, Value: d.Val == "On"}
	case "resbody":
		return &parser.BoolArgDirective{Tk: parser.TkDirResBody, Value: d.Val == "On"}
	case "note":
		return &parser.StringArgDirective{Tk: hostTokens["note"], Value: string(d.Arg)}
	case "flag":
		return &parser.BoolArgDirective{Tk: hostTokens["flag"], Value: d.Val == "On"}
	case "mode":
		return &parser.TriBoolArgDirective{Tk: hostTokens["mode"], Value: map[string]int{"On": parser.TriBoolTrue, "Off": parser.TriBoolFalse, "DetectionOnly": parser.TriBoolElse}[d.Val]}
	}
	r := &parser.RuleDirective{Operator: &parser.Operator{Tk: tkOp[d.Op], Not: d.Neg, Argument: string(d.Arg)}, Actions: &parser.Actions{Id: d.num("id"), Phase: d.num("phase"), Chain: d.has("chain")}}
	for _, t := range d.Targets {
		r.Variable = append(r.Variable, &parser.Variable{Tk: tkVar[t.Var], Index: string(t.Sel), Count: t.Cnt && !t.Excl, Exclusion: t.Excl})
	}
	for _, a := range d.Acts {
		switch a.N {
		case "id", "phase", "chain":
		case "t":
			r.Actions.Trans = append(r.Actions.Trans, &parser.Trans{Tk: tkTrans[string(a.A)]})
		case "severity":
			r.Actions.Action = append(r.Actions.Action, &parser.Action{Tk: tkAct[a.N], Argument: severityNum(string(a.A))})
		default:
			r.Actions.Action = append(r.Actions.Action, &parser.Action{Tk: tkAct[a.N], Argument: a.arg()})
		}
	}
	return r
}

func stripQuotes(s string) string {
	if len(s) >= 2 && (s[0] == '\'' || s[0] == '"') && s[len(s)-1] == s[0] {
		return s[1 : len(s)-1]
	}
	return s
}

// showDir writes a directive out. The quotes around the argument of an action
// are no part of what it says.
func showDir(d parser.Directive) string {
	switch d := d.(type) {
	case *parser.RuleDirective:
		if d == nil || d.Operator == nil || d.Actions == nil {
			return fmt.Sprintf("incomplete rule %+v", d)
		}
		var s strings.Builder
		s.WriteString("rule")
		for _, v := range d.Variable {
			fmt.Fprintf(&s, " var%+v", *v)
		}
		fmt.Fprintf(&s, " op{%d %v %q} id %d phase %d chain %v", d.Operator.Tk, d.Operator.Not, d.Operator.Argument, d.Actions.Id, d.Actions.Phase, d.Actions.Chain)
		for _, t := range d.Actions.Trans {
			fmt.Fprintf(&s, " t%d", t.Tk)
		}
		for _, a := range d.Actions.Action {
			fmt.Fprintf(&s, " act{%d %q}", a.Tk, stripQuotes(a.Argument))
		}
		return s.String()
	case *parser.BoolArgDirective:
		return fmt.Sprintf("bool %d %v", d.Tk, d.Value)
	case *parser.TriBoolArgDirective:
		return fmt.Sprintf("tri %d %v", d.Tk, d.Value)
	case *parser.StringArgDirective:
		return fmt.Sprintf("string %d %q", d.Tk, d.Value)
	}
	return fmt.Sprintf("%T %+v", d, d)
}

func showDirs(ds []parser.Directive) []string {
	res := []string{}
	for _, d := range ds {
		res = append(res, showDir(d))
	}
	return res
}

func diffStrings(got, want []string) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		g, w := "nothing", "nothing"
		if i < len(got) {
			g = got[i]
		}
		if i < len(want) {
			w = want[i]
		}
		if g != w {
			return fmt.Sprintf("number %d is\n %s, want\n %s", i, g, w)
		}
	}
	return ""
}

// ---- C09

type LayoutCase struct {
	Docs  []Doc `json:"docs"`
	Texts []B   `json:"texts"` // the same directives, written differently
}

func checkLayout(c *LayoutCase, rec *Rec) error {
	want := []string{}
	for _, d := range c.Docs {
		want = append(want, showDir(d.parsed()))
	}
	rules := 0
	for _, d := range c.Docs {
		if d.K == "rule" {
			rules++
		}
	}
	rec.NonTrivial(rules > 0)
	rec.ClassIf(rules > 5, "many rules")
	for _, x := range c.Texts {
		rec.ClassIf(strings.Contains(string(x), "\\\n") || strings.Contains(string(x), "\\\r"), "continued line")
		rec.ClassIf(strings.Contains(string(x), "\r\n"), "CRLF")
		ds, err := parser.NewSecLangScannerFromString(string(x)).AllDirective()
		if err != nil {
			return fmt.Errorf("does not parse: %v\n%s", err, x)
		}
		if d := diffStrings(showDirs(ds), want); d != "" {
			return fmt.Errorf("directive %s\n%s", d, x)
		}
		// one by one, from a reader that gives little at a time
		sc := parser.NewSecLangScanner(&slowReader{data: string(x), step: 1 + len(x)%3})
		for i := range want {
			d, err := sc.ReadDirective()
			if err != nil {
				return fmt.Errorf("directive %d does not parse: %v\n%s", i, err, x)
			}
			if s := showDir(d); s != want[i] {
				return fmt.Errorf("directive %d is\n %s, want\n %s\n%s", i, s, want[i], x)
			}
		}
		for i := 0; i < 2; i++ {
			if d, err := sc.ReadDirective(); err != parser.ErrEOS {
				return fmt.Errorf("after the last directive comes %v, %v\n%s", d, err, x)
			}
		}
	}
	return nil
}

// slowReader gives its data in small steps, with the faults asked for.
type slowReader struct {
	data    string
	step    int
	empty   bool // now and then a read gives nothing
	withEOF bool // the last data comes together with the end
	fail    error
	rest    string // what comes after the failure, if the reader is asked again
	calls   int
}

func (r *slowReader) Read(p []byte) (int, error) {
	r.calls++
	end := r.fail
	if end == nil {
		end = io.EOF
	}
	if len(r.data) == 0 {
		r.data, r.rest, r.fail = r.rest, "", nil
		return 0, end
	}
	if r.empty && r.calls%3 == 0 {
		return 0, nil
	}
	n := r.step
	if n > len(p) {
		n = len(p)
	}
	if n > len(r.data) {
		n = len(r.data)
	}
	copy(p, r.data[:n])
	r.data = r.data[n:]
	if r.withEOF && len(r.data) == 0 {
		r.data, r.rest, r.fail = r.rest, "", nil
		return n, end
	}
	return n, nil
}

// ---- C10

type RawCase struct {
	Text  B      `json:"text"`
	More  B      `json:"more"` // another text
	Steps []int  `json:"steps"`
	Fault int    `json:"fault"`
	Err   int    `json:"err"`
	Kind  string `json:"kind"`
}

var errInjected = errors.New("injected fault")

// readErrors are the ways in which a reader fails.
var readErrors = []error{errInjected, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, os.ErrDeadlineExceeded, syscall.EAGAIN, syscall.EIO, errors.New("EOF")}

func parseAll(r io.Reader) ([]string, error) {
	ds, err := parser.NewSecLangScanner(r).AllDirective()
	if err != nil {
		if len(ds) > 0 {
			return nil, fmt.Errorf("directives together with the error %w", err)
		}
		return nil, err
	}
	return showDirs(ds), nil
}

func checkRaw(c *RawCase, rec *Rec) error {
	text := string(c.Text)
	want, err := parseAll(strings.NewReader(text))
	rec.Class(c.Kind)
	rec.ClassIf(err == nil, "parses")
	rec.ClassIf(err == nil && len(want) > 0, "parses, not empty")
	rec.NonTrivial(err != nil || len(want) > 0)
	for _, step := range c.Steps {
		for k := 0; k < 4; k++ {
			got, err2 := parseAll(&slowReader{data: text, step: step, empty: k&1 > 0, withEOF: k&2 > 0})
			if (err == nil) != (err2 == nil) {
				return fmt.Errorf("read in steps of %d (%d): error %v, as a whole: %v", step, k, err2, err)
			}
			if d := diffStrings(got, want); d != "" {
				return fmt.Errorf("read in steps of %d (%d): directive %s", step, k, d)
			}
		}
	}
	// a reader that fails is never taken for the end of the text
	at := c.Fault
	if at > len(text) {
		at = len(text)
	}
	fail := readErrors[c.Err]
	for k := 0; k < 4; k++ {
		r := &slowReader{data: text[:at], step: 7, withEOF: k&1 > 0, fail: fail}
		if k&2 > 0 {
			r.rest = text[at:] // the failure is gone when the reader is asked again
		}
		if got, err2 := parseAll(r); err2 == nil {
			return fmt.Errorf("reader failed with %q after %d of %d bytes (%d), but %d directives were read without an error", fail, at, len(text), k, len(got))
		}
	}
	// two texts one after the other are both texts
	if err == nil {
		if more, err2 := parseAll(strings.NewReader(string(c.More))); err2 == nil {
			rec.ClassIf(len(want) > 0 && len(more) > 0, "concatenation")
			both, err3 := parseAll(strings.NewReader(text + "\n" + string(c.More)))
			if err3 != nil {
				return fmt.Errorf("both texts parse, one after the other they give %v", err3)
			}
			if d := diffStrings(both, append(append([]string{}, want...), more...)); d != "" {
				return fmt.Errorf("one text after the other: directive %s", d)
			}
		}
	}
	// loading takes no more than parsing, and what it takes runs
	ds, err2 := seclang.NewDireSetFromSecLangString(text)
	if err2 == nil && err != nil {
		return fmt.Errorf("text loads, but does not parse: %v", err)
	}
	if err2 == nil {
		rec.ClassIf(len(want) > 0, "loads, not empty")
		e := ms.NewEngine()
		e.TmpPath = scratch()
		if err := ds.Execute(e); err != nil {
			return fmt.Errorf("text loads but does not execute: %v", err)
		}
		tr, err := e.NewTransaction()
		if err != nil {
			return err
		}
		hostileTx.step(tr, "conn")
		for _, s := range txSteps {
			hostileTx.step(tr, s)
		}
		tr.Result()
		closeTx(tr)
	}
	return nil
}

var hostileTx = &Tx{Src: "192.0.2.1", Method: "POST", Proto: "HTTP/1.1", Path: "/a", Query: "a=b&c=%zz", Hdrs: []Hdr{{K: "Cookie", V: []B{"a=b"}}, {K: "X", V: []B{"1"}}}, CT: "application/x-www-form-urlencoded", Body: "d=e&f", ReqAccess: true, ResAccess: true, Code: 200, ResBody: "body"}

// ---- C11

type LoadCase struct {
	Docs  [][]Doc `json:"docs"` // one for each text
	Texts []B     `json:"texts"`
	How   int     `json:"how"`   // 0 one set for each text, 1 one set, 2 one text
	Host  *Hosted `json:"host"`  // an engine that the host set up, loaded with the same
	First bool    `json:"first"` // that one is loaded first
}

// Hosted is what a host does to an engine before it loads rules.
type Hosted struct {
	Mode     string   `json:"mode"`
	Req      bool     `json:"req"`
	Res      bool     `json:"res"`
	Limits   [3]int64 `json:"limits"` // request, request in memory, response
	Tmp      string   `json:"tmp"`
	Defaults []int    `json:"defaults"`
	Rules    []int    `json:"rules"` // stages of rules made through the API
}

func (h *Hosted) engine() *ms.Engine {
	e := ms.NewEngine()
	e.TmpPath = scratch()
	if h == nil {
		return e
	}
	e.TmpPath = scratch() + "/" + h.Tmp
	e.Enable(map[string]int{"On": ms.StatusOn, "Off": ms.StatusOff, "DetectionOnly": ms.StatusDect}[h.Mode])
	e.RequestBodyAccess, e.ResponseBodyAccess = h.Req, h.Res
	e.RequestBody, e.RequestBodyInMem, e.ResponseBody = h.Limits[0], h.Limits[1], h.Limits[2]
	for _, st := range h.Defaults {
		e.RuleSet.AddDefaultActions(actions.NewActionStatus(st))
	}
	for i, ph := range h.Rules {
		r := ms.NewSecRule()
		r.Id, r.Phase = 900000+i, ph
		r.SetOperator(mustEq(i))
		e.AddSecRule(r)
	}
	return e
}

func mustEq(n int) ms.Operator {
	o, err := operators.NewOperatorEq(strconv.Itoa(n))
	if err != nil {
		panic(err)
	}
	return o
}

func (h *Hosted) limits(notes []string) string {
	if h == nil {
		d := ms.NewDefaultLimits()
		return fmt.Sprintf(" limits %v %q actions %v", [3]int64{d.RequestBody, d.RequestBodyInMem, d.ResponseBody}, scratch(), notes)
	}
	var as []string
	for _, st := range h.Defaults {
		as = append(as, "status "+actValue("status", st, ""))
	}
	return fmt.Sprintf(" limits %v %q actions %v", h.Limits, scratch()+"/"+h.Tmp, append(as, notes...))
}

func (h *Hosted) rules(stage int) []string {
	if h == nil {
		return nil
	}
	var l []string
	for i, ph := range h.Rules {
		if ph == stage {
			l = append(l, ruleShape(&ms.SecRule{Id: 900000 + i, Phase: ph, Operator: mustEq(i)}, true))
		}
	}
	return l
}

func ruleShape(r *ms.SecRule, top bool) string {
	s := fmt.Sprintf("id %d not %v", r.Id, r.Not)
	if top {
		s += fmt.Sprintf(" phase %d", r.Phase)
	}
	for _, v := range r.Variables {
		s += " var " + v.Name()
	}
	for _, t := range r.Trans {
		s += " t:" + t.Name()
	}
	if r.Operator == nil {
		s += " no operator"
	} else {
		s += fmt.Sprintf(" @%s %q", r.Operator.Name(), r.Operator.Args())
	}
	for _, a := range r.Actions {
		s += fmt.Sprintf(" %s(%s)", a.Name(), a.Value())
	}
	for _, k := range []string{"msg", "tag", "rev", "ver", "severity"} {
		if v := r.MetaData[k]; len(v) > 0 {
			s += fmt.Sprintf(" %s %q", k, v)
		}
	}
	for k := range r.MetaData {
		switch k {
		case "msg", "tag", "rev", "ver", "severity":
		default:
			s += " metadata " + k
		}
	}
	for _, sub := range r.SubRules {
		s += " [" + ruleShape(sub, false) + "]"
	}
	return s
}

func (d Doc) shape(phase int) string {
	s := fmt.Sprintf("id %d not %v", d.num("id"), d.Neg)
	if phase > 0 {
		s += fmt.Sprintf(" phase %d", phase)
	}
	removed := map[string]bool{}
	for _, t := range d.Targets {
		if t.Excl && t.Sel == "" {
			removed[t.Var] = true
		}
	}
	for _, t := range d.Targets {
		if !t.Excl && (t.Cnt || !removed[t.Var]) {
			s += " var " + t.Var
		}
	}
	for _, a := range d.Acts {
		if a.N == "t" {
			s += " t:" + string(a.A)
		}
	}
	arg := string(d.Arg)
	if d.Op != "rx" {
		arg = strings.TrimSpace(arg)
	}
	s += fmt.Sprintf(" @%s %q", d.Op, arg)
	meta := map[string][]string{}
	for _, a := range d.Acts {
		switch a.N {
		case "id", "phase", "chain", "t":
		case "msg", "tag", "rev", "ver":
			meta[a.N] = append(meta[a.N], string(a.A))
		case "severity":
			meta[a.N] = append(meta[a.N], severityNum(string(a.A)))
		case "status", "skip":
			n, _ := strconv.Atoi(string(a.A))
			if a.N == "skip" && n < 1 {
				n = 1
			}
			s += fmt.Sprintf(" %s(%s)", a.N, actValue(a.N, n, ""))
		default:
			s += fmt.Sprintf(" %s(%s)", a.N, actValue(a.N, 0, string(a.A)))
		}
	}
	for _, k := range []string{"msg", "tag", "rev", "ver", "severity"} {
		if v := meta[k]; len(v) > 0 {
			s += fmt.Sprintf(" %s %q", k, v)
		}
	}
	return s
}

// actValue is what the action made through the Go API says of itself.
func actValue(name string, n int, s string) string {
	return apiAction(Act{N: name, A: n, S: s}, "").Value()
}

type loaded struct {
	stages  map[int][]string
	setting string
}

func engineShape(e *ms.Engine) loaded {
	l := loaded{stages: map[int][]string{}}
	for st, rs := range e.RuleSet.Phases {
		for _, r := range rs {
			l.stages[st] = append(l.stages[st], ruleShape(r, true))
		}
	}
	l.setting = fmt.Sprintf("enabled %v detection %v request body %v response body %v", e.Enabled, e.DetectionOnly, e.RequestBodyAccess, e.ResponseBodyAccess)
	var as []string
	for _, a := range e.RuleSet.DefaultActions {
		as = append(as, a.Name()+" "+a.Value())
	}
	l.setting += fmt.Sprintf(" limits %v %q actions %v", [3]int64{e.RequestBody, e.RequestBodyInMem, e.ResponseBody}, e.TmpPath, as)
	return l
}

// wantLoaded is what loading the texts one after the other gives. Rules whose
// phase is an alias are put where it is said that they go.
func wantLoaded(docs [][]Doc, aliasStage map[string]int, h *Hosted) loaded {
	l := loaded{stages: map[int][]string{}}
	var notes []string
	set := map[string]string{"engine": "On", "reqbody": "Off", "resbody": "Off"}
	if h != nil {
		onOff := map[bool]string{true: "On", false: "Off"}
		set = map[string]string{"engine": h.Mode, "reqbody": onOff[h.Req], "resbody": onOff[h.Res]}
	}
	for st := 0; st < 10; st++ {
		l.stages[st] = h.rules(st)
	}
	for _, ds := range docs {
		for i := 0; i < len(ds); i++ {
			d := ds[i]
			if hostTokens[d.K] > 0 {
				notes = append(notes, "host "+showDir(d.parsed()))
				continue
			}
			if d.K != "rule" {
				set[d.K] = d.Val
				continue
			}
			phase := d.num("phase")
			if phase == 0 {
				phase = 2
			}
			if a := d.alias(); a != "" {
				phase = aliasStage[a]
			}
			s := d.shape(phase)
			for ds[i].has("chain") && i+1 < len(ds) {
				i++
				s += " [" + ds[i].shape(0) + "]"
			}
			l.stages[phase] = append(l.stages[phase], s)
		}
	}
	l.setting = fmt.Sprintf("enabled %v detection %v request body %v response body %v", set["engine"] == "On", set["engine"] == "DetectionOnly", set["reqbody"] == "On", set["resbody"] == "On") + h.limits(notes)
	return l
}

func (l loaded) diff(w loaded) error {
	if l.setting != w.setting {
		return fmt.Errorf("settings are %s, want %s", l.setting, w.setting)
	}
	for st := -1; st < 10; st++ {
		if d := diffStrings(l.stages[st], w.stages[st]); d != "" {
			return fmt.Errorf("stage %d: rule %s", st, d)
		}
	}
	return nil
}

func checkLoad(c *LoadCase, rec *Rec) error {
	var sets []*seclang.DireSet
	texts := c.Texts
	if c.How == 2 {
		texts = []B{B(strings.Join(strs(c.Texts), "\n"))}
	}
	for i, x := range texts {
		if i == 0 || c.How == 0 {
			if len(x)&1 == 0 {
				set, err := seclang.NewDireSetFromSecLangString(string(x))
				if err != nil {
					return fmt.Errorf("does not load: %v\n%s", err, x)
				}
				sets = append(sets, set)
				continue
			}
			sets = append(sets, seclang.NewDireSet())
		}
		if err := sets[len(sets)-1].AddSecLangString(string(x)); err != nil {
			return fmt.Errorf("does not load: %v\n%s", err, x)
		}
	}
	execute := func(h *Hosted) (*ms.Engine, error) {
		e := h.engine()
		for _, set := range sets {
			if err := set.Execute(e); err != nil {
				return nil, fmt.Errorf("does not execute: %v\n%s", err, c.Texts)
			}
		}
		return e, nil
	}
	rules, alias := 0, ""
	for _, ds := range c.Docs {
		for i, d := range ds {
			if d.K == "rule" {
				rules++
				rec.ClassIf(d.has("chain"), "chain")
				if a := d.alias(); a != "" && (i == 0 || !ds[i-1].has("chain")) {
					alias = a
				}
			}
		}
	}
	rec.NonTrivial(rules > 0)
	rec.ClassIf(rules > 5, "many rules")
	rec.ClassIf(len(c.Texts) > 1, "several texts")
	hosts := []*Hosted{nil}
	if c.Host != nil {
		rec.Class("the same for an engine that the host set up")
		hosts = append(hosts, c.Host)
		if c.First {
			hosts = []*Hosted{c.Host, nil}
		}
	}
	var engines []*ms.Engine
	for _, h := range hosts {
		e, err := execute(h)
		if err != nil {
			return err
		}
		engines = append(engines, e)
	}
	var known error
	for i, e := range engines { // after all of them are loaded
		got := engineShape(e)
		diff := got.diff(wantLoaded(c.Docs, phaseStage, hosts[i]))
		if diff == nil {
			continue
		}
		if alias == "" {
			return fmt.Errorf("%w\n%s", diff, c.Texts)
		}
		if err := got.diff(wantLoaded(c.Docs, phaseNumber, hosts[i])); err != nil {
			return fmt.Errorf("%w\n%s", err, c.Texts)
		}
		known = &finding{"alias-" + alias, diff}
	}
	return known
}

// ---- C12

type BadCase struct {
	Good  []Doc  `json:"good"` // loaded before
	GoodT B      `json:"goodt"`
	Docs  []Doc  `json:"docs"`
	Text  B      `json:"text"`
	Fault string `json:"fault"`
	Then  []Doc  `json:"then"` // loaded afterwards
	ThenT B      `json:"thent"`
}

func checkBad(c *BadCase, rec *Rec) error {
	rec.NonTrivial(true)
	rec.Class(c.Fault)
	if ds, err := seclang.NewDireSetFromSecLangString(string(c.Text)); err == nil {
		e := ms.NewEngine()
		e.TmpPath = scratch()
		if err := ds.Execute(e); err == nil {
			return fmt.Errorf("%s: loads without an error, as %v\n%s", c.Fault, engineShape(e), c.Text)
		}
		return fmt.Errorf("%s: loads without an error, but does not execute\n%s", c.Fault, c.Text)
	}
	set := seclang.NewDireSet()
	if err := set.AddSecLangString(string(c.GoodT)); err != nil {
		return fmt.Errorf("does not load: %v\n%s", err, c.GoodT)
	}
	if err := set.AddSecLangString(string(c.Text)); err == nil {
		return fmt.Errorf("%s: is added without an error\n%s", c.Fault, c.Text)
	}
	if err := set.AddSecLangString(string(c.ThenT)); err != nil {
		return fmt.Errorf("%s: another text does not load afterwards: %v\n%s", c.Fault, err, c.ThenT)
	}
	e := ms.NewEngine()
	e.TmpPath = scratch()
	if err := set.Execute(e); err != nil {
		return fmt.Errorf("%s: a set to which the text was not added does not execute: %v", c.Fault, err)
	}
	if err := engineShape(e).diff(wantLoaded([][]Doc{c.Good, c.Then}, phaseStage, nil)); err != nil {
		return fmt.Errorf("%s: the text that does not load took effect: %w\n%s", c.Fault, err, c.Text)
	}
	return nil
}

// ---- generators

func genDocSel(t *rapid.T, v string) B {
	if !collections[v] {
		return ""
	}
	s := pick(t, "a", "foo", "User-Agent", "Host", "x-y", "/^a/", "/__utm/", "/[a-z]+$/", "a.b", "a:b", "a b", "id", "/^x\\d$/", "/a b/", "it's", "\"q\"", "!x", "&y", "é", "[0]", "/")
	if chance(t, 1, 10) {
		s = pieces(t, 5, "a", "b", "-", "_", ":", ".", " ", "'", "\"", "\\", "!", "&", "@", "é", "\xff", "%")
		if chance(t, 1, 3) {
			s = dropBytes(rawBytes(t, 8), ",|")
		}
		if chance(t, 1, 10) {
			s = strings.Repeat(s+"x", bigSize(t, 5000)/4+1)
		}
	}
	return B(s)
}

func genMeta(t *rapid.T) (string, string) {
	v := pieces(t, 5, "Attack", "a", "b", " ", "SQL", "'", "\"", ",", ":", "it's", "\\", "%{TX.0}", "/", "é", "\xff", "1", "\n", "\t", "OWASP_CRS/3.1.0", "(", ")", "|", "!", "#", "id:1", ",deny", "\x00", "\u00a0", "\u0085", "\u3000", "\v", "\f")
	if chance(t, 1, 10) {
		v = rawBytes(t, 10)
	}
	if chance(t, 1, 60) {
		n := intn(t, 1, 3000)
		if chance(t, 1, 16) {
			n = bigSize(t, 70000)
		}
		v = strings.Repeat(v+"x", n)
	}
	q := pick(t, "'", "'", "'", "\"", "")
	fits := func() bool {
		if q == "" {
			return !strings.Contains(v, ",") && strings.Trim(v, asciiSpace) == v && !(v != "" && (v[0] == '\'' || v[0] == '"'))
		}
		// a quote inside must not look like the end of the argument
		for i := 0; i < len(v); i++ {
			if v[i] == q[0] {
				rest := strings.TrimLeft(v[i+1:], " \t\n\v\f\r")
				if rest == "" || rest[0] == ',' {
					return false
				}
			}
		}
		return true
	}
	if !fits() {
		v = strings.Map(func(r rune) rune {
			if r == '\'' || r == '"' || r == ',' {
				return '-'
			}
			return r
		}, strings.ToValidUTF8(v, "?"))
		v = strings.Trim(v, asciiSpace)
	}
	return v, q
}

func genQ(t *rapid.T) string { return pick(t, "", "", "", "'") }

func genDActs(t *rapid.T, chain, phase, alias bool) []DAct {
	var acts []DAct
	add := func(n string, h bool, a, q string) { acts = append(acts, DAct{N: n, A: B(a), Q: q, H: h}) }
	if !chance(t, 1, 8) {
		add("id", true, strconv.Itoa(pick(t, 1, 0, 942160, intn(t, 1, 1000000), 9007199254740993, 1<<31-1, 1<<31)), genQ(t))
	}
	if phase && !chance(t, 1, 8) {
		add("phase", true, strconv.Itoa(intn(t, 1, 5)), genQ(t))
	}
	if alias {
		add("phase", true, pick(t, "request", "response", "logging"), genQ(t))
	}
	for n := count(t, 0, 4, 20); n > 0; n-- {
		switch intn(t, 0, 9) {
		case 0, 1:
			v, q := genMeta(t)
			add(pick(t, "msg", "tag", "tag", "rev", "ver"), true, v, q)
		case 2, 3:
			add("t", true, pick(t, transNames...), genQ(t))
		case 4:
			add("severity", true, pick(t, pick(t, severities...), strconv.Itoa(intn(t, 0, 7))), genQ(t))
		case 5:
			add("status", true, strconv.Itoa(pick(t, 403, 404, 500, 200, 599, 100, 0, 1000, intn(t, 0, 999), intn(t, -1, 1<<40))), genQ(t))
		case 6:
			if chance(t, 1, 2) {
				add("skip", false, "", "")
			} else {
				add("skip", true, strconv.Itoa(pick(t, 1, 2, 3, 10, 100, 127, 128, 255, 256, 65536, 1<<31, 1<<62)), genQ(t))
			}
		case 7:
			if chance(t, 1, 2) {
				add("allow", false, "", "")
			} else {
				add("allow", true, pick(t, "phase", "request"), genQ(t))
			}
		default:
			add(pick(t, "log", "deny", "block", "pass"), false, "", "")
		}
	}
	if chain {
		add("chain", false, "", "")
	}
	if len(acts) == 0 {
		add("log", false, "", "")
	}
	if len(acts) > 1 && chance(t, 1, 2) {
		acts = rapid.Permutation(acts).Draw(t, "acts")
	}
	if chance(t, 1, 25) { // a quote that is never closed is part of the argument
		add(pick(t, "msg", "tag", "rev", "ver"), true, pick(t, "'", "\"", "'a", "\"a b", "'it:", "\"%{x}é", "''a", "'a\"b", "\"a'b"), "")
	}
	return acts
}

func genDocRule(t *rapid.T, chain, phase, alias bool) Doc {
	d := Doc{K: "rule", Neg: chance(t, 1, 3), Op: pick(t, "rx", "rx", "rx", pick(t, opNames...))}
	for n := many(t, 1, 4, 25, 120); n > 0; n-- {
		tg := Target{Var: pick(t, varNames...)}
		if chance(t, 1, 2) {
			tg.Sel = genDocSel(t, tg.Var)
		}
		switch intn(t, 0, 5) {
		case 4:
			tg.Excl = true
		case 5:
			tg.Cnt = true
		}
		d.Targets = append(d.Targets, tg)
	}
	if d.Op != "rx" {
		d.Arg = B(genIntArg(t))
		return withActs(t, d, chain, phase, alias)
	}
	re := pick(t, "a", "cmd", "(?i:sleep\\(\\s*?\\d*?\\s*?\\)|benchmark\\(.*?\\,.*?\\))", "^$", "[\"'`]", "\\bselect\\b.*\\bfrom\\b", "a b", " x ", "", "\\\\", "^(?:GET|HEAD)$", "\\x00", "é+", "!x", "@y", "\n", "a\tb", "\\n", "%[0-9a-f]{2}")
	if chance(t, 1, 3) {
		re = genRx(t, []string{"it's \"quoted\"", "a\\b", "x,y|z", "tab\there", "line\nline"})
	}
	d.Arg = B(re)
	d.Bare = re != "" && re[0] != '!' && re[0] != '@' && chance(t, 1, 3)
	return withActs(t, d, chain, phase, alias)
}

func withActs(t *rapid.T, d Doc, chain, phase, alias bool) Doc {
	d.Acts = genDActs(t, chain, phase, alias)
	return d
}

func genSetting(t *rapid.T) Doc {
	if chance(t, 1, 4) {
		switch intn(t, 0, 3) {
		case 0:
			return Doc{K: "flag", Val: pick(t, "On", "Off")}
		case 1:
			return Doc{K: "mode", Val: pick(t, "On", "Off", "DetectionOnly")}
		}
		v, _ := genMeta(t)
		return Doc{K: "note", Arg: B(v)}
	}
	switch intn(t, 0, 2) {
	case 0:
		return Doc{K: "engine", Val: pick(t, "On", "Off", "DetectionOnly")}
	case 1:
		return Doc{K: "reqbody", Val: pick(t, "On", "Off")}
	}
	return Doc{K: "resbody", Val: pick(t, "On", "Off")}
}

func genDocs(t *rapid.T, least, most, rare int, aliasP [2]int) []Doc {
	var docs []Doc
	n := count(t, least, most, rare)
	if rare > most && chance(t, 1, 200) {
		n = intn(t, rare, rare*4)
	}
	for ; n > 0; n-- {
		if chance(t, 1, 4) {
			docs = append(docs, genSetting(t))
			continue
		}
		links := 1
		if chance(t, 1, 4) {
			links = count(t, 2, 3, 8)
		}
		alias := aliasP[0] > 0 && chance(t, aliasP[0], aliasP[1])
		for i := 0; i < links; i++ {
			docs = append(docs, genDocRule(t, i < links-1, i == 0 || chance(t, 1, 4), alias && i == 0))
		}
	}
	return docs
}

func genLayout(t *rapid.T) *LayoutCase {
	c := &LayoutCase{Docs: genDocs(t, 1, 3, 30, [2]int{1, 20})}
	for n := pick(t, 1, 2, 2); n > 0; n-- {
		c.Texts = append(c.Texts, B(writeDocs(layout{t}, c.Docs)))
	}
	return c
}

// validSel drops what the selectors of a loaded rule may not be.
func loadable(docs []Doc) []Doc {
	for i := range docs {
		for j := range docs[i].Targets {
			tg := &docs[i].Targets[j]
			if isPattern(string(tg.Sel)) {
				if _, err := regexp.Compile(string(tg.Sel[1 : len(tg.Sel)-1])); err != nil {
					tg.Sel = "a"
				}
			}
		}
	}
	return docs
}

func genLoad(t *rapid.T) *LoadCase {
	c := &LoadCase{How: intn(t, 0, 2)}
	for n := pick(t, 1, 1, 2, 3); n > 0; n-- {
		docs := loadable(genDocs(t, 0, 4, 40, [2]int{1, 60}))
		c.Docs = append(c.Docs, docs)
		c.Texts = append(c.Texts, B(writeDocs(layout{t}, docs)))
	}
	if chance(t, 2, 3) {
		h := &Hosted{Mode: pick(t, "On", "On", "Off", "DetectionOnly"), Req: chance(t, 1, 2), Res: chance(t, 1, 2), Tmp: pick(t, "a", "b/c", "")}
		for i := range h.Limits {
			h.Limits[i] = pick[int64](t, 0, 1, 1000, 1<<20, 1<<40, -1)
		}
		for n := intn(t, 0, 2); n > 0; n-- {
			h.Defaults = append(h.Defaults, intn(t, 100, 599))
		}
		for n := intn(t, 0, 4); n > 0; n-- {
			h.Rules = append(h.Rules, intn(t, 1, 6))
		}
		c.Host, c.First = h, chance(t, 1, 2)
	}
	return c
}

func genBad(t *rapid.T) *BadCase {
	c := &BadCase{Good: loadable(genDocs(t, 0, 2, 2, [2]int{0, 1}))}
	c.GoodT = B(writeDocs(layout{t}, c.Good))
	if chance(t, 1, 3) {
		c.Then = loadable(genDocs(t, 1, 2, 2, [2]int{0, 1}))
		c.ThenT = B(writeDocs(layout{t}, c.Then))
	}
	before := loadable(genDocs(t, 0, 2, 6, [2]int{0, 1}))
	after := loadable(genDocs(t, 0, 1, 3, [2]int{0, 1}))
	rule := func(targets, op, acts string) string {
		l := layout{t}
		return "SecRule " + l.arg(targets) + " " + l.arg(op) + " " + l.arg(acts)
	}
	okT := func() string {
		return pick(t, "ARGS", "REQUEST_URI", "ARGS|REQUEST_HEADERS:Host", "&ARGS", "ARGS|!ARGS:a")
	}
	okO := func() string { return pick(t, "@rx a", "cmd", "!@rx x", "@eq 1", "!@lt 2") }
	okA := func() string {
		return pick(t, "id:1,phase:2,deny", "id:7,phase:1,t:lowercase,log", "id:3,pass,msg:'x'")
	}
	withA := func(bad string) string {
		parts := strings.Split(okA(), ",")
		i := intn(t, 0, len(parts))
		parts = append(parts[:i:i], append([]string{bad}, parts[i:]...)...)
		return strings.Join(parts, ",")
	}
	withT := func(bad string) string {
		parts := strings.Split(okT(), "|")
		i := intn(t, 0, len(parts))
		parts = append(parts[:i:i], append([]string{bad}, parts[i:]...)...)
		return strings.Join(parts, "|")
	}
	word := func() string {
		return string(rapid.SliceOfN(rapid.ByteRange('a', 'z'), 3, 8).Draw(t, "word")) + "q"
	}
	bad := ""
	c.Fault = pick(t, "directive", "setting", "variable", "empty target", "operator", "regex", "number", "action", "transformation", "phase", "id", "status", "skip", "allow", "severity", "selector", "unfinished", "line break", "stray", "unimplemented")
	switch c.Fault {
	case "directive":
		bad = pick(t, "Sec", "SecRulee", "SecAction", "SecRul", "SecFoo", "Include") + word() + " On"
	case "setting":
		bad = pick(t, "SecRuleEngine ", "SecRequestBodyAccess ", "SecResponseBodyAccess ") + pick(t, "Maybe", "Onn", "xOn", "Of", "Offf", "O", "1", "0", "true", "\"\"", "\" On\"", "'On '", "OnOff", "DetectionOnlyx")
		if chance(t, 1, 5) {
			bad = pick(t, "SecRequestBodyAccess ", "SecResponseBodyAccess ", "SecHostFlag ") + "DetectionOnly"
		}
		if chance(t, 1, 8) { // refused by the host
			bad = "SecHostNote " + layout{t}.arg(refusedNote)
		}
	case "variable":
		bad = rule(withT(pick(t, "ARG", "ARGSS", "FOO", "REQUEST_BOD", "REQUEST", "TX", "FILES", "!NOPE", "&NOPE:a", "NOPE:x", "!", "&", ":a", "!:a")), okO(), okA())
	case "empty target":
		bad = rule(pick(t, "ARGS||ARGS", "|ARGS", "ARGS|", "ARGS,,ARGS", "ARGS|!ARGS:a|", ",", "|"), okO(), okA())
	case "operator":
		bad = rule(okT(), pick(t, "", "!")+pick(t, "@foo x", "@", "@ rx a", "@rxx a", "@r a", "@pm a b c", "@contains x", "@eqq 1"), okA())
	case "regex":
		bad = rule(okT(), pick(t, "@rx ", "!@rx ", "")+pick(t, "(", "[", "a)", "a**", "(?<x)", "x{2,1}", "[z-a]", "a(b", "\\", "(?i", "\\8", "[[:foo:]]"), okA())
	case "number":
		bad = rule(okT(), pick(t, "", "!")+"@"+pick(t, "eq", "ge", "gt", "le", "lt")+pick(t, " a", " 1x", " 1.5", "", " ", " 0x1", " 1 2", " 99999999999999999999", " --1"), okA())
	case "action":
		bad = rule(okT(), okO(), withA(pick(t, word(), "denyy", "Den", "foo:bar", "", " ", "den", "statu:403", "idd:1", "\u00a0deny", "deny\u2003", "\u0085", "log\u3000")))
	case "unimplemented":
		bad = rule(okT(), okO(), withA(pick(t, "capture", "setvar:tx.a=1", "setvar:'tx.a=1'", "logdata:'x'", "logdata:x")))
		if chance(t, 1, 4) {
			bad = rule(withT(pick(t, "XML", "XML:/*", "!XML", "&XML")), okO(), okA())
		}
	case "transformation":
		bad = rule(okT(), okO(), withA("t:"+pick(t, "foo", "", "lowercas", "lowercasee", "base64Decode", "''")))
	case "phase":
		bad = rule(okT(), okO(), withA("phase:"+pick(t, "0", "6", "-1", "7", "x", "", "1.0", "99999999999999999999", "req", "'0'", "2x", "'2", "2'", "'", "\"", "1 2", "1_0", "''", "\u00a02", "2\u2003")))
	case "id":
		bad = rule(okT(), okO(), withA("id:"+pick(t, "x", "", "1x", "0x1", "99999999999999999999", "1.5", "''", "'1", "1'", "'", "\"", "1 2", "1_000", "1,2", "1e3", "\u00a01", "1\u0085")))
	case "status":
		bad = rule(okT(), okO(), withA("status:"+pick(t, "x", "", "40x", "4 0", "99999999999999999999", "''", "'403", "403'", "'", "\"", "4_03", "0x193")))
	case "skip":
		bad = rule(okT(), okO(), withA("skip:"+pick(t, "x", "0", "-1", "1x", "99999999999999999999", "'0'", "'1", "1'", "'", "\"", "1 2", "1_0", "''")))
	case "allow":
		bad = rule(okT(), okO(), withA("allow:"+pick(t, "x", "phases", "reques", "all", "'x'", "response")))
	case "severity":
		bad = rule(okT(), okO(), withA("severity:"+pick(t, "x", "", "8", "-1", "CRIT", "''", "10", "99999999999999999999", "'1", "1'", "'", "\"", "'CRITICAL", "critical", "1 2")))
	case "selector":
		bad = rule(withT(pick(t, "ARGS:/(/", "!ARGS:/[/", "!REQUEST_COOKIES:/(/", "!ARGS_POST_NAMES:/[z-a]/", "REQUEST_HEADERS:/a**/", "&ARGS:/)/", "ARGS_NAMES:/x{2000}/", "REQUEST_COOKIES:/[z-a]/", "ARGS_GET:/[/|!ARGS_GET", "!ARGS|ARGS:/(/")), okO(), okA())
	case "unfinished":
		q := pick(t, "\"", "'")
		bad = "SecRule ARGS @rx\\ a " + q + "id:1,deny"
		after = nil
		c.Docs = before
		c.Text = B(writeDocs(layout{}, before) + bad)
		return c
	case "line break":
		q := pick(t, "\"", "'")
		bad = "SecRule ARGS " + q + "@rx a"
		if chance(t, 1, 20) { // far down
			bad = strings.Repeat("\n", bigSize(t, 2000)) + bad
		}
		if chance(t, 1, 3) { // right after a line that is continued
			bad += pick(t, "\\\n", "\\\r\n", "\\\n\\\n") + pick(t, "", "", " ", "b")
		}
		bad += pick(t, "\n", "\r\n", "\r\r", "\n\r") + "b" + q + " " + q + "id:1,deny" + q
	case "stray":
		bad = pick(t, "{", "}", "\"SecRuleEngine On\"", "123", "<IfModule>", "#", "=", "\\", ",", "é", "-", "_", "\xef\xbb\xbf", "\ufeff\ufeff", "\xff\xfe", "\u00a0", "\u2028", "\x85", "\x1a", "\x1b", "\x7f", "\x01", ";", "//", "/*", "--", "'", "%", "$", "@", "&", "(")
		if chance(t, 1, 3) { // any byte that is neither blank nor the beginning of a word
			for b := byte(0); ; {
				b = anyByte.Draw(t, "stray")
				if b != 0 && !strings.ContainsRune(" \t\n\v\f\r\"'\\", rune(b)) && !(b|32 >= 'a' && b|32 <= 'z') {
					bad = string([]byte{b})
					break
				}
			}
		}
		if chance(t, 1, 2) { // after a directive, on its line
			bad = "SecRuleEngine On " + bad
		}
	}
	c.Docs = before
	c.Text = B(writeDocs(layout{t}, before) + "\n" + bad + "\n" + writeDocs(layout{t}, after))
	return c
}

var secTokens = []string{"SecRule", "SecRuleEngine", "SecRequestBodyAccess", "SecResponseBodyAccess", "secrule", "SecHostNote", "SecHostMode", " ", " ", " ", "\t", "\n", "\r\n", "\r", "\\\n", "\\\r\n", "\\", "\"", "'", "ARGS", "REQUEST_URI", "|", ",", "!", "&", ":", ".", "@rx", "@eq", "@", "a", "1", "(", "[a]", "/x/", "id:1", "phase:2", "deny", "log", "chain", "t:lowercase", "msg:'a,b'", "tag:\\\"x\\\"", "skip:2", "allow:phase", "On", "Off", "DetectionOnly", "\x00", "\xff", "é", "\v", "\f", "#", "severity:CRITICAL", "status:403", "XML:/*", "capture", "msg:'", "id:'", "status:\\\"", "t:'lowercase'", "severity:''", "phase:'", "skip:\\'", "allow:'", "tag:,"}

func genRaw(t *rapid.T) *RawCase {
	c := &RawCase{}
	mutant := func() string {
		s := writeDocs(layout{t}, genDocs(t, 1, 2, 10, [2]int{1, 10}))
		for n := intn(t, 0, 3); n > 0 && len(s) > 0; n-- {
			i := intn(t, 0, len(s)-1)
			j := i + intn(t, 0, 6)
			if j > len(s) {
				j = len(s)
			}
			switch intn(t, 0, 5) {
			case 0:
				s = s[:i]
			case 1:
				s = s[:i] + s[j:]
			case 2:
				s = s[:i] + pick(t, secTokens...) + s[i:]
			case 3:
				s = s[:j] + s[i:j] + s[j:]
			case 4:
				s = s[:i] + string([]byte{anyByte.Draw(t, "b")}) + s[i+1:]
			default:
				k := intn(t, 0, len(s)-1)
				s = s[:i] + s[k:]
			}
		}
		return s
	}
	gen := func() (string, string) {
		switch intn(t, 0, 9) {
		case 0:
			return rawBytes(t, 60), "bytes"
		case 1, 2, 3:
			return pieces(t, 25, secTokens...), "tokens"
		case 4: // a single rule made of tokens
			return "SecRule " + pick(t, "ARGS", "\"ARGS|!ARGS:a\"", pieces(t, 4, secTokens...)) + " " + pick(t, "\"@rx a\"", "a", pieces(t, 4, secTokens...)) + " " + pick(t, "\"id:1,phase:2,deny\"", "deny", pieces(t, 8, secTokens...)), "rule of tokens"
		case 5:
			return writeDocs(layout{t}, genDocs(t, 1, 3, 30, [2]int{1, 10})), "valid"
		default:
			return mutant(), "mutant"
		}
	}
	var text string
	text, c.Kind = gen()
	if chance(t, 1, 100) { // larger than any buffer
		n := bigSize(t, 20000)
		if chance(t, 1, 8) {
			n = pick(t, huge...)
		}
		text = strings.Repeat(text+"\n", 1+n/(len(text)+1))
		c.Kind = "long " + c.Kind
	} else if chance(t, 1, 600) { // one rule of which a part goes on and on
		n := bigSize(t, 20000)
		if chance(t, 1, 6) {
			n = pick(t, 100000, 200000, 300000)
		}
		part := [3]string{"ARGS", "@rx a", "id:1,phase:2,deny"}
		which := pick(t, 2, 2, 0, 1)
		unit := pick(t, "msg:'a,", "tag:'a',", "log,", "msg:'a'x,", "tag:' ' ,", "t:none,", "ARGS|", "!ARGS:a|", "a|", " ", "\\\n", "'", ",", "x", "\\'")
		if chance(t, 1, 2) {
			unit = pieces(t, 3, secTokens...) + pick(t, ",", "|", "")
		}
		long := strings.Repeat(unit, 1+n/(len(unit)+1))
		part[which] = pick(t, long+part[which], part[which]+","+long, part[which]+long)
		text = "SecRule"
		for _, p := range part {
			text += " \"" + p + "\""
		}
		c.Kind = "long part"
	}
	c.Text = B(text)
	if chance(t, 1, 2) {
		m, _ := gen()
		c.More = B(m)
	} else {
		c.More = B(writeDocs(layout{t}, genDocs(t, 1, 2, 2, [2]int{1, 10})))
	}
	c.Steps = []int{1}
	if len(text) > 2000 {
		c.Steps = []int{4095}
	}
	c.Steps = append(c.Steps, intn(t, 2, 200))
	c.Fault = len(text)
	if chance(t, 1, 2) {
		c.Err = intn(t, 0, len(readErrors)-1)
	}
	if chance(t, 2, 3) {
		c.Fault = intn(t, 0, len(text))
		if i := strings.IndexByte(text[c.Fault:], '\\'); i >= 0 && chance(t, 1, 3) {
			c.Fault += i + 1
		}
	}
	return c
}

func init() {
	register(Prop{ID: "C09", Quick: 250000, Thorough: 5000000,
		Rule: "1-3, now and then 30, directives, those of a host among them, are generated as data and written one or more times with a random layout (quotes, escapes, continued lines, LF, CRLF and CR, blanks, blank lines, letter case of directives, separators); parsing every text, as a whole and directive by directive from a slow reader, must give the generated directives. Non-trivial: there is a rule among them."},
		genLayout, checkLayout)
	register(Prop{ID: "C10", Quick: 240000, Thorough: 3000000,
		Rule: "Random bytes, sequences of SecLang tokens, valid texts and mutants of valid texts are parsed as a whole, from readers that give little, nothing or the end of the input together with data, from a reader that fails at a random offset, and followed by a second text; what loads is run on a transaction. Non-trivial: the text is rejected, or has directives."},
		genRaw, checkRaw)
	register(Prop{ID: "C11", Quick: 200000, Thorough: 5000000,
		Rule: "1-3 texts of generated directives in random layouts are loaded one after the other, into one set, or as one text; every rule (id, phase, order, chain, targets, transformations, operator, operand, negation, actions with arguments, metadata) and every setting of the engine is compared with the generated data. Non-trivial: there is a rule among them."},
		genLoad, checkLoad)
	register(Prop{ID: "C12", Quick: 300000, Thorough: 5000000,
		Rule: "A text of generated directives with one fault of 20 kinds at a random place is loaded alone and into a set that already has directives: both must fail, and the set must then do what it did before. Every case is non-trivial."},
		genBad, checkBad)
}
