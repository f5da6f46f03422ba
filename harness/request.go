package main

// Transactions as data: what a host feeds, and what the variables of the rule
// language then stand for.

import (
	"fmt"
	"mime"
	"net/http"
	"net/url"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	ms "github.com/senghoo/modsecurity-go/modsecurity"
	"github.com/senghoo/modsecurity-go/modsecurity/variables"
	"github.com/senghoo/modsecurity-go/seclang"
	"pgregory.net/rapid"
)

type Hdr struct {
	K B   `json:"k"`
	V []B `json:"v"`
}

type Part struct {
	Name B    `json:"name"`
	File B    `json:"file,omitempty"`
	Is   bool `json:"isfile,omitempty"`
	CT   B    `json:"ct,omitempty"`
	Val  B    `json:"val"`
}

// Tx is a whole transaction.
type Tx struct {
	Src, SrcPort, Dst, DstPort B
	Method, Proto              B
	NoURL                      bool `json:",omitempty"`
	Scheme, Host               B    `json:",omitempty"`
	Path, RawPath, Query       B
	Force                      bool `json:",omitempty"` // there is a question mark, even if nothing follows it
	Hdrs                       []Hdr
	CT                         B      // content type of the request, "" for none
	CTKey                      B      `json:",omitempty"` // how the host writes the name of the header
	Body                       B      // request body
	Parts                      []Part `json:",omitempty"` // what a multipart body was made from
	Chunks                     []int  // sizes in which the body is handed over
	ReqAccess, ResAccess       bool
	Mem, Limit                 int64
	Code                       int
	ResProto                   B
	ResHdrs                    []Hdr
	ResBody                    B
	ResChunks                  []int
	Twice                      []string `json:",omitempty"` // steps in which the host first hands over what Early has
	Early                      *Tx      `json:",omitempty"`
	URLFirst                   bool     `json:",omitempty"` // the url is known before the connection is reported
	URLLate                    string   `json:",omitempty"` // the step after which the url of Early is replaced
}

// twice tells whether the host corrects what it handed over in a step.
func (x *Tx) twice(step string) bool {
	for _, s := range x.Twice {
		if s == step {
			return x.Early != nil
		}
	}
	return false
}

// weight is about how many bytes the transaction has.
func (x *Tx) weight() int {
	n := len(x.Body) + len(x.ResBody) + len(x.Query) + len(x.Path)
	for _, hs := range [][]Hdr{x.Hdrs, x.ResHdrs} {
		for _, h := range hs {
			n += len(h.K) + 20
			for _, v := range h.V {
				n += len(v) + 10
			}
		}
	}
	return n
}

func header(hs []Hdr) http.Header {
	h := http.Header{}
	for _, x := range hs {
		h[string(x.K)] = append(h[string(x.K)], strs(x.V)...)
	}
	return h
}

func (x *Tx) header() http.Header {
	h := header(x.Hdrs)
	if x.CT != "" {
		k := string(x.CTKey)
		if k == "" {
			k = "Content-Type"
		}
		h[k] = []string{string(x.CT)}
	}
	return h
}

func (x *Tx) url() *url.URL {
	if x.NoURL {
		return nil
	}
	return &url.URL{Scheme: string(x.Scheme), Host: string(x.Host), Path: string(x.Path), RawPath: string(x.RawPath), RawQuery: string(x.Query), ForceQuery: x.Force, User: user(x.Host)}
}

func user(host B) *url.Userinfo {
	if host == "" {
		return nil
	}
	return url.UserPassword("u", "p")
}

func (x *Tx) engine() *ms.Engine {
	e := ms.NewEngine()
	e.TmpPath = scratch()
	e.RequestBodyAccess = x.ReqAccess
	e.ResponseBodyAccess = x.ResAccess
	if x.Mem > 0 {
		e.RequestBodyInMem = x.Mem
	}
	if x.Limit > 0 {
		e.RequestBody = x.Limit
	}
	if n := int64(len(x.ResBody)); n > e.ResponseBody {
		e.ResponseBody = n
	}
	return e
}

func chunked(body string, sizes []int, f0 func([]byte)) {
	f := func(p []byte) {
		was := string(p)
		f0(p)
		if string(p) != was {
			panic("the bytes of the host were changed")
		}
		for i := range p { // the host may use its memory again
			p[i] = '#'
		}
	}
	for _, n := range sizes {
		if n > len(body) {
			n = len(body)
		}
		f([]byte(body[:n]))
		body = body[n:]
	}
	if len(body) > 0 {
		f([]byte(body))
	}
}

// host calls, one after the other
var txSteps = []string{"conn", "url", "reqhdr", "body", "reqbody", "reshdr", "resappend", "resbody", "log"}

func (x *Tx) step(tr *ms.Transaction, step string) { x.hand().step(tr, step) }

// handed is what a host hands over, and keeps.
type handed struct {
	x        *Tx
	u        *url.URL
	req, res http.Header
}

func (x *Tx) hand() *handed { return &handed{x, x.url(), x.header(), header(x.ResHdrs)} }

// kept tells whether all of it is still as it was.
func (h *handed) kept() error {
	if u := h.x.url(); u != nil && !reflect.DeepEqual(*u, *h.u) {
		return fmt.Errorf("the url of the host is now %#v, was %#v", *h.u, *u)
	}
	if w := h.x.header(); !reflect.DeepEqual(w, h.req) {
		return fmt.Errorf("the request headers of the host are now %q, were %q", h.req, w)
	}
	if w := header(h.x.ResHdrs); !reflect.DeepEqual(w, h.res) {
		return fmt.Errorf("the response headers of the host are now %q, were %q", h.res, w)
	}
	return nil
}

func (h *handed) step(tr *ms.Transaction, step string) {
	x := h.x
	if step == "conn" && x.URLFirst {
		if x.twice("url") {
			x.Early.step(tr, "url")
		} else {
			h.step(tr, "url")
		}
	}
	if x.twice(step) {
		x.Early.step(tr, step)
	}
	if x.URLLate == step {
		defer tr.ProcessRequestURL(h.u, string(x.Method), string(x.Proto))
	}
	switch step {
	case "conn":
		tr.ProcessConnection(string(x.Src), string(x.SrcPort), string(x.Dst), string(x.DstPort))
	case "url":
		if x.URLLate != "" {
			return
		}
		tr.ProcessRequestURL(h.u, string(x.Method), string(x.Proto))
	case "reqhdr":
		tr.ProcessRequestHeader(h.req)
	case "body":
		chunked(string(x.Body), x.Chunks, func(p []byte) {
			if err := tr.AppendRequestBody(p); err != nil {
				panic(fmt.Sprintf("request body of %d bytes not accepted: %v", len(x.Body), err))
			}
		})
	case "reqbody":
		tr.ProcessRequestBody()
	case "reshdr":
		tr.ProcessResponseHeaders(x.Code, string(x.ResProto), h.res)
	case "resappend":
		chunked(string(x.ResBody), x.ResChunks, func(p []byte) {
			if err := tr.AppendResponseBody(p); err != nil {
				panic(fmt.Sprintf("response body of %d bytes not accepted: %v", len(x.ResBody), err))
			}
		})
	case "resbody":
		tr.ProcessResponseBody()
	case "log":
		tr.ProcessLogging()
	default:
		panic(&harnessError{fmt.Errorf("step %s", step)})
	}
}

func closeTx(tr *ms.Transaction) {
	tr.Request.Body.Close()
	tr.Response.Body.Close()
}

// ---- what the variables stand for

var collections = map[string]bool{}
var varNames []string

func init() {
	for n := range newVariable {
		varNames = append(varNames, n)
	}
	varNames = sorted(varNames)
	for _, n := range []string{"ARGS", "ARGS_NAMES", "ARGS_GET", "ARGS_GET_NAMES", "ARGS_POST", "ARGS_POST_NAMES", "REQUEST_COOKIES", "REQUEST_COOKIES_NAMES", "REQUEST_HEADERS", "REQUEST_HEADERS_NAMES", "RESPONSE_HEADERS", "RESPONSE_HEADERS_NAMES"} {
		collections[n] = true
	}
}

var newVariable = map[string]func() ms.Variable{
	"ARGS": variables.NewVariableArgs, "ARGS_NAMES": variables.NewVariableArgsNames,
	"ARGS_GET": variables.NewVariableArgsGet, "ARGS_GET_NAMES": variables.NewVariableArgsGetNames,
	"ARGS_POST": variables.NewVariableArgsPost, "ARGS_POST_NAMES": variables.NewVariableArgsPostNames,
	"QUERY_STRING": variables.NewVariableQueryString, "REMOTE_ADDR": variables.NewVariableRemoteAddr,
	"REQUEST_BASENAME": variables.NewVariableRequestBasename, "REQUEST_BODY": variables.NewVariableRequestBody,
	"REQUEST_COOKIES": variables.NewVariableRequestCookies, "REQUEST_COOKIES_NAMES": variables.NewVariableRequestCookiesNames,
	"REQUEST_FILENAME": variables.NewVariableRequestFilename, "REQUEST_HEADERS": variables.NewVariableRequestHeaders,
	"REQUEST_HEADERS_NAMES": variables.NewVariableRequestHeadersNames, "REQUEST_METHOD": variables.NewVariableRequestMethod,
	"REQUEST_PROTOCOL": variables.NewVariableRequestProtocol, "REQUEST_URI": variables.NewVariableRequestURI,
	"RESPONSE_BODY": variables.NewVariableResponseBody, "RESPONSE_CONTENT_LENGTH": variables.NewVariableResponseContentLength,
	"RESPONSE_CONTENT_TYPE": variables.NewVariableResponseContentType, "RESPONSE_HEADERS": variables.NewVariableResponseHeaders,
	"RESPONSE_HEADERS_NAMES": variables.NewVariableResponseHeadersNames, "RESPONSE_PROTOCOL": variables.NewVariableResponseProtocol,
	"RESPONSE_STATUS": variables.NewVariableResponseStatus,
}

func hdrPairs(h http.Header) []KV {
	var res []KV
	for k, vs := range h {
		for _, v := range vs {
			res = append(res, KV{B(k), B(v)})
		}
	}
	return res
}

func hdrNames(h http.Header) []KV {
	var res []KV
	for k := range h {
		res = append(res, KV{B(k), B(k)})
	}
	return res
}

func names(kvs []KV) []KV {
	seen := map[B]bool{}
	var res []KV
	for _, kv := range kvs {
		if !seen[kv.K] {
			seen[kv.K] = true
			res = append(res, KV{kv.K, kv.K})
		}
	}
	return res
}

func (x *Tx) cookies() []KV {
	var res []KV
	for _, h := range x.Hdrs {
		if !strings.EqualFold(string(h.K), "Cookie") {
			continue
		}
		for _, line := range h.V {
			for _, c := range strings.Split(string(line), ";") {
				c = strings.Trim(c, asciiSpace)
				if c == "" {
					continue
				}
				nv := strings.SplitN(c, "=", 2)
				v := ""
				if len(nv) == 2 {
					v = nv[1]
				}
				res = append(res, KV{B(nv[0]), B(v)})
			}
		}
	}
	return res
}

func (x *Tx) inspectsBody() string {
	if !x.ReqAccess || len(x.Body) == 0 {
		return ""
	}
	switch x.Method {
	case "POST", "PUT", "PATCH":
	default:
		return ""
	}
	ct := strings.ToLower(strings.Trim(strings.SplitN(string(x.CT), ";", 2)[0], " \t"))
	switch {
	case ct == "application/x-www-form-urlencoded":
		return "urlencoded"
	case strings.HasPrefix(ct, "multipart/"):
		return "multipart"
	}
	return ""
}

func (x *Tx) argsPost() []KV {
	switch x.inspectsBody() {
	case "urlencoded":
		return refQuery(string(x.Body))
	case "multipart":
		var res []KV
		for _, p := range x.Parts {
			if !p.Is && p.Name != "" {
				res = append(res, KV{p.Name, p.Val})
			}
		}
		return res
	}
	return nil
}

func refBasename(p string) string {
	f := strings.FieldsFunc(p, func(r rune) bool { return r == '/' || r == '\\' })
	if len(f) == 0 {
		return "/"
	}
	return f[len(f)-1]
}

// members gives what a variable holds at the end of the transaction, with the
// names by which members are selected.
func (x *Tx) members(name string) []KV {
	one := func(s string) []KV { return []KV{{"", B(s)}} }
	switch name {
	case "ARGS_GET", "ARGS_GET_NAMES", "ARGS", "ARGS_NAMES", "ARGS_POST", "ARGS_POST_NAMES":
		var get, post []KV
		if !x.NoURL {
			get = refQuery(string(x.Query))
		}
		post = x.argsPost()
		switch name {
		case "ARGS_GET":
			return get
		case "ARGS_GET_NAMES":
			return names(get)
		case "ARGS_POST":
			return post
		case "ARGS_POST_NAMES":
			return names(post)
		case "ARGS":
			return append(append([]KV{}, get...), post...)
		}
		return append(names(get), names(post)...)
	case "QUERY_STRING", "REQUEST_URI", "REQUEST_FILENAME", "REQUEST_BASENAME":
		if x.NoURL {
			return nil
		}
		switch name {
		case "QUERY_STRING":
			return one(string(x.Query))
		case "REQUEST_FILENAME":
			return one(string(x.Path))
		case "REQUEST_BASENAME":
			return one(refBasename(string(x.Path)))
		}
		u := (&url.URL{Path: string(x.Path), RawPath: string(x.RawPath)}).EscapedPath()
		if x.Query != "" || x.Force {
			u += "?" + string(x.Query)
		}
		return one(u)
	case "REMOTE_ADDR":
		return one(string(x.Src))
	case "REQUEST_BODY":
		if x.inspectsBody() == "urlencoded" {
			return one(string(x.Body))
		}
		return nil
	case "REQUEST_COOKIES":
		return x.cookies()
	case "REQUEST_COOKIES_NAMES":
		return names(x.cookies())
	case "REQUEST_HEADERS":
		return hdrPairs(x.header())
	case "REQUEST_HEADERS_NAMES":
		return hdrNames(x.header())
	case "REQUEST_METHOD":
		return one(string(x.Method))
	case "REQUEST_PROTOCOL":
		return one(string(x.Proto))
	case "RESPONSE_BODY":
		if x.ResAccess && x.ResBody != "" {
			return one(string(x.ResBody))
		}
		return nil
	case "RESPONSE_HEADERS":
		return hdrPairs(header(x.ResHdrs))
	case "RESPONSE_HEADERS_NAMES":
		return hdrNames(header(x.ResHdrs))
	case "RESPONSE_PROTOCOL":
		return one(string(x.ResProto))
	case "RESPONSE_STATUS":
		return one(strconv.Itoa(x.Code))
	case "RESPONSE_CONTENT_LENGTH":
		for _, h := range x.ResHdrs {
			if strings.EqualFold(string(h.K), "Content-Length") && len(h.V) > 0 && h.V[0] != "" {
				return one(string(h.V[0]))
			}
		}
		return one("0")
	case "RESPONSE_CONTENT_TYPE":
		for _, h := range x.ResHdrs {
			if strings.EqualFold(string(h.K), "Content-Type") && len(h.V) > 0 && h.V[0] != "" {
				return one(strings.ToLower(strings.Trim(strings.SplitN(string(h.V[0]), ";", 2)[0], " \t")))
			}
		}
		return one("application/octet-stream")
	}
	panic("members " + name)
}

// Target is one entry of the target list of a rule.
type Target struct {
	Var  string `json:"var"`
	Sel  B      `json:"sel,omitempty"`
	Excl bool   `json:"excl,omitempty"`
	Cnt  bool   `json:"cnt,omitempty"`
	More []B    `json:"more,omitempty"` // further names and patterns, given through the Go API
}

func (t Target) selects(k string, fold bool) bool {
	for _, s := range append([]B{t.Sel}, t.More...) {
		if selects(string(s), k, fold) {
			return true
		}
	}
	return false
}

func (t Target) String() string {
	s := t.Var
	if t.Sel != "" {
		s += ":" + string(t.Sel)
	}
	if t.Excl {
		return "!" + s
	}
	if t.Cnt {
		return "&" + s
	}
	return s
}

func foldsCase(v string) bool {
	return strings.HasPrefix(v, "REQUEST_HEADERS") || strings.HasPrefix(v, "RESPONSE_HEADERS")
}

// values gives what a target list selects: every listed target, less what is
// excluded from the variable of that name.
func (x *Tx) values(ts []Target) []string {
	var res []string
	for _, t := range ts {
		if t.Excl {
			continue
		}
		var vals []string
	members:
		for _, m := range x.members(t.Var) {
			fold := foldsCase(t.Var)
			if t.Sel != "" && collections[t.Var] && !t.selects(string(m.K), fold) {
				continue
			}
			if !t.Cnt {
				for _, ex := range ts {
					if ex.Excl && ex.Var == t.Var && (ex.Sel == "" || selects(string(ex.Sel), string(m.K), fold)) {
						continue members
					}
				}
			}
			vals = append(vals, string(m.V))
		}
		if t.Cnt {
			vals = []string{strconv.Itoa(len(vals))}
		}
		res = append(res, vals...)
	}
	return res
}

// seclangSafe tells whether the selector may stand in a target list of SecLang
// text as it is.
func (t Target) seclangSafe() bool {
	return len(t.More) == 0 && !strings.ContainsAny(string(t.Sel), ",|")
}

func utf8OK(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < 0x20 || s[i] > 0x7e {
			return false
		}
	}
	return true
}

// loadTargets makes a rule that selects the targets, from SecLang or, for a
// list without exclusions of whole variables, with the Go API.
func loadTargets(ts []Target, phase int, useSecLang bool) *ms.SecRule {
	if useSecLang {
		var parts []string
		for _, t := range ts {
			parts = append(parts, t.String())
		}
		text := fmt.Sprintf("SecRule %s \"@rx x\" \"id:1,phase:%d,log\"\n", layout{}.arg(strings.Join(parts, "|")), phase)
		ds, err := seclang.NewDireSetFromSecLangString(text)
		if err != nil {
			panic(fmt.Sprintf("rule does not load: %v\n%s", err, text))
		}
		e := ms.NewEngine()
		if err := ds.Execute(e); err != nil {
			panic(fmt.Sprintf("rule does not load: %v\n%s", err, text))
		}
		rules := e.RuleSet.Phases[phase]
		if len(rules) != 1 {
			panic(fmt.Sprintf("%d rules in phase %d\n%s", len(rules), phase, text))
		}
		rules[0].Actions = nil
		return rules[0]
	}
	r := ms.NewSecRule()
	r.Phase = phase
	var vs []ms.Variable
	for _, t := range ts {
		if t.Excl {
			continue
		}
		v := newVariable[t.Var]()
		if t.Sel != "" {
			for _, s := range append([]B{t.Sel}, t.More...) {
				if err := v.Include(string(s)); err != nil {
					panic(fmt.Sprintf("selector %q: %v", s, err))
				}
			}
		}
		if t.Cnt {
			v = variables.NewCountVariable(v)
		} else {
			dropped := false
			for _, ex := range ts {
				if ex.Excl && ex.Var == t.Var {
					if ex.Sel == "" {
						dropped = true
						break
					}
					if err := v.Exclude(string(ex.Sel)); err != nil {
						panic(fmt.Sprintf("selector %q: %v", ex.Sel, err))
					}
				}
			}
			if dropped {
				continue
			}
		}
		vs = append(vs, v)
	}
	give(len(ts)%4, r.AppendVariables, vs)
	return r
}

// collector is an operator that notes what it is asked about.
type collector struct{ index int }

const collectKey = "verif-collect"

func (*collector) Name() string { return "collect" }
func (*collector) Args() string { return "" }
func (c *collector) Match(tr *ms.Transaction, s string) bool {
	if m, ok := tr.Data[collectKey].(map[int][]string); ok {
		m[c.index] = append(m[c.index], s)
	}
	return false
}

// ---- generators

var argNames = []string{"a", "b", "c", "A", "ab", "a1", "b2", "foo", "Foo", "id", "x-y", "q", "", "a.b", "a b", "user", "token", "a[0]", "é"}

func genName(t *rapid.T) string {
	if chance(t, 1, 6) {
		return maybeLong(t, 3000, func() string { return text(t, 5) })
	}
	return pick(t, argNames...)
}

func genValue(t *rapid.T) string {
	return maybeLong(t, 20000, func() string { return text(t, 8) })
}

// enc writes s urlencoded, with a choice for every byte.
func enc(t *rapid.T, s string) string {
	const hexl, hexu = "0123456789abcdef", "0123456789ABCDEF"
	if len(s) > 200 { // long strings repeat, one style will do
		return url.QueryEscape(s)
	}
	style := intn(t, 0, 3)
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		plain := c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || strings.IndexByte("-_.~!*'():@/;,?[]<>{}|^`\\\"", c) >= 0 || c > 0x7e
		switch {
		case c == ' ' && style != 2:
			sb.WriteByte('+')
		case plain && style == 0, plain && style == 3 && rapid.Bool().Draw(t, "raw"):
			sb.WriteByte(c)
		case style == 1:
			sb.WriteString(string([]byte{'%', hexu[c>>4], hexu[c&15]}))
		default:
			sb.WriteString(string([]byte{'%', hexl[c>>4], hexl[c&15]}))
		}
	}
	return sb.String()
}

// genQuery draws an urlencoded parameter list. truth is what it was made from,
// or nil if it has malformed parts.
func genQuery(t *rapid.T, most int) (raw string, truth []KV) {
	if chance(t, 1, 4) {
		return pieces(t, 14, "a", "b", "=", "&", "%", "4", "1", "%41", "%3d", "%26", "+", ";", "%zz", "%u0041", "foo", "%00", "#", "%2", "A", "é", "\xff", "\n", "\r", " ", "\t", "\x00", "%0a", "%0D"), nil
	}
	var parts []string
	for n := many(t, 0, most, most*10, 300); n > 0; n-- {
		k, v := genName(t), genValue(t)
		truth = append(truth, KV{B(k), B(v)})
		p := enc(t, k) + "=" + enc(t, v)
		if v == "" && k != "" && chance(t, 1, 2) {
			p = enc(t, k)
		}
		parts = append(parts, p)
		if chance(t, 1, 15) {
			parts = append(parts, "")
		}
	}
	for n := lots(t, 20000); n > 0; n-- {
		k, v := fmt.Sprintf("p%d", n%3000), strconv.Itoa(n)
		truth = append(truth, KV{B(k), B(v)})
		parts = append(parts, k+"="+v)
	}
	return strings.Join(parts, "&"), truth
}

var hdrNamesGen = []string{"Host", "User-Agent", "Accept", "X-Forwarded-For", "Referer", "X-A", "X-B", "Content-Length", "Authorization", "Accept-Encoding", "X-Requested-With"}

func genHdrs(t *rapid.T, most int) []Hdr {
	var res []Hdr
	seen := map[string]bool{}
	for n := many(t, 0, most, most*8, 300); n > 0; n-- {
		k := pick(t, hdrNamesGen...)
		if chance(t, 1, 3) {
			k = http.CanonicalHeaderKey("x-" + string(rapid.SliceOfN(rapid.SampledFrom([]byte("abcxyz019-")), 1, 6).Draw(t, "name")))
		}
		if chance(t, 1, 10) { // as HTTP/2 has them, or as a host wrote them
			k = pick(t, strings.ToLower(k), strings.ToUpper(k), k+"_x", k+" ")
			if chance(t, 1, 3) {
				k = maybeLong(t, 5000, func() string { return text(t, 8) })
			}
		}
		c := http.CanonicalHeaderKey(k)
		if seen[k] || c == "Cookie" || c == "Content-Type" || c == "Content-Length" && seen[c] {
			continue
		}
		seen[k] = true
		if c == "Content-Length" {
			seen[c] = true
		}
		h := Hdr{K: B(k)}
		for m := many(t, 1, 3, 12, 100); m > 0; m-- {
			h.V = append(h.V, B(genValue(t)))
		}
		res = append(res, h)
	}
	if n := lots(t, 5000); n > 0 {
		h := Hdr{K: "X-Many"}
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				h.V = append(h.V, B(strconv.Itoa(i)))
			} else {
				res = append(res, Hdr{K: B(fmt.Sprintf("X-N%d", i)), V: []B{B(strconv.Itoa(i))}})
			}
		}
		res = append(res, h)
	}
	return res
}

func genCookies(t *rapid.T) []Hdr {
	var lines []B
	for n := count(t, 0, 2, 5); n > 0; n-- {
		var cs []string
		for m := many(t, 0, 4, 40, 300); m > 0; m-- {
			clean := func(s string) string {
				return strings.Trim(strings.Replace(s, ";", "", -1), asciiSpace)
			}
			k, v := clean(strings.Replace(genName(t), "=", "", -1)), clean(genValue(t))
			c := k + "=" + v
			if v == "" && chance(t, 1, 2) {
				c = k
			}
			cs = append(cs, c)
		}
		for m := lots(t, 5000); m > 0; m-- {
			cs = append(cs, fmt.Sprintf("k%d=%d", m%1000, m))
		}
		line := strings.Join(cs, pick(t, "; ", ";", " ;  ", ";\t"))
		line += pick(t, "", ";", "; ", " ")
		lines = append(lines, B(line))
	}
	if len(lines) == 0 {
		return nil
	}
	if chance(t, 1, 8) { // the host does not canonicalize the names
		n := intn(t, 0, len(lines))
		return []Hdr{{K: B(pick(t, "cookie", "COOKIE")), V: lines[:n]}, {K: B(pick(t, "Cookie", "cOOkie")), V: lines[n:]}}
	}
	return []Hdr{{K: "Cookie", V: lines}}
}

func genChunks(t *rapid.T, n int) []int {
	if n == 0 {
		return nil
	}
	var res []int
	switch intn(t, 0, 4) {
	case 0: // all at once
	case 1: // byte by byte, up to a bound
		for i := 0; i < n && i < 300; i++ {
			res = append(res, 1)
		}
	default:
		for i := intn(t, 1, 8); i > 0; i-- {
			res = append(res, intn(t, 0, n))
		}
	}
	return res
}

func genPath(t *rapid.T, x *Tx) {
	segs := count(t, 0, 4, 30)
	var path, raw strings.Builder
	for i := 0; i < segs; i++ {
		sep := "/"
		if i > 0 && chance(t, 1, 10) {
			sep = pick(t, "//", "\\")
		}
		s := pick(t, "a", "index.php", "etc", "..", ".", "", "A", "admin", "a b", "é", "%", "x;y", "cgi-bin", "a.b.c", "login.jsp")
		if chance(t, 1, 6) {
			s = strings.Replace(maybeLong(t, 5000, func() string { return text(t, 6) }), "/", "", -1)
		}
		path.WriteString(sep + s)
		if sep == "\\" {
			sep = "%5C"
		}
		raw.WriteString(sep + url.PathEscape(s))
	}
	p, r := path.String(), raw.String()
	if p == "" || chance(t, 1, 8) {
		p += "/"
		r += "/"
	}
	if chance(t, 1, 20) {
		p, r = pick(t, "/", "*", "//", "/\\", "/a//", "/a\\"), ""
	}
	x.Path = B(p)
	if chance(t, 1, 2) {
		// as the server found it in the request line, if that says the same
		if d, err := url.PathUnescape(r); err == nil && d == p {
			x.RawPath = B(r)
		}
	}
}

func genMultipart(t *rapid.T, x *Tx) {
	boundary := pick(t, "XbX", "----WebKitFormBoundary7MA4YWxkTrZu0gW", "a", "0123456789012345678901234567890123456789012345678901234567890123456789", "--", "a'()+_,-./:=?b", "a b")
	for n := many(t, 0, 4, 40, 200); n > 0; n-- {
		p := Part{Name: B(pick(t, "a", "b", "foo", "A", "id", "file", "a b", "x;y", "q=1", "é", "a[0]", "", "a.b"))}
		if chance(t, 1, 8) {
			p.Name = B(maybeLong(t, 2000, func() string { return dropBytes(printable(t, 8), "\"\\") }))
		}
		p.Val = B(genValue(t))
		if chance(t, 1, 3) {
			p.Is = true
			p.File = B(pick(t, "a.txt", "shell.php", "x", "a b.jpg", "../../x", "a;b", "é", "a=b", "name", "a, b", strings.Repeat("f", 300)))
		}
		if chance(t, 1, 4) {
			p.CT = B(pick(t, "text/plain", "application/octet-stream", "text/plain; charset=utf-8"))
		}
		if strings.Contains(string(p.Val), "--"+boundary) {
			p.Val = "v"
		}
		x.Parts = append(x.Parts, p)
	}
	if n := lots(t, 1000); n > 0 && len(x.Parts) < 50 {
		for i := 0; i < n && i < 900; i++ {
			x.Parts = append(x.Parts, Part{Name: B(fmt.Sprintf("p%d", i)), Val: B(strconv.Itoa(i)), Is: i%7 == 3, File: "f"})
		}
	}
	quote := `"` + boundary + `"`
	if !strings.ContainsAny(boundary, " ()/:=?,'") && chance(t, 1, 2) {
		quote = boundary
	}
	x.CT = B(pick(t, "multipart/form-data", "multipart/form-data", "Multipart/Form-Data", "multipart/mixed") + pick(t, "; boundary=", ";boundary=", "; Boundary=", "; charset=utf-8; boundary=") + quote)
	x.Body = B(multipartBody(x.Parts, boundary, pick(t, "", "preamble\r\n"), pick(t, "\r\n", "", "\r\nepilogue")))
}

func multipartBody(parts []Part, boundary, pre, post string) string {
	var sb strings.Builder
	sb.WriteString(pre)
	for _, p := range parts {
		sb.WriteString("--" + boundary + "\r\n")
		sb.WriteString(`Content-Disposition: form-data; name="` + string(p.Name) + `"`)
		if p.Is {
			sb.WriteString(`; filename="` + string(p.File) + `"`)
		}
		sb.WriteString("\r\n")
		if p.CT != "" {
			sb.WriteString("Content-Type: " + string(p.CT) + "\r\n")
		}
		sb.WriteString("\r\n" + string(p.Val) + "\r\n")
	}
	sb.WriteString("--" + boundary + "--" + post)
	return sb.String()
}

var urlencodedCT = []string{"application/x-www-form-urlencoded", "application/x-www-form-urlencoded", "application/x-www-form-urlencoded; charset=utf-8", "Application/X-WWW-Form-URLEncoded", "application/x-www-form-urlencoded;charset=UTF-8", " application/x-www-form-urlencoded "}
var otherCT = []string{"", "application/json", "text/plain", "text/xml; charset=utf-8", "application/octet-stream", "image/png", "application/x-www-form", "text/x-www-form-urlencoded", "multipart", "text/multipart", "x-multipart/form-data; boundary=X", "text/plain; t=application/x-www-form-urlencoded", "application/json; x=multipart/form-data", "x-application/x-www-form-urlencoded", "text/application/x-www-form-urlencoded", "application/xml+multipart/form-data", "a application/x-www-form-urlencoded"}

// parameters of content types that are malformed, which the type is not
var oddParams = []string{"; a=1; a=2", "; charset", "; =x", ";;", "; a=\"", "; a=1 b=2", "; charset=utf-8; charset=latin1", "; Charset=utf-8; charset=UTF8", "; a=\x00", "; charset=é", "; a=b, text/plain", "; a*0=x; a*0=y", "; boundary=a; boundary=b"}

type txCfg struct {
	body   [2]int // chance of a body
	gated  bool   // body often not to be inspected
	simple bool
}

func genTx(t *rapid.T, cfg txCfg) *Tx {
	x := &Tx{Src: genAddr(t), SrcPort: B(pick(t, "12345", "1", "")), Dst: "10.0.0.2", DstPort: "80"}
	x.Method = B(pick(t, "GET", "POST", "PUT", "PATCH", "POST", "HEAD", "DELETE", "OPTIONS", "get", "X"))
	if chance(t, 1, 12) {
		x.Method = B(pick(t, "post", "Post", "POST ", "POSTX", "XPUT", "PROPFIND", "M-SEARCH", "", "TRACE", "CONNECT", "PATCH\x00", maybeLong(t, 20000, func() string { return text(t, 8) })))
	}
	x.Proto = B(pick(t, "HTTP/1.1", "HTTP/1.0", "HTTP/2.0", ""))
	if chance(t, 1, 12) {
		x.Proto = B(maybeLong(t, 9000, func() string { return text(t, 10) }))
	}
	x.NoURL = chance(t, 1, 30)
	if chance(t, 1, 10) {
		x.Scheme, x.Host = B(pick(t, "http", "https")), "example.com"
	}
	if !x.NoURL {
		genPath(t, x)
		q, _ := genQuery(t, 4)
		x.Query = B(q)
		x.Force = q == "" && chance(t, 1, 3)
	}
	x.Hdrs = genHdrs(t, 4)
	x.Hdrs = append(x.Hdrs, genCookies(t)...)
	x.ReqAccess = !cfg.gated || rapid.Bool().Draw(t, "reqaccess")
	x.ResAccess = !cfg.gated || rapid.Bool().Draw(t, "resaccess")
	if chance(t, cfg.body[0], cfg.body[1]) {
		if !cfg.gated || chance(t, 1, 2) {
			x.Method = B(pick(t, "POST", "PUT", "PATCH"))
		}
		switch k := intn(t, 0, 5); {
		case k < 3:
			q, _ := genQuery(t, 4)
			x.Body = B(q)
			x.CT = B(pick(t, urlencodedCT...))
			if chance(t, 1, 8) {
				x.CT += B(pick(t, oddParams...))
			}
		case k < 5:
			genMultipart(t, x)
		default:
			x.Body = B(genValue(t))
			if chance(t, 1, 2) {
				q, _ := genQuery(t, 3)
				x.Body = B(q)
			}
			x.CT = B(pick(t, otherCT...))
		}
		x.Chunks = genChunks(t, len(x.Body))
		x.CTKey = genCTKey(t)
	}
	n := int64(len(x.Body))
	switch intn(t, 0, 3) {
	case 0: // as it comes
		if n > 100000 { // not with the default limits
			x.Mem = n
		}
	case 1: // just large enough
		if n > 0 {
			x.Mem, x.Limit = n, n
		}
	default:
		if x.inspectsBody() != "urlencoded" && n > 0 {
			x.Mem = int64(intn(t, 1, int(n))) // spills to a file
		} else if n > 100000 {
			x.Mem = n
		}
	}
	genResHead(t, x)
	if chance(t, 1, 2) {
		x.ResBody = B(genValue(t))
		x.ResChunks = genChunks(t, len(x.ResBody))
	}
	if !cfg.simple && chance(t, 1, 10) {
		genEarly(t, x)
	}
	return x
}

func genAddr(t *rapid.T) B {
	if chance(t, 1, 12) {
		return B(maybeLong(t, 9000, func() string { return text(t, 10) }))
	}
	return B(pick(t, "127.0.0.1", "10.0.0.1", "::1", "192.168.1.254", "", "2001:db8::1", "2001:DB8::0:1", "::ffff:192.0.2.1", "fe80::1%eth0", "[::1]", "010.0.0.1", "unix", "@", "a b", "%s%d%%"))
}

func genCTKey(t *rapid.T) B {
	if chance(t, 1, 8) {
		return B(pick(t, "content-type", "CONTENT-TYPE", "content-Type"))
	}
	return "Content-Type"
}

func genResHead(t *rapid.T, x *Tx) {
	x.Code = pick(t, 200, 404, 500, 302, 0, 100, 599, 201, 403, 101, 103)
	if chance(t, 1, 6) {
		x.Code = intn(t, -1, 1000)
		if chance(t, 1, 6) {
			x.Code = pick(t, 1<<31, -1<<31, 1<<62, 65536, 100000)
		}
	}
	x.ResProto = B(pick(t, "HTTP/1.1", "HTTP/1.0", "HTTP/2.0", ""))
	if chance(t, 1, 12) {
		x.ResProto = B(maybeLong(t, 9000, func() string { return text(t, 10) }))
	}
	x.ResHdrs = genHdrs(t, 4)
	if chance(t, 1, 2) {
		ct := pick(t, "text/html", "text/html; charset=utf-8", "TEXT/HTML", "application/json", "application/xhtml+xml;q=0.9", "application/vnd.openxmlformats-officedocument.wordprocessingml.document", "application/vnd.openxmlformats-officedocument.wordprocessingml.document.main+xml")
		if chance(t, 1, 8) {
			ct += pick(t, oddParams...)
		}
		if chance(t, 1, 20) {
			ct = pick(t, "text/html, text/plain", "html", "text/", "/html", "Text/HTML/x", "te xt/html", "*/*", "text/html;", "text//html")
		}
		if chance(t, 1, 25) {
			ct = "application/" + maybeLong(t, 9000, func() string { return pieces(t, 8, "a", "X", "-", ".", "+", "vnd.", "json", "_", "1") }) + pick(t, "", ";", "; a=b", " ; charset=utf-8")
			if chance(t, 1, 4) {
				ct = printable(t, 8)
			}
		}
		x.ResHdrs = append(x.ResHdrs, Hdr{K: genCTKey(t), V: []B{B(ct)}})
	}
}

// genEarly lets the host hand over parts of the transaction twice, as with the
// preliminary heads of a response, or when it learns of a better client address.
func genEarly(t *rapid.T, x *Tx) {
	y := &Tx{}
	for n := intn(t, 1, 2); n > 0; n-- {
		step := pick(t, "conn", "url", "reqhdr", "reshdr", "reshdr")
		if x.twice(step) {
			continue
		}
		switch step {
		case "conn":
			y.Src, y.SrcPort = genAddr(t), "99"
		case "url":
			y.Method = B(pick(t, "GET", "POST", "HEAD"))
			y.Proto = B(pick(t, "HTTP/1.1", "HTTP/1.0", ""))
			y.NoURL = chance(t, 1, 4)
			if !y.NoURL {
				genPath(t, y)
				q, _ := genQuery(t, 3)
				y.Query = B(q)
			}
		case "reqhdr":
			y.Hdrs = append(genHdrs(t, 3), genCookies(t)...)
			y.CT = B(pick(t, "", "application/x-www-form-urlencoded", "text/plain", "multipart/form-data; boundary=a"))
		case "reshdr":
			genResHead(t, y)
		}
		x.Twice = append(x.Twice, step)
		x.Early = y
	}
	x.URLFirst = chance(t, 1, 3)
	if x.twice("url") && chance(t, 1, 2) {
		x.URLLate = pick(t, "reqhdr", "reqbody", "reshdr", "resbody")
		if len(x.Body) > 0 { // that decides whether the body is looked at
			y.Method = x.Method
		}
	}
}

func validCT(ct string) bool {
	_, _, err := mime.ParseMediaType(ct)
	return err == nil
}

var patterns = []string{"/^a/", "/a/", "/[0-9]/", "/^(?i)FOO$/", "/^x-/", "/^X-/", "//", "/b$/", "/^.$/", "/^User-/", "/o{2}/", "/\\d/", "/^$/"}

func genSel(t *rapid.T, x *Tx, name string) B {
	switch intn(t, 0, 5) {
	case 0:
		if chance(t, 1, 3) {
			return genPattern(t, x, name)
		}
		return B(pick(t, patterns...))
	case 1:
		s := genName(t)
		if chance(t, 1, 8) {
			s = "/" + s
		}
		if !isPattern(s) {
			return B(s)
		}
		return "a"
	}
	ms := x.members(name)
	if len(ms) == 0 {
		return B(pick(t, argNames...))
	}
	// map order must not decide what is drawn
	var ks []string
	for _, m := range ms {
		ks = append(ks, string(m.K))
	}
	s := pick(t, uniq(ks)...)
	if foldsCase(name) && utf8OK(s) {
		s = pick(t, s, strings.ToLower(s), strings.ToUpper(s))
	}
	if len(s) > 4000 || isPattern(s) {
		return "a"
	}
	return B(s)
}

// genPattern draws a pattern out of pieces of the names there are, in which any
// character may stand.
func genPattern(t *rapid.T, x *Tx, name string) B {
	s := text(t, 4)
	if ks := x.members(name); len(ks) > 0 && chance(t, 2, 3) {
		var names []string
		for _, m := range ks {
			names = append(names, string(m.K))
		}
		s = pick(t, uniq(names)...)
	}
	rs := []rune(strings.ToValidUTF8(s, "?"))
	if len(rs) > 40 {
		rs = rs[:40]
	}
	var sb strings.Builder
	sb.WriteString("/" + pick(t, "", "^", "(?i)", "(?s)^", "^.?"))
	skip := intn(t, 0, 2)
	for i, r := range rs {
		switch {
		case i < skip && chance(t, 1, 2):
		case chance(t, 1, 8):
			sb.WriteString(pick(t, ".", ".*", "(?:"+regexp.QuoteMeta(string(r))+")?", "["+regexp.QuoteMeta(string(r))+"x-z]"))
		case r < 0x80 && chance(t, 1, 10):
			fmt.Fprintf(&sb, "\\x%02x", r)
		default:
			sb.WriteString(regexp.QuoteMeta(string(r)))
		}
	}
	sb.WriteString(pick(t, "", "$", "+") + "/")
	p := sb.String()
	if _, err := regexp.Compile(p[1 : len(p)-1]); err != nil {
		return "/a/"
	}
	return B(p)
}

func genTargets(t *rapid.T, x *Tx, pool []string, most int) []Target {
	var ts []Target
	for n := many(t, 1, most, most*5, 100); n > 0; n-- {
		tg := Target{Var: pick(t, pool...)}
		if len(ts) > 0 && chance(t, 1, 3) {
			tg.Var = ts[intn(t, 0, len(ts)-1)].Var
		}
		if collections[tg.Var] && chance(t, 1, 2) {
			tg.Sel = genSel(t, x, tg.Var)
			for chance(t, 1, 12) {
				tg.More = append(tg.More, genSel(t, x, tg.Var))
			}
		}
		switch intn(t, 0, 5) {
		case 4:
			tg.Excl = collections[tg.Var] || chance(t, 1, 3)
		case 5:
			tg.Cnt = tg.Var != "ARGS_NAMES" // one name or two, if it is in the query and in the body?
		}
		ts = append(ts, tg)
	}
	return ts
}

func countOf(v ms.Variable) ms.Variable { return variables.NewCountVariable(v) }
