package main

// Transactions and each other, rules and each other, and hostile hosts.

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"net/http"
	"net/url"
	"sync"

	ms "github.com/senghoo/modsecurity-go/modsecurity"
	"pgregory.net/rapid"
)

// IRule is a rule with a generated condition and actions.
type IRule struct {
	R    VRule `json:"r"`
	Acts []Act `json:"acts,omitempty"`
}

func (r IRule) build(label string) *ms.SecRule {
	rule := r.R.build()
	if label != "" {
		rule.AppendActions(&probe{2, label})
	}
	for _, a := range r.Acts {
		rule.AppendActions(apiAction(a, ""))
	}
	return rule
}

type stepObs struct {
	events []string
	res    ms.Intervention
}

func (o stepObs) String() string {
	return fmt.Sprintf("%v status %d disruptive %v log %q", o.events, o.res.Status, o.res.Disruptive, o.res.Log)
}

// runner takes a transaction through its steps one by one.
type runner struct {
	x   *Tx
	hd  *handed
	tr  *ms.Transaction
	tc  *trace
	obs []stepObs
	at  int
}

func newRunner(e *ms.Engine, x *Tx) *runner {
	tr, err := e.NewTransaction()
	if err != nil {
		panic(fmt.Sprintf("no transaction: %v", err))
	}
	r := &runner{x: x, hd: x.hand(), tr: tr, tc: &trace{}}
	tr.Data[traceKey] = r.tc
	return r
}

func (r *runner) step() {
	if r.at >= len(txSteps) {
		return
	}
	r.hd.step(r.tr, txSteps[r.at])
	r.at++
	i := r.tr.Result()
	o := stepObs{append([]string(nil), r.tc.events...), *i}
	o.res.Log = append([]string(nil), i.Log...)
	r.obs = append(r.obs, o)
}

func (r *runner) diff(who string, want []stepObs) error {
	for i := range want {
		if i >= len(r.obs) {
			return &harnessError{errors.New("steps missing")}
		}
		if r.obs[i].String() != want[i].String() {
			return fmt.Errorf("%s, after %s: %s, alone: %s", who, txSteps[i], r.obs[i], want[i])
		}
	}
	return nil
}

// ---- C26

type IsoCase struct {
	Rules []IRule `json:"rules"`
	Def   []Act   `json:"def"`
	Txs   []*Tx   `json:"txs"`
	Order []int   `json:"order"` // whose turn it is
	Mem   int64   `json:"mem"`
	Mode  int     `json:"mode"`
	Req   bool    `json:"req"`
	Res   bool    `json:"res"`
	Other *Other  `json:"other,omitempty"` // an engine with the same rules, for every second transaction
	Late  bool    `json:"late,omitempty"`  // transactions begin with their first turn and are over with their last
	Close int     `json:"close,omitempty"` // how often the host closes the bodies again
	Long  int     `json:"long,omitempty"`  // so many more transactions of the engine, each a bit different
}

func (c *IsoCase) end(r *runner) {
	for n := c.Close; n > 0; n-- {
		closeTx(r.tr)
	}
	closeTx(r.tr)
}

// Other is what distinguishes the other engine.
type Other struct {
	Mode  int  `json:"mode"`
	Req   bool `json:"req"`
	Rules bool `json:"rules"` // it has a rule set of its own with the same rules
}

func (c *IsoCase) bare(mode int, req bool) *ms.Engine {
	e := ms.NewEngine()
	e.TmpPath = scratch()
	e.RequestBodyAccess, e.ResponseBodyAccess = req, c.Res
	if c.Mem > 0 {
		e.RequestBodyInMem = c.Mem
	}
	for _, x := range c.Txs {
		if n := int64(len(x.ResBody)); n > e.ResponseBody {
			e.ResponseBody = n
		}
	}
	setMode(e, mode)
	return e
}

// other gives the engine that shares the rules of e.
func (c *IsoCase) other(e *ms.Engine) *ms.Engine {
	o := c.bare(c.Other.Mode, c.Other.Req)
	if !c.Other.Rules {
		o.RuleSet = e.RuleSet
		return o
	}
	o.RuleSet.AddDefaultActions(e.RuleSet.DefaultActions...)
	for stage := 1; stage <= 6; stage++ {
		o.AddSecRule(e.RuleSet.Phases[stage]...)
	}
	return o
}

// alone gives an engine for transaction i alone.
func (c *IsoCase) alone(i int) *ms.Engine {
	if c.Other != nil && i%2 == 1 {
		return c.other(c.engine())
	}
	return c.engine()
}

func (c *IsoCase) engine() *ms.Engine {
	e := c.bare(c.Mode, c.Req)
	for _, a := range c.Def {
		e.RuleSet.AddDefaultActions(apiAction(a, ""))
	}
	for i, r := range c.Rules {
		e.AddSecRule(r.build(fmt.Sprintf("r%d", i)))
	}
	return e
}

func checkIso(c *IsoCase, rec *Rec) error {
	solo := make([][]stepObs, len(c.Txs))
	fired, intercepted := 0, 0
	for i, x := range c.Txs {
		r := newRunner(c.alone(i), x)
		for range txSteps {
			r.step()
		}
		solo[i] = r.obs
		c.end(r)
		if len(r.tc.events) > 0 {
			fired++
		}
		for _, o := range r.obs {
			if o.res.Disruptive {
				intercepted++
				break
			}
		}
	}
	rec.NonTrivial(len(c.Txs) > 1 && fired > 0)
	rec.ClassIf(intercepted > 0 && intercepted < len(c.Txs), "some intercepted, some not")
	rec.ClassIf(c.Long > 0, "many transactions")
	e := c.engine()
	shape := fmt.Sprint(engineShape(e), e.RuleSet.DefaultActions)

	engines := []*ms.Engine{e, e}
	if c.Other != nil {
		engines[1] = c.other(e)
		rec.Class("engines with the same rules")
	}

	// taking turns
	rs := make([]*runner, len(c.Txs))
	turn := func(i int) error {
		if rs[i] == nil {
			rs[i] = newRunner(engines[i%2], c.Txs[i])
		}
		r := rs[i]
		if r.at == len(txSteps) {
			return nil
		}
		r.step()
		if r.at < len(txSteps) || !c.Late {
			return nil
		}
		c.end(r)
		return r.diff(fmt.Sprintf("transaction %d of %d, taking turns", i, len(rs)), solo[i])
	}
	if !c.Late {
		for i, x := range c.Txs {
			rs[i] = newRunner(engines[i%2], x)
		}
	}
	for _, k := range c.Order {
		if err := turn(k % len(rs)); err != nil {
			return err
		}
	}
	for i := range rs {
		for rs[i] == nil || rs[i].at < len(txSteps) {
			if err := turn(i); err != nil {
				return err
			}
		}
	}
	if !c.Late {
		for i, r := range rs {
			if err := r.diff(fmt.Sprintf("transaction %d of %d, taking turns", i, len(rs)), solo[i]); err != nil {
				return err
			}
		}
		for _, r := range rs {
			c.end(r)
		}
	}

	// at the same time, rules being loaded meanwhile
	var wg sync.WaitGroup
	start := make(chan struct{})
	errs := make(chan error, len(c.Txs)*2+1)
	run := func(f func() error) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					if err, ok := r.(error); ok && isHarnessPanic(err) {
						errs <- err
						return
					}
					errs <- fmt.Errorf("panic with transactions at the same time: %v\n%s", r, shortStack())
				}
			}()
			<-start
			errs <- f()
		}()
	}
	for k := 0; k < 2; k++ {
		for i, x := range c.Txs {
			i, x := i, x
			run(func() error {
				r := newRunner(engines[i%2], x)
				defer c.end(r)
				for range txSteps {
					r.step()
				}
				return r.diff(fmt.Sprintf("transaction %d of %d, at the same time", i, len(c.Txs)), solo[i])
			})
		}
	}
	run(func() error {
		if got := c.engine(); fmt.Sprint(engineShape(got), got.RuleSet.DefaultActions) != shape {
			return errors.New("rules loaded while transactions run are not those loaded before")
		}
		return nil
	})
	close(start)
	wg.Wait()
	close(errs)
	for err := range errs {
		if err != nil {
			return err
		}
	}
	for k := 0; k < c.Long; k++ {
		i := k % len(c.Txs)
		x := *c.Txs[i]
		x.Src, x.Query = B(fmt.Sprintf("198.51.100.%d", k)), B(fmt.Sprintf("long=%d&%s", k, x.Query))
		var obs [2][]stepObs
		for j, e := range []*ms.Engine{c.alone(i), engines[i%2]} {
			r := newRunner(e, &x)
			for range txSteps {
				r.step()
			}
			c.end(r)
			obs[j] = r.obs
			if j == 1 {
				if err := r.diff(fmt.Sprintf("transaction %d of the engine", k), obs[0]); err != nil {
					return err
				}
			}
		}
	}
	if s := fmt.Sprint(engineShape(e), e.RuleSet.DefaultActions); s != shape {
		return fmt.Errorf("the engine was changed by its transactions:\n%s\nwas\n%s", s, shape)
	}
	return nil
}

func genIActs(t *rapid.T, skip bool) []Act {
	var acts []Act
	if chance(t, 1, 3) {
		acts = append(acts, Act{N: "log"})
	}
	if chance(t, 1, 4) {
		acts = append(acts, Act{N: "status", A: pick(t, 403, 404, 500, 302)})
	}
	if skip && chance(t, 1, 8) {
		acts = append(acts, Act{N: "skip", A: intn(t, 1, 3)})
	}
	switch intn(t, 0, 7) {
	case 0, 1:
		acts = append(acts, Act{N: "deny"})
	case 2:
		acts = append(acts, Act{N: "allow", S: pick(t, "", "phase", "request")})
	case 3:
		acts = append(acts, Act{N: "pass"})
	case 4:
		acts = append(acts, Act{N: "block"})
	}
	return acts
}

var richVars = []string{"ARGS", "ARGS_GET", "REQUEST_HEADERS", "REQUEST_COOKIES", "ARGS_NAMES", "ARGS_POST", "REQUEST_URI", "REQUEST_BODY", "RESPONSE_BODY", "REQUEST_METHOD", "RESPONSE_STATUS"}

func genVRule(t *rapid.T, xs []*Tx, stages ...int) VRule {
	r := VRule{Stage: pick(t, stages...), SecLang: chance(t, 1, 4)}
	if r.Stage == 6 {
		r.SecLang = false
	}
	pool := richVars
	if chance(t, 1, 4) {
		pool = varNames
	}
	for m := pick(t, 1, 1, 1, 2); m > 0; m-- {
		l := genCond(t, pick(t, xs...), r.Stage, pool)
		if len(l.Targets) == 0 {
			l.Targets = []Target{{Var: "REQUEST_METHOD"}}
		}
		for _, tg := range l.Targets {
			if !tg.seclangSafe() {
				r.SecLang = false
			}
		}
		r.Links = append(r.Links, l)
	}
	return r
}

func genIso(t *rapid.T) *IsoCase {
	c := &IsoCase{Mode: pick(t, modeOn, modeOn, modeUnset, modeDetect), Req: !chance(t, 1, 6), Res: !chance(t, 1, 6)}
	if chance(t, 1, 3) {
		c.Mem = int64(pick(t, 1, 5, 20, 100))
	}
	txs := pick(t, 2, 2, 3, 4)
	if chance(t, 1, 300) {
		txs = intn(t, 5, 40)
	}
	for n := txs; n > 0; n-- {
		x := genTx(t, txCfg{body: [2]int{2, 3}})
		x.Src = B(fmt.Sprintf("192.0.2.%d", n))
		x.ReqAccess, x.ResAccess, x.Mem, x.Limit = c.Req, c.Res, c.Mem, 0
		c.Txs = append(c.Txs, x)
	}
	if chance(t, 1, 2) {
		c.Def = []Act{{N: "log"}, {N: "deny"}}
	}
	if chance(t, 1, 4) {
		c.Other = &Other{Mode: pick(t, modeOn, modeOff, modeDetect, modeDetect), Req: chance(t, 1, 2), Rules: chance(t, 1, 2)}
	}
	for n := count(t, 1, 4, 10); n > 0; n-- {
		c.Rules = append(c.Rules, IRule{genVRule(t, c.Txs, 1, 2, 2, 3, 3, 3, 4, 5, 6), genIActs(t, true)})
	}
	for n := len(c.Txs) * len(txSteps); n > 0; n-- {
		c.Order = append(c.Order, intn(t, 0, len(c.Txs)-1))
	}
	if chance(t, 1, 3) {
		c.Late = true
		if chance(t, 1, 2) { // several turns at a time
			var order []int
			for _, k := range c.Order {
				for n := intn(t, 1, len(txSteps)); n > 0; n-- {
					order = append(order, k)
				}
			}
			c.Order = order
		}
	}
	c.Close = pick(t, 0, 0, 0, 1, 2)
	if chance(t, 1, 200) {
		size := 0
		for _, x := range c.Txs {
			size += x.weight()
		}
		if size < 4000 {
			c.Long = bigSize(t, 1100)
		}
	}
	return c
}

// ---- C27

type HostOp struct {
	K    string `json:"k"`
	S    B      `json:"s,omitempty"`
	N    int    `json:"n,omitempty"`
	URL  []B    `json:"url,omitempty"` // opaque, path, rawpath, query
	Hdrs []Hdr  `json:"hdrs,omitempty"`
	Nil  bool   `json:"nil,omitempty"`
}

type HostileCase struct {
	Mode  int      `json:"mode"`
	Def   []Act    `json:"def"`
	Rules []IRule  `json:"rules"`
	Ops   []HostOp `json:"ops"`
	Mem   int64    `json:"mem"`
	Limit int64    `json:"limit"`
	Res   int64    `json:"res"`
	Req   bool     `json:"req"`
	ResA  bool     `json:"resa"`
}

func rawHeader(hs []Hdr, isNil bool) http.Header {
	if isNil {
		return nil
	}
	h := http.Header{}
	for _, x := range hs {
		if len(x.V) == 0 {
			h[string(x.K)] = nil
			continue
		}
		h[string(x.K)] = append(h[string(x.K)], strs(x.V)...)
	}
	return h
}

func checkHostile(c *HostileCase, rec *Rec) error {
	iso := &IsoCase{Rules: c.Rules, Def: c.Def, Mode: c.Mode, Req: c.Req, Res: c.ResA}
	e := iso.engine()
	e.RequestBodyInMem, e.RequestBody, e.ResponseBody = c.Mem, c.Limit, c.Res
	mayDeny := false
	for _, r := range c.Rules {
		for _, a := range r.Acts {
			mayDeny = mayDeny || a.N == "deny" || a.N == "block"
		}
	}
	if c.Mode == modeOff || c.Mode == modeDetect {
		mayDeny = false
	}
	rs := e.RuleSet
	for i, make := range []func() (*ms.Transaction, error){
		func() (*ms.Transaction, error) { return ms.NewTransaction(nil, rs) },
		func() (*ms.Transaction, error) { return ms.NewTransaction(e, nil) },
		func() (*ms.Transaction, error) { return ms.NewTransaction(nil, nil) },
		func() (*ms.Transaction, error) {
			e.RuleSet = nil
			defer func() { e.RuleSet = rs }()
			return e.NewTransaction()
		},
	} {
		if tr, err := make(); err == nil || tr != nil {
			return fmt.Errorf("without an engine or a rule set (%d) there is a transaction, error %v", i, err)
		}
	}
	tr, err := e.NewTransaction()
	if err != nil {
		return err
	}
	defer closeTx(tr)
	tc := &trace{}
	tr.Data[traceKey] = tc
	aborted, appended := false, 0
	for i, op := range c.Ops {
		switch op.K {
		case "conn":
			tr.ProcessConnection(string(op.S), string(op.S), "", "x")
		case "url":
			var u *url.URL
			if !op.Nil {
				u = &url.URL{Opaque: string(op.URL[0]), Path: string(op.URL[1]), RawPath: string(op.URL[2]), RawQuery: string(op.URL[3]), ForceQuery: op.N&1 > 0, Fragment: string(op.URL[0])}
				if op.N&2 > 0 {
					u.User = url.UserPassword("u", string(op.URL[0]))
				}
			}
			tr.ProcessRequestURL(u, string(op.S), string(op.S))
		case "reqhdr":
			tr.ProcessRequestHeader(rawHeader(op.Hdrs, op.Nil))
		case "body":
			if tr.AppendRequestBody([]byte(op.S)) == nil {
				appended += len(op.S)
			}
		case "reqbody":
			tr.ProcessRequestBody()
		case "reshdr":
			tr.ProcessResponseHeaders(op.N, string(op.S), rawHeader(op.Hdrs, op.Nil))
		case "resappend":
			tr.AppendResponseBody([]byte(op.S))
		case "resbody":
			tr.ProcessResponseBody()
		case "log":
			tr.ProcessLogging()
		case "abort":
			tr.AbortWithStatus(op.N)
			aborted = true
		case "aborterr":
			if op.N == 403 {
				tr.AbortWithError(op.N, nil)
			} else {
				tr.AbortWithError(op.N, errors.New("x"))
			}
			aborted = aborted || c.Mode != modeDetect
		case "reset":
			if !aborted {
				tr.ResetIntervention()
			}
		case "read":
			p := make([]byte, op.N)
			tr.Request.Body.Read(p)
			tr.Response.Body.Read(p)
		case "string":
			tr.Request.Body.String()
			tr.Response.Body.Bytes()
		case "close":
			closeTx(tr)
		case "result":
			r := tr.Result()
			if r == nil {
				return fmt.Errorf("operation %d: no result", i)
			}
			over := int64(appended) > max(c.Mem, 0) && c.Mode != modeDetect && c.Mode != modeOff
			if r.Disruptive && !mayDeny && !aborted && !over {
				return fmt.Errorf("operation %d: intercepted without a reason: %+v", i, r)
			}
			if !r.Disruptive && r.Status != 200 {
				return fmt.Errorf("operation %d: status %d though not intercepted", i, r.Status)
			}
			if aborted && !r.Disruptive {
				return fmt.Errorf("operation %d: not intercepted after the host aborted: %+v", i, r)
			}
		default:
			return &harnessError{errors.New(op.K)}
		}
	}
	rec.NonTrivial(len(tc.events) > 0)
	rec.ClassIf(len(tc.events) > 0, "rules fire")
	rec.ClassIf(mayDeny, "may deny")
	if c.Mode == modeOff && len(tc.events) > 0 {
		return fmt.Errorf("rules run though the engine is off: %v", tc.events)
	}
	return nil
}

var hostileCT = []string{"multipart/form-data", "multipart/form-data; boundary=", "multipart/form-data; boundary=\"", "multipart/form-data; boundary=a; boundary=b", "multipart/", "multipart/form-data; boundary=X", "multipart/form-data;boundary=\"X\"", "application/x-www-form-urlencoded; ;", "application/x-www-form-urlencoded; charset", ";", "/", "", "a/b/c", "application/x-www-form-urlencoded", "application/x-www-form-urlencoded", "multipart/mixed; boundary=X", "text/html; q=\"\\", "multipart/form-data; boundary=\xff\xfe", "multipart/form-data; boundary*0=X; boundary*1=Y", "multipart/form-data; boundary*=utf-8''%58"}

func genHostileHdrs(t *rapid.T) []Hdr {
	var hs []Hdr
	for n := count(t, 0, 4, 60); n > 0; n-- {
		k := pick(t, "Cookie", "cookie", "Content-Type", "content-type", "Content-Length", "Host", "X-A", "", "\x00", "é", "Set-Cookie", text(t, 4))
		h := Hdr{K: B(k)}
		for m := count(t, 0, 2, 5); m > 0; m-- {
			v := maybeLong(t, 70000, func() string { return text(t, 10) })
			switch {
			case (k == "Content-Type" || k == "content-type") && chance(t, 5, 6):
				v = pick(t, hostileCT...)
			case k == "Cookie" && chance(t, 2, 3):
				v = pieces(t, 12, "a", "=", ";", " ", "b", "\"", ",", "\x00", "$", "é", "\xff", "; ", "a=b", "==", "\t")
			}
			h.V = append(h.V, B(v))
		}
		hs = append(hs, h)
	}
	return hs
}

func genHostileBody(t *rapid.T) string {
	switch intn(t, 0, 4) {
	case 0:
		return pieces(t, 14, "--X", "--X--", "\r\n", "\n", "Content-Disposition: form-data; name=\"a\"", "Content-Disposition: form-data; name=\"a\"; filename=\"f\"", "Content-Type: text/plain", "\r\n\r\n", "x", "Content-Disposition: form-data", "Content-Transfer-Encoding: quoted-printable", "Content-Transfer-Encoding: base64", "=", "--", ": ", "\x00", "Content-Disposition: ;;;", "name=", "é")
	case 1:
		q, _ := genQuery(t, 5)
		return q
	case 2:
		x := &Tx{}
		genMultipart(t, x)
		return multipartBody(x.Parts, "X", "", "")
	case 3:
		return rawBytes(t, 80)
	}
	return maybeLong(t, 200000, func() string { return text(t, 20) })
}

func genHostile(t *rapid.T) *HostileCase {
	c := &HostileCase{Mode: pick(t, modeOn, modeOn, modeUnset, modeDetect, modeOff), Req: !chance(t, 1, 8), ResA: !chance(t, 1, 8)}
	c.Mem = int64(pick(t, 0, 1, 10, 1000, 131072, 131072))
	c.Limit = c.Mem + int64(pick(t, 0, 1, 1000, 1<<27))
	oddLimits(t, &c.Mem, &c.Limit)
	c.Res = int64(pick(t, 0, 10, 524228, 524228))
	if chance(t, 1, 100) {
		c.Res = pick[int64](t, -1, math.MinInt64, math.MaxInt64)
	}
	tx := genTx(t, txCfg{body: [2]int{1, 2}}) // conditions that now and then fit
	for n := count(t, 1, 6, 25); n > 0; n-- {
		r := IRule{genVRule(t, []*Tx{tx}, 1, 2, 2, 3, 3, 3, 4, 5, 6), genIActs(t, true)}
		if chance(t, 3, 4) {
			for i := range r.R.Links { // looks at all there is
				r.R.Links[i].Op, r.R.Links[i].Arg, r.R.Links[i].Neg = "rx", B(pick(t, "", "a", "(?i)x", "^.*$")), chance(t, 1, 3)
			}
		}
		c.Rules = append(c.Rules, r)
	}
	for n := intn(t, 0, 2); n > 0; n-- {
		c.Def = append(c.Def, pick(t, Act{N: "log"}, Act{N: "deny"}, Act{N: "status", A: 500}))
	}
	op := func(k string) HostOp {
		o := HostOp{K: k}
		switch k {
		case "conn":
			o.S = B(text(t, 10))
		case "url":
			o.Nil = chance(t, 1, 8)
			o.N = intn(t, 0, 3)
			o.S = B(pick(t, "POST", "POST", "PUT", "GET", "", text(t, 5)))
			q, _ := genQuery(t, 5)
			p := pieces(t, 6, "/", "a", "\\", "..", "%", "%2f", "?", "#", "é", "\x00", "\xff", ";", " ", "//")
			o.URL = []B{B(pick(t, "", "", text(t, 5))), B(p), B(pick(t, "", p, text(t, 5))), B(q)}
		case "reqhdr", "reshdr":
			o.Nil = chance(t, 1, 10)
			o.Hdrs = genHostileHdrs(t)
			if k == "reqhdr" && chance(t, 1, 2) {
				o.Hdrs = append(o.Hdrs, Hdr{K: "Content-Type", V: []B{B(pick(t, hostileCT...))}})
			}
			o.N = pick(t, 200, 404, 0, -1, 99999999, -9223372036854775808)
			o.S = B(text(t, 5))
		case "body", "resappend":
			o.S = B(genHostileBody(t))
		case "abort", "aborterr":
			o.N = pick(t, 413, 500, 403)
		case "read":
			o.N = intn(t, 0, 40)
		}
		return o
	}
	natural := []string{"conn", "url", "reqhdr", "body", "reqbody", "reshdr", "resappend", "resbody", "log"}
	all := append(append([]string{}, natural...), "abort", "aborterr", "reset", "read", "string", "close", "result", "body", "body", "result", "url", "reqhdr")
	if chance(t, 1, 3) {
		for n := count(t, 1, 12, 50); n > 0; n-- {
			c.Ops = append(c.Ops, op(pick(t, all...)))
		}
	} else {
		for _, k := range natural {
			if chance(t, 1, 12) {
				continue
			}
			c.Ops = append(c.Ops, op(k))
			if chance(t, 1, 3) {
				c.Ops = append(c.Ops, op("result"))
			}
			if chance(t, 1, 12) {
				c.Ops = append(c.Ops, op(pick(t, all...)))
			}
		}
	}
	c.Ops = append(c.Ops, HostOp{K: "result"})
	return c
}

// ---- C28

type QuietCase struct {
	Tx      *Tx      `json:"tx"`
	Rules   []IRule  `json:"rules"`
	Passive []IRule  `json:"passive"` // rules without actions
	At      []int    `json:"at"`      // where they are put
	Peek    []int    `json:"peek"`    // steps after which the host reads the bodies
	PeekLen int      `json:"peeklen"`
	Vars    []string `json:"vars"`   // read twice at the end
	Chunks  []int    `json:"chunks"` // another way to hand over the bodies
	Mem     int64    `json:"mem"`
}

func checkQuiet(c *QuietCase, rec *Rec) error {
	build := func(passive bool) *ms.Engine {
		e := c.Tx.engine()
		at := map[int][]int{}
		if passive {
			for i, k := range c.At {
				at[k%(len(c.Rules)+1)] = append(at[k%(len(c.Rules)+1)], i)
			}
		}
		for i := 0; i <= len(c.Rules); i++ {
			for _, k := range at[i] {
				e.AddSecRule(c.Passive[k].build(""))
			}
			if i < len(c.Rules) {
				e.AddSecRule(c.Rules[i].build(fmt.Sprintf("r%d", i)))
			}
		}
		return e
	}
	show := func(o stepObs) string {
		return fmt.Sprintf("%v status %d disruptive %v %d log lines", o.events, o.res.Status, o.res.Disruptive, len(o.res.Log))
	}
	base := newRunner(build(false), c.Tx)
	for range txSteps {
		base.step()
	}
	defer closeTx(base.tr)
	if err := base.hd.kept(); err != nil {
		return err
	}
	rec.NonTrivial(len(base.tc.events) > 0)
	rec.ClassIf(len(base.tc.events) == 0, "nothing fires")
	rec.ClassIf(len(c.Passive) > 3, "many rules added")
	again := func(what string, e *ms.Engine, x *Tx, peek bool) error {
		r := newRunner(e, x)
		defer closeTx(r.tr)
		for k := range txSteps {
			r.step()
			if !peek {
				continue
			}
			for _, p := range c.Peek {
				if p != k || k < 3 {
					continue
				}
				b := io.ReadSeeker(r.tr.Request.Body)
				want := []byte(x.Body)
				if k >= 6 && p%2 == 0 {
					b, want = r.tr.Response.Body, []byte(x.ResBody)
				}
				if _, err := b.Seek(0, io.SeekStart); err != nil {
					return fmt.Errorf("host cannot read a body: %v", err)
				}
				var got []byte
				var err error
				if c.PeekLen < 0 {
					got, err = io.ReadAll(b)
				} else {
					n := c.PeekLen
					if n > len(want) {
						n = len(want)
					}
					want = want[:n]
					got = make([]byte, n)
					_, err = io.ReadFull(b, got)
				}
				if err != nil || !bytes.Equal(got, want) {
					return fmt.Errorf("after %s the host reads %d bytes of a body, want %d, error %v", txSteps[k], len(got), len(want), err)
				}
				rec.Class("host reads a body")
			}
		}
		for i := range r.obs {
			if show(r.obs[i]) != show(base.obs[i]) {
				return fmt.Errorf("%s: after %s: %s, before: %s", what, txSteps[i], show(r.obs[i]), show(base.obs[i]))
			}
		}
		for _, v := range c.Vars {
			one, two := newVariable[v]().Fetch(r.tr), newVariable[v]().Fetch(r.tr)
			if want := c.Tx.values([]Target{{Var: v}}); !sameBag(dedupe([]Target{{Var: v}}, one), dedupe([]Target{{Var: v}}, want)) || !sameBag(one, two) {
				return fmt.Errorf("%s: at the end %s is %q, then %q, want %q", what, v, clip(one), clip(two), clip(want))
			}
		}
		return r.hd.kept()
	}
	e := build(false)
	for k := 0; k < 2; k++ {
		if err := again("the same once more", e, c.Tx, false); err != nil {
			return err
		}
	}
	if err := again("with rules added that do nothing", build(true), c.Tx, false); err != nil {
		return err
	}
	if err := again("with a host that reads the bodies", build(false), c.Tx, true); err != nil {
		return err
	}
	y := *c.Tx
	y.Chunks, y.ResChunks = c.Chunks, c.Chunks
	e = build(true)
	if c.Mem > 0 {
		e.RequestBodyInMem = c.Mem
	}
	return again("with the bodies handed over in other pieces", e, &y, true)
}

func genQuiet(t *rapid.T) *QuietCase {
	c := &QuietCase{Tx: genTx(t, txCfg{body: [2]int{4, 5}}), PeekLen: pick(t, -1, -1, 0, 1, 5, 100)}
	for n := count(t, 1, 4, 10); n > 0; n-- {
		c.Rules = append(c.Rules, IRule{genVRule(t, []*Tx{c.Tx}, 1, 2, 3, 3, 3, 4, 5, 6), genIActs(t, false)})
	}
	for n := count(t, 0, 4, 12); n > 0; n-- {
		c.Passive = append(c.Passive, IRule{genVRule(t, []*Tx{c.Tx}, 1, 2, 3, 3, 3, 4, 5, 6), nil})
		c.At = append(c.At, intn(t, 0, 20))
	}
	for n := intn(t, 0, 3); n > 0; n-- {
		c.Peek = append(c.Peek, intn(t, 3, len(txSteps)-1))
	}
	for n := intn(t, 1, 3); n > 0; n-- {
		c.Vars = append(c.Vars, pick(t, richVars...))
	}
	c.Chunks = genChunks(t, len(c.Tx.Body)+len(c.Tx.ResBody))
	if n := len(c.Tx.Body); c.Tx.inspectsBody() != "urlencoded" && n > 1 {
		c.Mem = int64(intn(t, 1, n))
	}
	return c
}

func init() {
	register(Prop{ID: "C26", Quick: 30000, Thorough: 600000, Race: true,
		Rule:   "2-4 generated transactions run on one engine with 1-10 generated rules (conditions on all variables, all actions), first taking turns step by step in a generated order, then all of them twice at the same time while the rules are loaded into another engine, under the race detector; what fires and every result and log line of each must be what they are for the transaction alone on an engine of its own, and the engine stays as it was. Non-trivial: a rule fires.",
		Assume: []string{"Schedules are those the Go scheduler and the race detector reach in the cases run."}},
		genIso, checkIso)
	register(Prop{ID: "C27", Quick: 300000, Thorough: 6000000,
		Rule: "Hosts that make the calls of a transaction in any order, repeated or left out, with nil and malformed urls, headers, content types, cookies, encodings and multipart bodies, on engines of all modes and limits with generated rules; nothing may panic, hang or grow without bound, and results keep to what they can say. Non-trivial: a rule fires."},
		genHostile, checkHostile)
	register(Prop{ID: "C28", Quick: 120000, Thorough: 2500000,
		Rule: "A generated transaction with generated rules is run again on the same engine, with rules without actions put anywhere between, with a host that reads the bodies between the steps, and with the bodies handed over in other pieces and kept elsewhere: what fires and every result must be the same, variables read twice give the same values, and the url, headers and bytes of the host stay as they were. Non-trivial: a rule fires."},
		genQuiet, checkQuiet)
}
