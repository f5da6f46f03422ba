package main

// Parts of rules that a host writes in Go: what they see of the place of the
// evaluation, and where their jumps lead.

import (
	"errors"
	"fmt"
	"math"
	"net/http"
	"net/url"
	"time"

	ms "github.com/senghoo/modsecurity-go/modsecurity"
	"pgregory.net/rapid"
)

// EAct is an action of the host. Every jump is made once in a transaction only,
// so that jumping back does not go on for ever.
type EAct struct {
	K string `json:"k"` // see jump ahead phase next redirect abort note
	N int    `json:"n,omitempty"`
	G int    `json:"g"` // its group
}

type ELink struct {
	Match bool   `json:"match"`
	Vals  int    `json:"vals"`
	Acts  []EAct `json:"acts"`
}

type ERule struct {
	Stage int     `json:"stage"`
	Links []ELink `json:"links"`
}

type ExtCase struct {
	Rules []ERule `json:"rules"`
	Own   bool    `json:"own"`
	Ops   []Op    `json:"ops"`
}

// extLog is what the parts saw in one transaction.
type extLog struct {
	seen []string
	made map[string]bool
}

const extKey = "verif-ext"

func extOf(t *ms.Transaction) *extLog {
	l, _ := t.Data[extKey].(*extLog)
	if l == nil {
		panic("the data of the transaction is not there")
	}
	return l
}

// see notes what can be seen from a part of the rule with that number.
func (l *extLog) see(t *ms.Transaction, rule int, what string) {
	sec := "none"
	if r := t.CurrentSecRule(); r != nil {
		sec = fmt.Sprint(r.Id)
	}
	notes, _ := t.Data["notes"].(int)
	l.add(fmt.Sprintf("rule %d%s sees stage %d rule %d next %d which is %s, notes %d, of the stage %d rules, and %s", rule, what, t.CurrentPhase(), t.CurrentRule(), t.NextRule(), sec, notes, len(t.CurrentPhaseRules()), extView{
		[4]string{t.SrcIp, t.SrcPort, t.DstIp, t.DstPort}, t.URL, t.Method, t.Request.Proto, t.Request.Header, t.Response.Code, t.Response.Proto, t.Response.Header, t.Request.Body.Len(), t.Response.Body.Len(),
	}))
}

// extView is what has been handed over.
type extView struct {
	net      [4]string
	url      *url.URL
	method   string
	proto    string
	header   http.Header
	code     int
	resProto string
	resHdr   http.Header
	req, res int64
}

func (v extView) String() string {
	u := "no url"
	if v.url != nil {
		u = v.url.String()
	}
	return fmt.Sprintf("%q %s %q %q %v, %d %q %v, %d and %d bytes", v.net, u, v.method, v.proto, map[string][]string(v.header), v.code, v.resProto, map[string][]string(v.resHdr), v.req, v.res)
}

// apply hands over what the operation does. Without a transaction it just notes it.
func (v *extView) apply(tr *ms.Transaction, op Op) {
	n, s := op.N, string(op.S)
	switch op.K {
	case "conn":
		v.net = [4]string{fmt.Sprintf("192.0.2.%d%s", n, s), fmt.Sprint(1000+n, s), fmt.Sprintf("198.51.100.%d%s", n, s), fmt.Sprint(80+n, s)}
		if tr != nil {
			tr.ProcessConnection(v.net[0], v.net[1], v.net[2], v.net[3])
		}
	case "url":
		v.url, v.method, v.proto = &url.URL{Path: fmt.Sprintf("/%d", n), RawQuery: fmt.Sprintf("a=%d%s", n, s)}, fmt.Sprintf("METHOD%d%s", n, s), fmt.Sprintf("HTTP/%d%s", n, s)
		if n == 0 {
			v.url = nil
		}
		if tr != nil {
			tr.ProcessRequestURL(v.url, v.method, v.proto)
		}
	case "reqhdr":
		v.header = extHeader(n)
		if tr != nil {
			tr.ProcessRequestHeader(v.header)
		}
	case "reshdr":
		v.code, v.resProto, v.resHdr = 200+n, fmt.Sprintf("HTTP/1.%d%s", n, s), extHeader(n)
		if tr != nil {
			tr.ProcessResponseHeaders(v.code, v.resProto, v.resHdr)
		}
	case "append":
		v.req += int64(n)
		if tr != nil {
			herr(tr.AppendRequestBody(make([]byte, n)))
		}
	case "resappend":
		v.res += int64(n)
		if tr != nil {
			herr(tr.AppendResponseBody(make([]byte, n)))
		}
	default:
		panic(&harnessError{errors.New(op.K)})
	}
}

func extHeader(n int) http.Header {
	if n == 0 {
		return nil
	}
	return http.Header{"X": {fmt.Sprint(n)}}
}

func (l *extLog) add(s string) {
	if n := len(l.seen); n == 0 || l.seen[n-1] != s {
		l.seen = append(l.seen, s)
	}
}

type extPart struct {
	rule  int
	vals  []string
	label string
	act   EAct
}

type extVar struct{ extPart }

func (*extVar) Name() string         { return "HOST" }
func (*extVar) Include(string) error { return nil }
func (*extVar) Exclude(string) error { return nil }
func (v *extVar) Fetch(t *ms.Transaction) []string {
	extOf(t).see(t, v.rule, "")
	return v.vals
}

type extTrans struct{ extPart }

func (*extTrans) Name() string { return "host" }
func (v *extTrans) Trans(t *ms.Transaction, s string) string {
	extOf(t).see(t, v.rule, "")
	return s + "!"
}

type extOp struct{ extPart }

func (*extOp) Name() string { return "host" }
func (*extOp) Args() string { return "" }
func (v *extOp) Match(t *ms.Transaction, s string) bool {
	extOf(t).see(t, v.rule, "")
	return s == "x!"
}

type extAct struct{ extPart }

func (*extAct) Name() string       { return "host" }
func (v *extAct) Value() string    { return v.label }
func (v *extAct) ActionGroup() int { return v.act.G }

const extPause = 3 * time.Second

func extURL(n int) string { return fmt.Sprintf("https://example.org/%d", n) }

func (v *extAct) Do(t *ms.Transaction) {
	l := extOf(t)
	l.see(t, v.rule, " in "+v.label)
	switch v.act.K {
	case "jump", "ahead", "phase", "next":
		if l.made[v.label] {
			return
		}
		l.made[v.label] = true
	}
	got := 0
	switch v.act.K {
	case "jump":
		got = t.JumpTo(v.act.N)
	case "ahead":
		got = t.JumpTo(t.CurrentRule() + v.act.N)
	case "phase":
		got = t.JumpToPhase(v.act.N)
	case "next":
		got = t.NextPhase()
	case "redirect":
		i := t.Intervention()
		u, err := url.Parse(extURL(v.act.N))
		if err != nil {
			panic(err)
		}
		i.Url, i.Status, i.Disruptive, i.Pause = u, 302, true, extPause
		i.Log = append(i.Log, v.label)
	case "abort":
		t.AbortWithStatus(v.act.N)
	case "note":
		n, _ := t.Data["notes"].(int)
		t.Data["notes"] = n + 1
	default:
		return
	}
	l.add(fmt.Sprintf("%s done, %d", v.label, got))
}

func (c *ExtCase) label(i, j, k int) string { return fmt.Sprintf("r%d.%d.%d", i, j, k) }

func (c *ExtCase) rules() []*ms.SecRule {
	var all []*ms.SecRule
	for i, r := range c.Rules {
		var top *ms.SecRule
		for j, l := range r.Links {
			sr := ms.NewSecRule()
			sr.Id, sr.Phase = 1000+i, r.Stage
			if j > 0 {
				sr.Id = 5000 + 10*i + j
			}
			p := extPart{rule: i}
			for n := 0; n < l.Vals; n++ {
				p.vals = append(p.vals, "n")
			}
			if l.Match {
				p.vals = append(p.vals, "x")
			}
			sr.AppendVariables(&extVar{p})
			sr.AppendTrans(&extTrans{p})
			sr.SetOperator(&extOp{p})
			for k, a := range l.Acts {
				sr.AppendActions(&extAct{extPart{rule: i, label: c.label(i, j, k), act: a}})
			}
			if j == 0 {
				top = sr
			} else {
				top.AppendSubRules(sr)
			}
		}
		all = append(all, top)
	}
	return all
}

// extModel is the reference.
type extModel struct {
	c          *ExtCase
	by         map[int][]int // stage -> rules
	log        extLog
	view       extView
	stage      int
	rule, next int
	notes      int
	abort      bool
	res        extResult
	results    []extResult
	jumps      int
	restarted  bool
}

type extResult struct {
	status  int
	denied  bool
	url     string
	pause   time.Duration
	entries []string
}

func (m *extModel) see(rule int, what string) {
	sec := "none"
	if rs := m.by[m.stage]; m.rule >= 0 && m.rule < len(rs) {
		sec = fmt.Sprint(1000 + rs[m.rule])
	}
	m.log.add(fmt.Sprintf("rule %d%s sees stage %d rule %d next %d which is %s, notes %d, of the stage %d rules, and %s", rule, what, m.stage, m.rule, m.next, sec, m.notes, len(m.by[m.stage]), m.view))
}

func (m *extModel) jumpTo(i int) int {
	if i < 0 || i >= len(m.by[m.stage]) {
		i = ms.StatusEndOfRules
	}
	m.next = i
	return i
}

func (m *extModel) jumpToPhase(p int) int {
	if p < ms.PhaseBegin {
		p = ms.PhaseBegin
	}
	if p > ms.PhaseEnd {
		p = ms.PhaseEnd
	}
	m.stage, m.rule, m.next = p, ms.StatusNotStarted, 0
	return p
}

func (m *extModel) do(i int, a EAct, label string) {
	m.see(i, " in "+label)
	switch a.K {
	case "jump", "ahead", "phase", "next":
		if m.log.made[label] {
			return
		}
		m.log.made[label] = true
		m.jumps++
	}
	got := 0
	switch a.K {
	case "jump":
		got = m.jumpTo(a.N)
	case "ahead":
		got = m.jumpTo(m.rule + a.N)
	case "phase":
		got = m.jumpToPhase(a.N)
	case "next":
		got = m.jumpToPhase(m.stage + 1)
	case "redirect":
		m.res.url, m.res.status, m.res.denied, m.res.pause = extURL(a.N), 302, true, extPause
		m.res.entries = append(m.res.entries, label)
	case "abort":
		m.abort, m.res.status, m.res.denied = true, a.N, true
	case "note":
		m.notes++
	default:
		return
	}
	m.log.add(fmt.Sprintf("%s done, %d", label, got))
}

func (m *extModel) step() {
	m.rule = m.next
	if m.rule == ms.StatusEndOfRules {
		return
	}
	m.next++
	if m.next >= len(m.by[m.stage]) {
		m.next = ms.StatusEndOfRules
	}
}

func (m *extModel) run(stage int) {
	if m.stage > stage || (m.stage == stage && m.rule != ms.StatusNotStarted) {
		return
	}
	m.jumpToPhase(stage)
	m.step()
	if m.abort || m.res.denied {
		return
	}
	for m.stage == stage && m.rule != ms.StatusEndOfRules && m.rule < len(m.by[stage]) {
		i := m.by[stage][m.rule]
		r := m.c.Rules[i]
		match := true
		m.see(i, "")
		for _, l := range r.Links {
			match = match && l.Match
		}
		if match {
			for j, l := range r.Links {
				for g := 0; g < ms.ActionGroupCount; g++ {
					for k, a := range l.Acts {
						if a.G == g {
							m.do(i, a, m.c.label(i, j, k))
						}
					}
				}
			}
		}
		if m.res.denied {
			return
		}
		if m.stage == stage {
			m.restarted = m.restarted || m.rule == ms.StatusNotStarted
			m.step()
		}
	}
}

func (m *extModel) apply(op Op) {
	switch op.K {
	case "conn", "url", "reqhdr", "reshdr", "append", "resappend":
		m.view.apply(nil, op)
	}
	if s, ok := stageOp[op.K]; ok {
		m.run(s)
		return
	}
	switch op.K {
	case "phase":
		m.log.add(fmt.Sprintf("host jumps to %d", m.jumpToPhase(op.N)))
	case "next":
		m.log.add(fmt.Sprintf("host jumps to %d", m.jumpToPhase(m.stage+1)))
	case "result":
		r := m.res
		r.entries = append([]string(nil), m.res.entries...)
		m.results = append(m.results, r)
		if !m.abort {
			m.res = extResult{status: 200}
		}
	}
}

func checkExt(c *ExtCase, rec *Rec) error {
	newModel := func() *extModel {
		m := &extModel{c: c, by: map[int][]int{}, rule: ms.StatusNotStarted, res: extResult{status: 200}}
		m.log.made = map[string]bool{}
		for i, r := range c.Rules {
			m.by[r.Stage] = append(m.by[r.Stage], i)
		}
		for _, op := range c.Ops {
			m.apply(op)
		}
		return m
	}
	m := newModel()
	rec.NonTrivial(m.jumps > 0)
	rec.ClassIf(m.restarted, "a stage is started over")
	rec.ClassIf(m.abort, "an action aborts")
	rec.ClassIf(m.notes > 1, "notes in the data")
	rec.ClassIf(c.Own, "a rule set of its own")
	e := ms.NewEngine()
	e.TmpPath = scratch()
	rs := e.RuleSet
	if c.Own {
		rs = ms.NewSecRuleSet()
		e.RuleSet = decoy()
	}
	rs.AddRules(c.rules()...)
	for round := 1; round <= 2; round++ {
		tr, err := ms.NewTransaction(e, rs)
		if err != nil {
			return err
		}
		log := &extLog{made: map[string]bool{}}
		tr.Data[extKey] = log
		var got []extResult
		obs := &flowObs{}
		for _, op := range c.Ops {
			switch op.K {
			case "phase":
				log.add(fmt.Sprintf("host jumps to %d", tr.JumpToPhase(op.N)))
			case "next":
				log.add(fmt.Sprintf("host jumps to %d", tr.NextPhase()))
			case "conn", "url", "reqhdr", "reshdr", "append", "resappend":
				new(extView).apply(tr, op)
			default:
				new(FlowCase).applyOp(tr, op, obs)
			}
		}
		closeTx(tr)
		for _, i := range obs.copies {
			r := extResult{status: i.Status, denied: i.Disruptive, pause: i.Pause, entries: i.Log}
			if i.Url != nil {
				r.url = i.Url.String()
			}
			got = append(got, r)
		}
		if d := diffStrings(log.seen, m.log.seen); d != "" {
			return fmt.Errorf("transaction %d: %s", round, d)
		}
		for i, w := range m.results {
			if fmt.Sprint(got[i]) != fmt.Sprint(w) {
				return fmt.Errorf("transaction %d: result %d is %+v, want %+v", round, i, got[i], w)
			}
			if now := obs.results[i]; fmt.Sprint(now.Status, now.Disruptive, now.Url, now.Pause, now.Log) != fmt.Sprint(obs.copies[i].Status, obs.copies[i].Disruptive, obs.copies[i].Url, obs.copies[i].Pause, obs.copies[i].Log) {
				return fmt.Errorf("transaction %d: result %d changed after it was collected: %+v", round, i, *now)
			}
		}
	}
	return nil
}

func genExt(t *rapid.T) *ExtCase {
	c := &ExtCase{Own: chance(t, 1, 4)}
	stages := []int{1, 2, 3, 4, 5, 6}
	if chance(t, 1, 2) {
		stages = []int{2, 2, 3, 5}
	}
	for n := many(t, 1, 9, 30, 150); n > 0; n-- {
		r := ERule{Stage: pick(t, stages...)}
		for l := pick(t, 1, 1, 1, 2, 3); l > 0; l-- {
			k := ELink{Match: !chance(t, 1, 6), Vals: intn(t, 0, 2)}
			for a := pick(t, 0, 1, 1, 2, 3); a > 0; a-- {
				act := EAct{K: pick(t, "see", "jump", "ahead", "ahead", "ahead", "phase", "next", "note", "note"), G: intn(t, 0, 4)}
				if chance(t, 1, 20) {
					act.K = pick(t, "redirect", "abort")
				}
				switch act.K {
				case "jump":
					act.N = pick(t, 0, 1, 2, 3, 4, 5, 8, 1000, 1<<62, -1, -2, -3, math.MinInt64)
				case "ahead":
					act.N = pick(t, 1, 2, 3, 4, 0, -1, -2, 10)
				case "phase":
					act.N = pick(t, 1, 2, 3, 4, 5, 6, 7, 8, 100, 0, -1, -100)
				case "redirect":
					act.N = intn(t, 0, 9)
				case "abort":
					act.N = pick(t, 400, 413, 500, 200, 0)
				}
				k.Acts = append(k.Acts, act)
			}
			r.Links = append(r.Links, k)
		}
		c.Rules = append(c.Rules, r)
	}
	for _, k := range naturalOps {
		if chance(t, 1, 12) {
			continue
		}
		if k == "reqhdr" && !chance(t, 1, 8) {
			c.Ops = append(c.Ops, Op{K: "url", N: intn(t, 0, 9), S: B(pick(t, "", "", "", text(t, 6)))})
		}
		op := Op{K: k, N: intn(t, 0, 9)}
		if k != "reqbody" && chance(t, 1, 8) {
			op.S = B(maybeLong(t, 5000, func() string { return text(t, 6) }))
		}
		c.Ops = append(c.Ops, op)
		if chance(t, 1, 8) {
			c.Ops = append(c.Ops, Op{K: pick(t, append([]string{"url", "append", "resappend"}, naturalOps...)...), N: intn(t, 0, 9)})
		}
		if chance(t, 1, 12) {
			c.Ops = append(c.Ops, Op{K: pick(t, "phase", "next"), N: intn(t, -1, 8)})
		}
		if chance(t, 2, 3) {
			c.Ops = append(c.Ops, Op{K: "result"})
		}
	}
	c.Ops = append(c.Ops, Op{K: "result"}, Op{K: "result"})
	return c
}

func init() {
	register(Prop{ID: "C30", Quick: 600000, Thorough: 9000000,
		Rule: "Random rule sets whose variables, transformations, operators and actions are parts of the harness that note what they see of the transaction, and whose actions jump to rules and stages, redirect, abort and keep data; run twice under random host calls, some of which jump as well. What they see and every result is compared with a reference model. Non-trivial: a jump is made."},
		genExt, checkExt)
}
