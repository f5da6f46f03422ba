package main

// Control flow of a transaction: which rules run, in which order, and what the
// host gets to see. The reference is flowModel, written from the properties.

import (
	"errors"
	"fmt"
	"math"
	"net/http"
	"net/url"
	"reflect"
	"strings"

	ms "github.com/senghoo/modsecurity-go/modsecurity"
	"github.com/senghoo/modsecurity-go/modsecurity/actions"
	"github.com/senghoo/modsecurity-go/seclang"
	"pgregory.net/rapid"
)

// Act is one action of a rule. Names "probe0".."probe4" are actions of the
// harness, one for each action group; they record that they ran.
type Act struct {
	N string `json:"n"`
	A int    `json:"a,omitempty"`
	S string `json:"s,omitempty"`
	R int    `json:"r,omitempty"` // it is written so many times more, as the same object (probes)
}

// Link is a rule, or a link of a chain.
type Link struct {
	Match bool  `json:"match"`
	Neg   bool  `json:"neg,omitempty"`
	None  bool  `json:"none,omitempty"`  // selects no value (then Match is false)
	More  int   `json:"more,omitempty"`  // further values that do not satisfy the operator
	Touch int   `json:"touch,omitempty"` // looks at a part of the traffic as well, number in touched (from 1)
	Acts  []Act `json:"acts"`
}

type FRule struct {
	Stage int    `json:"stage"`
	Same  int    `json:"same,omitempty"` // not 0: it is the rule of that number (from 1) once more
	Links []Link `json:"links"`
}

type Op struct {
	K string `json:"k"`
	N int    `json:"n,omitempty"`
	S B      `json:"s,omitempty"` // appended to the texts handed over
}

type FlowCase struct {
	Mode    int     `json:"mode"`             // 0 never set, 1 On, 2 Off, 3 DetectionOnly
	Before  []int   `json:"before,omitempty"` // modes set before Mode (unless that is 0)
	Field   bool    `json:"field,omitempty"`  // Mode is set by the fields of the engine
	Late    int     `json:"late,omitempty"`   // so many rules are added after the first transaction
	Mid     int     `json:"mid,omitempty"`    // so many rules (before the late ones) are added in the course of the first transaction
	Mode2   int     `json:"mode2,omitempty"`  // set after the first transaction
	SecLang bool    `json:"seclang"`
	Batch   int     `json:"batch"`            // how the rules get into the rule set
	Ids     int     `json:"ids,omitempty"`    // 0 each has its own, 1 all have one, 2 there are three, 3 none
	Share   bool    `json:"share,omitempty"`  // actions, variables and operators that are alike are the same
	Rounds  int     `json:"rounds,omitempty"` // transactions after the second one
	Own     int     `json:"own,omitempty"`    // the rule set is not that of the engine: 1 the engine has another one, 2 none
	Default []Act   `json:"default"`
	Rules   []FRule `json:"rules"`
	Ops     []Op    `json:"ops"`
	Client  []B     `json:"client,omitempty"` // address and port of the client
	Load    int     `json:"load,omitempty"`   // what the traffic is, number in loads
}

// touched are parts of the traffic that rules look at, whatever they find there.
var touched = []string{"ARGS", "ARGS_POST", "REQUEST_BODY", "RESPONSE_BODY", "ARGS_POST_NAMES", "REQUEST_COOKIES", "ARGS_GET_NAMES", "RESPONSE_HEADERS", "REQUEST_URI", "RESPONSE_STATUS", "RESPONSE_CONTENT_TYPE"}

// loads are kinds of traffic. What it is has no part in the flow of control.
var loads = []struct {
	access       bool
	ct, body     string
	resCt, resB  string
	query, extra string
}{
	{},
	{true, "application/x-www-form-urlencoded", "a=b&c=d", "text/html", "body", "a=b", ""},
	{true, "application/x-www-form-urlencoded", "a=%zz", "text/html; charset=", "body", "a=%zz", "\x00"},
	{true, "application/json", `{"a":[1,{"b":"c"}]}`, "application/json", "{}", "", "a=b"},
	{true, "application/json", `{"a":`, "", "", "&&", "a=b; a"},
	{true, "multipart/form-data; boundary=x", "--x\r\nContent-Disposition: form-data; name=\"a\"\r\n\r\nb\r\n--x--\r\n", "image/png", "\x00\xff", "a", ";;"},
	{true, "multipart/form-data; boundary=x", "--x\r\nContent-Disp", "text/html", "", "=", "="},
	{true, "multipart/form-data", "--x", "text", "\n", "", ""},
	{true, "", "a=b", "", "body", "", ""},
	{true, "text/xml", "<a", "text/html", "body", "%", "x"},
	{false, "application/json", "{", "text/html", "body", "", ""},
}

const (
	modeUnset = iota
	modeOn
	modeOff
	modeDetect
)

var stageOp = map[string]int{"conn": 1, "reqhdr": 2, "reqbody": 3, "reshdr": 4, "resbody": 5, "log": 6}
var naturalOps = []string{"conn", "reqhdr", "reqbody", "reshdr", "resbody", "log"}

// ---- harness side variables, operators, actions

type constVar struct {
	vals  []string
	touch ms.Variable
}

func (*constVar) Name() string         { return "CONST" }
func (*constVar) Include(string) error { return nil }
func (*constVar) Exclude(string) error { return nil }
func (v *constVar) Fetch(t *ms.Transaction) []string {
	if v.touch != nil {
		v.touch.Fetch(t)
	}
	return v.vals
}

type eqOp struct{ val string }

func (*eqOp) Name() string                              { return "same" }
func (o *eqOp) Args() string                            { return o.val }
func (o *eqOp) Match(tr *ms.Transaction, s string) bool { return s == o.val }

// probe is an action that reports to the log kept for the transaction it runs in.
type probe struct {
	group int
	label string
}

const traceKey = "verif-trace"

type trace struct{ events []string }

func (p *probe) Name() string     { return "probe" }
func (p *probe) Value() string    { return p.label }
func (p *probe) ActionGroup() int { return p.group }
func (p *probe) Do(t *ms.Transaction) {
	if tc, ok := t.Data[traceKey].(*trace); ok {
		tc.events = append(tc.events, fmt.Sprintf("stage%d:%s", t.CurrentPhase(), p.label))
	}
}

var groupOf = map[string]int{"probe0": 0, "probe1": 1, "probe2": 2, "probe3": 3, "probe4": 4,
	"log": 2, "status": 1, "deny": 3, "pass": 3, "block": 3, "allow": 3, "skip": 4}

func apiAction(a Act, label string) ms.Action {
	switch a.N {
	case "log":
		return actions.NewActionLog()
	case "status":
		return actions.NewActionStatus(a.A)
	case "deny":
		return actions.NewActionDeny()
	case "pass":
		return actions.NewActionPass()
	case "block":
		return actions.NewActionBlock()
	case "allow":
		return actions.NewActionAllow(a.S)
	case "skip":
		if a.A > 1 || a.A < 0 || a.S != "" {
			return actions.NewActionSkipN(a.A)
		}
		return actions.NewActionSkip()
	}
	if strings.HasPrefix(a.N, "probe") {
		return &probe{groupOf[a.N], label}
	}
	panic(&harnessError{errors.New("unknown action " + a.N)})
}

func probeLabel(rule, link, pos int, a Act) string {
	return fmt.Sprintf("r%d.%d.%d.%s", rule, link, pos, a.N)
}

func (l Link) values() []string {
	if l.None {
		return nil
	}
	miss := "n"
	hit := "x"
	if l.Neg {
		miss, hit = hit, miss
	}
	var vals []string
	for i := 0; i < l.More; i++ {
		vals = append(vals, miss)
	}
	if l.Match {
		vals = append(vals, hit)
	} else {
		vals = append(vals, miss)
	}
	if l.More > 1 { // not always the last one
		vals[0], vals[len(vals)-1] = vals[len(vals)-1], vals[0]
	}
	return vals
}

func secText(a Act) string {
	switch a.N {
	case "status":
		return fmt.Sprintf("status:%d", a.A)
	case "allow":
		if a.S == "" {
			return "allow"
		}
		return "allow:" + a.S
	case "skip":
		if a.A > 1 {
			return fmt.Sprintf("skip:%d", a.A)
		}
		return "skip"
	}
	return a.N
}

func setMode(e *ms.Engine, mode int) {
	switch mode {
	case modeOn:
		e.Enable(ms.StatusOn)
	case modeOff:
		e.Enable(ms.StatusOff)
	case modeDetect:
		e.Enable(ms.StatusDect)
	}
}

// setModeField sets the mode as a host may that does not use Enable.
func setModeField(e *ms.Engine, mode int) {
	switch mode {
	case modeOn:
		e.Enabled, e.DetectionOnly = true, false
	case modeOff:
		e.Enabled, e.DetectionOnly = false, false
	case modeDetect:
		e.DetectionOnly = true // whatever Enabled is
	}
}

var modeText = map[int]string{modeOn: "SecRuleEngine On\n", modeOff: "SecRuleEngine Off\n", modeDetect: "SecRuleEngine DetectionOnly\n"}

func (c *FlowCase) build() *ms.Engine {
	e := ms.NewEngine()
	e.TmpPath = scratch()
	if loads[c.Load].access {
		e.RequestBodyAccess, e.ResponseBodyAccess = true, true
	}
	if !c.SecLang {
		for _, m := range c.Before {
			setMode(e, m)
		}
		if c.Field {
			setModeField(e, c.Mode)
		} else {
			setMode(e, c.Mode)
		}
	}
	text := ""
	if c.SecLang && !c.Field {
		for _, m := range c.Before {
			text += modeText[m]
		}
		text += modeText[c.Mode]
	}
	c.addRules(e, text, 0, len(c.Rules)-c.Late-c.Mid)
	if c.SecLang && c.Field {
		setModeField(e, c.Mode)
	}
	var def []ms.Action
	for k, a := range c.Default {
		x := apiAction(a, probeLabel(-1, 0, k, a))
		for n := 0; n <= a.R; n++ {
			def = append(def, x)
		}
	}
	give(c.Batch, e.RuleSet.AddDefaultActions, def)
	return e
}

func (c *FlowCase) id(i int) int {
	switch c.Ids {
	case 1:
		return 7
	case 2:
		return i % 3
	case 3:
		return 0
	}
	return 1000 + i
}

// addLate does what is to be done between the transactions.
func (c *FlowCase) addLate(e *ms.Engine) {
	text := ""
	if c.SecLang {
		text = modeText[c.Mode2]
	} else {
		setMode(e, c.Mode2)
	}
	c.addRules(e, text, len(c.Rules)-c.Late, len(c.Rules))
}

// addRules gives rules from to to-1 to the engine. In rule texts text comes first.
func (c *FlowCase) addRules(e *ms.Engine, text string, from, to int) {
	if c.SecLang {
		var sb strings.Builder
		sb.WriteString(text)
		pos := map[int]int{} // where in their stages the new rules are
		for s, rules := range e.RuleSet.Phases {
			pos[s] = len(rules)
		}
		for i := from; i < to; i++ {
			r := c.Rules[i]
			for j, l := range r.Links {
				acts := []string{"tag:x"}
				if c.Ids != 3 {
					acts = append(acts, fmt.Sprintf("id:%d", c.id(i)))
				}
				if j == 0 {
					acts = append(acts, fmt.Sprintf("phase:%d", r.Stage))
				}
				for _, a := range l.Acts {
					if !strings.HasPrefix(a.N, "probe") {
						acts = append(acts, secText(a))
					}
				}
				if j < len(r.Links)-1 {
					acts = append(acts, "chain")
				}
				op := "@rx ^"
				if l.Neg == l.Match {
					op = "@rx [^\\\\x00-\\\\x{10FFFF}]" // matches nothing
				}
				if l.Neg {
					op = "!" + op
				}
				target := "REMOTE_ADDR"
				if l.None {
					target = "REQUEST_HEADERS:X-Absent"
				} else if l.Touch > 0 {
					target += "|" + touched[l.Touch-1]
				}
				fmt.Fprintf(&sb, "SecRule %s \"%s\" \"%s\"\n", target, op, strings.Join(acts, ","))
			}
		}
		ds, err := seclang.NewDireSetFromSecLangString(sb.String())
		if err != nil {
			panic(fmt.Sprintf("rules do not load: %v\n%s", err, sb.String()))
		}
		if err := ds.Execute(e); err != nil {
			panic(fmt.Sprintf("rules do not load: %v\n%s", err, sb.String()))
		}
		// put the probes where the case has them
		for i := from; i < to; i++ {
			r := c.Rules[i]
			rules := e.RuleSet.Phases[r.Stage]
			if pos[r.Stage] >= len(rules) {
				panic(fmt.Sprintf("rule %d is not in its stage\n%s", i, sb.String()))
			}
			rule := rules[pos[r.Stage]]
			pos[r.Stage]++
			if len(rule.SubRules) != len(r.Links)-1 {
				panic(fmt.Sprintf("rule %d has %d chained rules\n%s", i, len(rule.SubRules), sb.String()))
			}
			for j, l := range r.Links {
				target := rule
				if j > 0 {
					target = rule.SubRules[j-1]
				}
				var acts []ms.Action
				next := 0
				for k, a := range l.Acts {
					if strings.HasPrefix(a.N, "probe") {
						x := apiAction(a, probeLabel(i, j, k, a))
						for n := 0; n <= a.R; n++ {
							acts = append(acts, x)
						}
						continue
					}
					if next >= len(target.Actions) || target.Actions[next].Name() != a.N {
						panic(fmt.Sprintf("action %s of rule %d is missing\n%s", a.N, i, sb.String()))
					}
					acts = append(acts, target.Actions[next])
					next++
				}
				target.Actions = acts
			}
		}
	} else {
		shared := map[string]ms.Action{}
		action := func(a Act, label string) ms.Action {
			if !c.Share || strings.HasPrefix(a.N, "probe") {
				return apiAction(a, label)
			}
			key := fmt.Sprint(a)
			if shared[key] == nil {
				shared[key] = apiAction(a, label)
			}
			return shared[key]
		}
		vars := map[string]*constVar{}
		oper := &eqOp{"x"}
		byIndex := map[int]*ms.SecRule{}
		var all []*ms.SecRule
		for i := from; i < to; i++ {
			r := c.Rules[i]
			if r.Same > 0 {
				if byIndex[r.Same-1] == nil { // it came with an earlier call
					seen := 0
					for _, o := range c.Rules[:r.Same-1] {
						if o.Stage == r.Stage {
							seen++
						}
					}
					byIndex[r.Same-1] = e.RuleSet.Phases[r.Stage][seen]
				}
				all = append(all, byIndex[r.Same-1])
				continue
			}
			var parent *ms.SecRule
			var subs []*ms.SecRule
			for j, l := range r.Links {
				sr := ms.NewSecRule()
				sr.Id = c.id(i)
				sr.Phase = r.Stage
				sr.Not = l.Neg
				v := &constVar{vals: l.values()}
				if l.Touch > 0 {
					v.touch = newVariable[touched[l.Touch-1]]()
				}
				if key := fmt.Sprint(v.vals, l.Touch); c.Share {
					if vars[key] == nil {
						vars[key] = v
					}
					v = vars[key]
				} else {
					oper = &eqOp{"x"}
				}
				sr.AppendVariables(v)
				sr.SetOperator(oper)
				var acts []ms.Action
				for k, a := range l.Acts {
					x := action(a, probeLabel(i, j, k, a))
					for n := 0; n <= a.R; n++ {
						acts = append(acts, x)
					}
				}
				give(c.Batch, sr.AppendActions, acts)
				if j == 0 {
					parent = sr
				} else {
					subs = append(subs, sr)
				}
			}
			give(c.Batch, parent.AppendSubRules, subs)
			byIndex[i] = parent
			all = append(all, parent)
		}
		if c.Batch == 1 || c.Batch == 4 {
			give(c.Batch, e.AddSecRule, all)
		} else {
			give(c.Batch, e.RuleSet.AddRules, all)
		}
	}
}

// ---- observations

type logLine struct {
	all []string // every one of these is part of the line
}

type flowResult struct {
	status     int
	disruptive bool
	log        []logLine
}

// client is where requests come from, or what the host takes for it.
func (c *FlowCase) client() (ip, port string) {
	if c.Client == nil {
		return "192.0.2.7", "4711"
	}
	return string(c.Client[0]), string(c.Client[1])
}

type flowObs struct {
	events  []string
	results []*ms.Intervention
	copies  []ms.Intervention
	kept    []ms.Intervention // the same, as the host left them
}

// decoy is a rule set that no transaction is to run.
func decoy() *ms.SecRuleSet {
	rs := ms.NewSecRuleSet()
	for stage := 1; stage <= 6; stage++ {
		r := ms.NewSecRule()
		r.Phase = stage
		r.AppendVariables(&constVar{vals: []string{"x"}})
		r.SetOperator(&eqOp{"x"})
		r.AppendActions(&probe{2, "decoy"}, actions.NewActionDeny())
		rs.AddRules(r)
	}
	rs.AddDefaultActions(&probe{2, "decoy"}, actions.NewActionStatus(599), actions.NewActionDeny())
	return rs
}

func (c *FlowCase) run(e *ms.Engine, first bool) *flowObs {
	own, ops := c.Own, c.Ops
	rs := e.RuleSet
	defer func() { e.RuleSet = rs }()
	switch own {
	case 1:
		e.RuleSet = decoy()
	case 2:
		e.RuleSet = nil
	}
	var tr *ms.Transaction
	var err error
	if own == 0 {
		tr, err = e.NewTransaction()
	} else {
		tr, err = ms.NewTransaction(e, rs)
	}
	if err != nil {
		panic(fmt.Sprintf("no transaction: %v", err))
	}
	obs := &flowObs{}
	tc := &trace{}
	tr.Data[traceKey] = tc
	tr.SrcIp, tr.SrcPort = c.client()
	for _, op := range ops {
		switch op.K {
		case "add":
			if first {
				was := e.RuleSet
				e.RuleSet = rs
				c.addRules(e, "", len(c.Rules)-c.Late-c.Mid, len(c.Rules)-c.Late)
				e.RuleSet = was
			}
		case "mode":
			if op.N < 0 {
				setModeField(e, -op.N)
			} else {
				setMode(e, op.N)
			}
		default:
			c.applyOp(tr, op, obs)
		}
	}
	obs.events = tc.events
	return obs
}

func (c *FlowCase) applyOp(tr *ms.Transaction, op Op, obs *flowObs) {
	switch op.K {
	case "conn":
		ip, port := c.client()
		tr.ProcessConnection(ip, port, "198.51.100.1", "80")
	case "url":
		tr.ProcessRequestURL(&url.URL{Path: "/a", RawQuery: loads[c.Load].query}, "POST", "HTTP/1.1")
	case "reqhdr":
		h := http.Header{"Host": {"h"}}
		if l := loads[c.Load]; l.ct != "" {
			h["Content-Type"] = []string{l.ct}
			h["Cookie"] = []string{l.extra}
		}
		tr.ProcessRequestHeader(h)
	case "append":
		tr.AppendRequestBody([]byte(loads[c.Load].body))
	case "appendres":
		tr.AppendResponseBody([]byte(loads[c.Load].resB))
	case "reqbody":
		tr.ProcessRequestBody()
	case "reshdr":
		h := http.Header{}
		if l := loads[c.Load]; l.resCt != "" {
			h["Content-Type"] = []string{l.resCt}
		}
		code := op.N
		if code == 0 {
			code = 200
		}
		tr.ProcessResponseHeaders(code, "HTTP/1.1", h)
	case "resbody":
		tr.ProcessResponseBody()
	case "log":
		tr.ProcessLogging()
	case "abort":
		tr.AbortWithStatus(op.N)
	case "aborterr":
		tr.AbortWithError(op.N, errors.New("host"))
	case "stage":
		tr.ProcessPhase(op.N)
	case "reset":
		if !tr.Abort {
			tr.ResetIntervention()
		}
	case "result":
		i := tr.Result()
		obs.results = append(obs.results, i)
		cp := *i
		cp.Log = append([]string(nil), i.Log...)
		obs.copies = append(obs.copies, cp)
		if op.N > 0 { // the host uses it for something of its own
			for k := range i.Log {
				i.Log[k] = "host"
			}
			i.Log = append(i.Log, "host")
			i.Status, i.Disruptive, i.Pause = 299, !i.Disruptive, 1
			cp = *i
			cp.Log = append([]string(nil), i.Log...)
		}
		obs.kept = append(obs.kept, cp)
	default:
		panic(&harnessError{errors.New("unknown op " + op.K)})
	}
}

// ---- the reference

type flowModel struct {
	c       *FlowCase
	rules   []FRule
	mode    int
	started int // the last stage started or skipped for good
	abort   bool
	status  int
	pending bool
	log     []logLine
	data    int
	events  []string
	results []flowResult

	stage, rule int
	allowed     bool
	skip        int
	moved       bool // the stage was left in the middle of a rule
	ran, fired  int
	denied      int
}

func (m *flowModel) line(parts ...string) {
	ip, port := m.c.client()
	all := []string{"[client " + ip + ":" + port + "]"}
	if !m.moved {
		all = append(all, fmt.Sprintf("(phase %d)", m.stage))
	}
	m.log = append(m.log, logLine{append(all, parts...)})
}

func (m *flowModel) act(acts []Act, rule, link int) {
	for group := 0; group < 5; group++ {
		if group == 3 && m.mode == modeDetect {
			continue
		}
		for k, a := range acts {
			if groupOf[a.N] != group {
				continue
			}
			switch a.N {
			case "log":
				if m.moved {
					m.line()
				} else {
					m.line(fmt.Sprintf("phase %d rule %d", m.stage, m.rule))
				}
			case "status":
				m.data = a.A
			case "deny":
				m.denied++
				if m.data >= 100 && m.data <= 599 {
					m.status = m.data
				} else {
					m.status = 403
				}
				m.pending = true
				m.line(fmt.Sprintf("Access denied with code %d", m.status))
			case "pass":
				m.pending, m.status = false, 200
			case "block":
				m.act(m.c.Default, -1, 0)
			case "allow":
				m.allowed, m.moved = true, true
				switch a.S {
				case "":
					if m.started < 5 {
						m.started = 5
					}
				case "request":
					if m.started < 3 {
						m.started = 3
					}
				}
			case "skip":
				n := a.A
				if n == 0 && a.S == "" {
					n = 1
				}
				m.skip = max(n, 0)
			default:
				ev := probeLabel(rule, link, k, a)
				if m.moved {
					ev = "*:" + ev
				} else {
					ev = fmt.Sprintf("stage%d:%s", m.stage, ev)
				}
				for n := 0; n <= a.R; n++ {
					m.events = append(m.events, ev)
				}
			}
		}
	}
}

func (m *flowModel) run(stage int) {
	if stage <= m.started {
		return
	}
	m.started = stage
	if stage > 6 {
		m.started = 7
		return
	}
	m.stage = stage
	if m.abort || m.pending || m.mode == modeOff {
		return
	}
	index := -1
	skip := 0
	for i, r := range m.rules {
		if r.Stage != stage {
			continue
		}
		index++
		if skip > 0 {
			skip--
			continue
		}
		m.ran++
		match := true
		if r.Same > 0 {
			i = r.Same - 1
			r = m.c.Rules[i]
		}
		for _, l := range r.Links {
			match = match && l.Match && !l.None
		}
		if !match {
			continue
		}
		m.fired++
		m.rule, m.skip, m.allowed, m.moved, m.data = index, 0, false, false, 0
		for j, l := range r.Links {
			m.act(l.Acts, i, j)
		}
		m.moved = false
		if m.pending || m.allowed {
			return
		}
		skip = m.skip
	}
}

func (m *flowModel) apply(op Op) {
	if s, ok := stageOp[op.K]; ok {
		m.run(s)
		return
	}
	switch op.K {
	case "add":
		m.rules = m.c.Rules[:max(len(m.rules), len(m.c.Rules)-m.c.Late)]
	case "mode":
		m.mode = max(op.N, -op.N)
	case "abort", "aborterr":
		if !(op.K == "aborterr" && m.mode == modeDetect) {
			m.abort, m.status, m.pending = true, op.N, true
		}
		if op.K == "aborterr" {
			m.moved = true
			m.line("host")
			m.moved = false
		}
	case "stage":
		m.run(op.N)
	case "reset":
		if !m.abort {
			m.status, m.pending, m.log = 200, false, nil
		}
	case "result":
		m.results = append(m.results, flowResult{m.status, m.pending, append([]logLine(nil), m.log...)})
		if !m.abort {
			m.status, m.pending, m.log = 200, false, nil
		}
	}
}

func matchLines(want []logLine, got []string) error {
	if len(want) != len(got) {
		return fmt.Errorf("%d log lines, want %d: %q", len(got), len(want), got)
	}
	for i, w := range want {
		for _, part := range w.all {
			if !strings.Contains(got[i], part) {
				return fmt.Errorf("log line %d is %q, want it to have %q", i, got[i], part)
			}
		}
	}
	return nil
}

func (m *flowModel) compare(obs *flowObs) error {
	if len(m.events) != len(obs.events) {
		return fmt.Errorf("%d actions ran, want %d:\n got %q\nwant %q", len(obs.events), len(m.events), obs.events, m.events)
	}
	for i, w := range m.events {
		g := obs.events[i]
		if strings.HasPrefix(w, "*:") {
			g = g[strings.Index(g, ":"):]
			w = w[1:]
		}
		if w != g {
			return fmt.Errorf("action %d is %s, want %s:\n got %q\nwant %q", i, g, w, obs.events, m.events)
		}
	}
	if len(m.results) != len(obs.results) {
		return &harnessError{errors.New("results")}
	}
	for i, w := range m.results {
		g := obs.copies[i]
		if g.Disruptive != w.disruptive || g.Status != w.status {
			return fmt.Errorf("result %d: status %d disruptive %v, want %d %v", i, g.Status, g.Disruptive, w.status, w.disruptive)
		}
		if g.Url != nil || g.Pause != 0 {
			return fmt.Errorf("result %d has an url or a pause", i)
		}
		if err := matchLines(w.log, g.Log); err != nil {
			return fmt.Errorf("result %d: %v", i, err)
		}
		// what was collected does not change afterwards
		now, g := *obs.results[i], obs.kept[i]
		if now.Status != g.Status || now.Disruptive != g.Disruptive || len(now.Log) != len(g.Log) || (len(g.Log) > 0 && !reflect.DeepEqual(now.Log, g.Log)) {
			return fmt.Errorf("result %d changed after it was collected: %+v, was %+v", i, now, g)
		}
	}
	return nil
}

func checkFlow(nontrivial func(c *FlowCase, m *flowModel) bool) func(*FlowCase, *Rec) error {
	return func(c *FlowCase, rec *Rec) error {
		var models []*flowModel
		for round, mode := range []int{c.Mode, c.Mode2} {
			m := &flowModel{c: c, rules: c.Rules, mode: mode, status: 200}
			if round == 0 {
				m.rules = c.Rules[:len(c.Rules)-c.Late-c.Mid]
			} else if mode == modeUnset {
				m.mode = models[0].mode
			}
			for _, op := range c.Ops {
				m.apply(op)
			}
			models = append(models, m)
		}
		m := models[1]
		rec.ClassIf(c.Mid > 0, "rules added in a transaction")
		for _, op := range c.Ops {
			if op.K == "mode" {
				rec.Class("mode changed in a transaction")
				break
			}
		}
		rec.ClassIf(c.Late > 0, "rules added between transactions")
		rec.ClassIf(m.mode != models[0].mode, "mode changed between transactions")
		rec.ClassIf(len(c.Before) > 0 && c.Mode != modeUnset, "mode set more than once")
		rec.ClassIf(c.Field, "mode set by fields")
		rec.ClassIf(c.Own > 0, "a rule set of its own")
		rec.NonTrivial(nontrivial(c, m))
		rec.ClassIf(c.SecLang, "seclang")
		rec.ClassIf(!c.SecLang, "api")
		rec.ClassIf(m.denied > 0, "denied")
		rec.ClassIf(m.fired > 0, "fired")
		rec.ClassIf(m.abort, "aborted")
		rec.ClassIf(len(c.Rules) > 12, "many rules")
		rec.ClassIf(len(c.Rules) > 100, "very many rules")
		rec.ClassIf(c.Rounds > 0, "very many transactions")
		rec.ClassIf(c.Share, "shared parts")
		rec.ClassIf(c.Load > 0, "traffic with bodies")
		rec.ClassIf(c.Ids > 0, "rules without ids of their own")
		e := c.build()
		for round, m := range models {
			if round > 0 {
				c.addLate(e)
			}
			if err := m.compare(c.run(e, round == 0)); err != nil {
				return fmt.Errorf("transaction %d of the engine: %w", round+1, err)
			}
		}
		for round := 0; round < c.Rounds; round++ {
			if err := models[1].compare(c.run(e, false)); err != nil {
				return fmt.Errorf("transaction %d of the engine: %w", round+3, err)
			}
		}
		return nil
	}
}

// ---- generators

type flowCfg struct {
	modes      []int
	disruptive []string // drawn for the first link of a rule
	allowArgs  []string
	disChance  [2]int
	chainMax   int
	chainP     [2]int
	skipP      [2]int
	stages     []int // stages favoured
	messyOps   bool
	aborts     bool
	shuffleAct bool
	noMatchP   [2]int
	statusP    [2]int
	maxRules   int
	rareRules  int
}

func genStatus(t *rapid.T) int {
	if chance(t, 1, 6) {
		return intn(t, 100, 599)
	}
	return pick(t, 403, 404, 500, 302, 200, 100, 599, 99, 600, 0, -1, 406, 429, 503, 501, 204, 401, 101, 598, 1000, 300, 40, 4030)
}

func genActs(t *rapid.T, cfg flowCfg, first bool, seclang bool) []Act {
	var acts []Act
	n := intn(t, 0, 3)
	if chance(t, 1, 50) {
		n = intn(t, 8, 40)
	}
	for i := 0; i < n; i++ {
		a := Act{N: fmt.Sprintf("probe%d", intn(t, 0, 4))}
		if chance(t, 1, 40) {
			a.R = count(t, 1, 3, 30)
		}
		acts = append(acts, a)
	}
	if chance(t, 1, 3) {
		acts = append(acts, Act{N: "log"})
	}
	if chance(t, cfg.statusP[0], cfg.statusP[1]) {
		acts = append(acts, Act{N: "status", A: genStatus(t)})
	}
	if cfg.skipP[0] > 0 && chance(t, cfg.skipP[0], cfg.skipP[1]) && first {
		acts = append(acts, Act{N: "skip", A: pick(t, 1, 2, 3, 1, 4, 5, 7, 10, 11, 40, 100, 127, 128, 255, 256, 257, 1000, 1000000, 1<<63-1, 1<<63-3)})
		if !seclang && chance(t, 1, 30) { // nothing at all
			acts[len(acts)-1] = Act{N: "skip", A: pick(t, 0, -1, -2, -3, -100, math.MinInt64), S: "n"}
		}
	}
	if (first || chance(t, 1, 10)) && len(cfg.disruptive) > 0 && chance(t, cfg.disChance[0], cfg.disChance[1]) {
		for n := pick(t, 1, 1, 1, 1, 1, 1, 2, 3); n > 0; n-- {
			a := Act{N: pick(t, cfg.disruptive...)}
			if a.N == "allow" {
				a.S = pick(t, cfg.allowArgs...)
			}
			acts = append(acts, a)
		}
	}
	if len(acts) == 0 {
		acts = append(acts, Act{N: "probe2"})
	}
	if cfg.shuffleAct && len(acts) > 1 {
		acts = rapid.Permutation(acts).Draw(t, "acts")
	}
	return acts
}

// oneDecision drops disruptive actions of a rule that have no meaning together:
// all but the first allow, and blocks next to what denies.
func oneDecision(r *FRule) {
	allows, denies := 0, 0
	statuses := false // the status is not the same for all links
	for i, l := range r.Links {
		for _, a := range l.Acts {
			statuses = statuses || i > 0 && a.N == "status"
		}
	}
	for i := range r.Links {
		var acts []Act
		for _, a := range r.Links[i].Acts {
			switch a.N {
			case "allow":
				if allows++; allows > 1 {
					continue
				}
			case "deny", "block":
				if denies++; denies > 1 && (a.N == "block" || statuses) {
					continue
				}
				if a.N == "block" {
					denies = 100
				} else if denies > 100 {
					continue
				}
			}
			acts = append(acts, a)
		}
		if len(acts) == 0 {
			acts = []Act{{N: "probe1"}}
		}
		r.Links[i].Acts = acts
	}
}

// messyOp is a call that is not part of the usual course.
func messyOp(t *rapid.T) Op {
	switch intn(t, 0, 5) {
	case 0:
		return Op{K: "reset"}
	case 1, 2:
		o := Op{K: "stage", N: intn(t, 1, 6)}
		if chance(t, 1, 10) {
			o.N = pick(t, 7, 8, 100, 0, -1)
		}
		return o
	}
	return Op{K: pick(t, naturalOps...)}
}

func genFlow(cfg flowCfg) func(t *rapid.T) *FlowCase {
	return func(t *rapid.T) *FlowCase {
		c := &FlowCase{Mode: pick(t, cfg.modes...), SecLang: chance(t, 1, 3), Batch: intn(t, 0, 4)}
		if chance(t, 1, 4) {
			if c.Mode != modeUnset {
				for n := intn(t, 1, 3); n > 0; n-- {
					c.Before = append(c.Before, pick(t, modeOn, modeOff, modeDetect))
				}
			}
			c.Field = chance(t, 1, 3)
		}
		if chance(t, 1, 4) {
			c.Mode2 = pick(t, cfg.modes...)
		}
		if chance(t, 1, 6) {
			c.Own = intn(t, 1, 2)
		}
		if chance(t, 1, 3) {
			c.Load = intn(t, 1, len(loads)-1)
		}
		if chance(t, 1, 5) {
			c.Client = []B{genAddr(t), B(pick(t, "80", "", "65535", "%d", "0"))}
		}
		maxStage := 6
		if c.SecLang {
			maxStage = 5
		}
		for i := intn(t, 0, 3); i > 0; i-- {
			c.Default = append(c.Default, pick(t, Act{N: "probe2"}, Act{N: "deny"}, Act{N: "log"}, Act{N: "status", A: 406}, Act{N: "probe0"}, Act{N: "probe4"}, Act{N: "probe3"}))
		}
		max := cfg.maxRules
		if max == 0 {
			max = 8
		}
		rare := cfg.rareRules
		if rare == 0 {
			rare = 40
		}
		for n := count(t, 1, max, rare); n > 0; n-- {
			r := FRule{}
			if len(cfg.stages) > 0 && chance(t, 3, 4) {
				r.Stage = pick(t, cfg.stages...)
			} else {
				r.Stage = intn(t, 1, maxStage)
			}
			if r.Stage > maxStage {
				r.Stage = maxStage
			}
			if !c.SecLang && chance(t, 1, 60) { // there is no such stage
				r.Stage = pick(t, 0, 7, -1, 8, 100)
			}
			links := 1
			if cfg.chainMax > 1 && chance(t, cfg.chainP[0], cfg.chainP[1]) {
				links = many(t, 2, 4, cfg.chainMax, 70)
			}
			main := 0 // the link with the disruptive action and skip
			if links > 1 && chance(t, 1, 4) {
				main = intn(t, 1, links-1)
			}
			for j := 0; j < links; j++ {
				l := Link{Match: true, Neg: rapid.Bool().Draw(t, "neg"), Acts: genActs(t, cfg, j == main, c.SecLang)}
				if chance(t, cfg.noMatchP[0], cfg.noMatchP[1]) {
					l.Match = false
					l.None = chance(t, 1, 3)
				}
				if !c.SecLang && chance(t, 1, 4) {
					l.More = many(t, 1, 3, 30, 1000)
				}
				if c.Load > 0 && chance(t, 1, 2) {
					l.Touch = intn(t, 1, len(touched))
				}
				r.Links = append(r.Links, l)
			}
			oneDecision(&r)
			c.Rules = append(c.Rules, r)
			if !c.SecLang && chance(t, 1, 12) {
				again := intn(t, 1, len(c.Rules))
				if o := c.Rules[again-1]; o.Same == 0 && o.Stage >= 1 && o.Stage <= 6 {
					c.Rules = append(c.Rules, FRule{Stage: c.Rules[again-1].Stage, Same: again})
				}
			}
		}
		if chance(t, 1, 6) {
			c.Ids = intn(t, 1, 3)
		}
		c.Share = !c.SecLang && chance(t, 1, 4)
		if chance(t, 1, 400) {
			c.Rounds = bigSize(t, 520)
		}
		if chance(t, 1, 600) { // rules upon rules
			n := bigSize(t, 1100)
			for i := 0; len(c.Rules) < n; i++ {
				if r := c.Rules[i]; r.Same == 0 {
					c.Rules = append(c.Rules, r)
				} else {
					c.Rules = append(c.Rules, FRule{Stage: r.Stage, Links: c.Rules[r.Same-1].Links})
				}
			}
			c.Rounds = 0
		}
		if chance(t, 1, 4) {
			c.Late = intn(t, 1, len(c.Rules))
		}
		if !cfg.messyOps || chance(t, 1, 2) {
			for _, k := range naturalOps {
				if cfg.messyOps && chance(t, 1, 8) {
					continue
				}
				if k == "reqhdr" {
					c.Ops = append(c.Ops, Op{K: "url"})
				}
				if k == "reqbody" && c.Load > 0 {
					c.Ops = append(c.Ops, Op{K: "append"})
				}
				if k == "resbody" && c.Load > 0 {
					c.Ops = append(c.Ops, Op{K: "appendres"})
				}
				c.Ops = append(c.Ops, Op{K: k})
				if cfg.messyOps && chance(t, 1, 5) {
					c.Ops = append(c.Ops, messyOp(t))
				}
				if cfg.aborts && chance(t, 1, 12) {
					c.Ops = append(c.Ops, Op{K: pick(t, "abort", "aborterr"), N: pick(t, 413, 500, 403, 400, 200, 200, 100, 0, -1, 599, 1000)})
				}
				if chance(t, 2, 3) {
					c.Ops = append(c.Ops, Op{K: "result"})
				}
			}
		} else {
			for n := count(t, 1, 14, 40); n > 0; n-- {
				k := pick(t, append([]string{"result", "url", "append", "appendres"}, naturalOps...)...)
				c.Ops = append(c.Ops, Op{K: k})
				if chance(t, 1, 12) {
					c.Ops = append(c.Ops, messyOp(t))
				}
				if cfg.aborts && chance(t, 1, 20) {
					c.Ops = append(c.Ops, Op{K: pick(t, "abort", "aborterr"), N: pick(t, 413, 500, 403, 400, 200, 200, 100, 0, -1, 599, 1000)})
				}
			}
		}
		for i := range c.Ops {
			if c.Ops[i].K == "reshdr" && chance(t, 1, 3) {
				c.Ops[i].N = pick(t, 100, 101, 102, 103, 150, 199, 201, 204, 304, 404, 500, 599, 600, 999, -1, 1)
			}
		}
		insert := func(op Op) {
			i := intn(t, 0, len(c.Ops))
			c.Ops = append(c.Ops[:i:i], append([]Op{op}, c.Ops[i:]...)...)
		}
		if n := len(c.Rules) - c.Late; n > 0 && chance(t, 1, 8) {
			c.Mid = intn(t, 1, n)
			insert(Op{K: "add"})
		}
		if chance(t, 1, 10) {
			for n := intn(t, 1, 3); n > 0; n-- {
				insert(Op{K: "mode", N: pick(t, modeOn, modeOff, modeDetect) * pick(t, 1, 1, -1)})
			}
			c.Rounds = 0
		}
		if chance(t, 1, 200) { // a host that asks all the time
			var ops []Op
			for _, op := range c.Ops {
				ops = append(ops, op)
				for n := intn(t, 0, 40); n > 0; n-- {
					ops = append(ops, Op{K: "result"})
				}
			}
			c.Ops = ops
		}
		c.Ops = append(c.Ops, Op{K: "result"}, Op{K: "result"})
		for i := range c.Ops {
			if c.Ops[i].K == "result" && chance(t, 1, 6) {
				c.Ops[i].N = 1
			}
		}
		return c
	}
}

func (c *FlowCase) has(name string) bool {
	for _, r := range c.Rules {
		for _, l := range r.Links {
			for _, a := range l.Acts {
				if a.N == name {
					return true
				}
			}
		}
	}
	return false
}

const flowRule = "Random rule sets (built through the Go API or loaded from SecLang, 1-8 rules, or up to 16, now and then 40, over all stages) and random sequences of host calls, run twice on one engine, between which rules may be added and the mode changed; the trace of probe actions and every collected intervention is compared with a reference model. "

func init() {
	register(Prop{ID: "C02", Quick: 800000, Thorough: 12000000,
		Rule: flowRule + "Non-trivial: at least two rules run and the host calls are not each stage once in order."},
		genFlow(flowCfg{modes: []int{modeUnset, modeOn, modeOn}, disruptive: []string{"deny", "allow", "pass"}, allowArgs: []string{"", "phase", "request"}, disChance: [2]int{1, 12}, chainMax: 4, chainP: [2]int{1, 8}, messyOps: true, noMatchP: [2]int{1, 6}, statusP: [2]int{1, 20}, maxRules: 16}),
		checkFlow(func(c *FlowCase, m *flowModel) bool {
			last, plain := 0, true
			for _, op := range c.Ops {
				if s := stageOp[op.K]; s > 0 {
					plain = plain && s == last+1
					last = s
				}
			}
			return m.ran >= 2 && !plain
		}))

	register(Prop{ID: "C03", Quick: 800000, Thorough: 12000000,
		Rule: flowRule + "Non-trivial: a rule denies, or the host aborts, and there are later rules or host calls it must affect."},
		genFlow(flowCfg{modes: []int{modeOn, modeOn, modeUnset}, disruptive: []string{"deny", "deny", "deny", "block", "pass"}, disChance: [2]int{1, 3}, chainMax: 3, chainP: [2]int{1, 6}, messyOps: true, aborts: true, noMatchP: [2]int{1, 3}, statusP: [2]int{1, 3}, shuffleAct: true}),
		checkFlow(func(c *FlowCase, m *flowModel) bool {
			return (m.denied > 0 || m.abort) && len(c.Rules) > 1
		}))

	register(Prop{ID: "C04", Quick: 800000, Thorough: 12000000,
		Rule: flowRule + "Non-trivial: a rule with allow fires."},
		genFlow(flowCfg{modes: []int{modeOn, modeUnset}, disruptive: []string{"allow", "allow", "allow", "deny"}, allowArgs: []string{"", "phase", "request"}, disChance: [2]int{1, 2}, chainMax: 3, chainP: [2]int{1, 8}, messyOps: true, noMatchP: [2]int{1, 3}, statusP: [2]int{1, 20}, skipP: [2]int{1, 12}, shuffleAct: true}),
		checkFlow(func(c *FlowCase, m *flowModel) bool {
			return c.has("allow") && m.fired > 0
		}))

	register(Prop{ID: "C05", Quick: 800000, Thorough: 12000000,
		Rule: flowRule + "Non-trivial: a chain of two or more links is evaluated."},
		genFlow(flowCfg{modes: []int{modeOn, modeUnset, modeDetect}, disruptive: []string{"deny", "block", "pass"}, disChance: [2]int{1, 4}, chainMax: 12, chainP: [2]int{3, 4}, noMatchP: [2]int{1, 6}, statusP: [2]int{1, 6}, skipP: [2]int{1, 12}, shuffleAct: true, maxRules: 6, rareRules: 15}),
		checkFlow(func(c *FlowCase, m *flowModel) bool {
			for _, r := range c.Rules {
				if len(r.Links) > 1 {
					return m.ran > 0
				}
			}
			return false
		}))

	register(Prop{ID: "C06", Quick: 800000, Thorough: 12000000,
		Rule: flowRule + "Non-trivial: a rule with skip fires and its stage has further rules."},
		genFlow(flowCfg{modes: []int{modeOn, modeUnset, modeDetect}, disruptive: []string{"deny", "pass", "allow"}, allowArgs: []string{"", "phase", "request"}, disChance: [2]int{1, 12}, chainMax: 3, chainP: [2]int{1, 6}, noMatchP: [2]int{1, 4}, statusP: [2]int{1, 20}, skipP: [2]int{1, 2}, stages: []int{2, 3}, maxRules: 14}),
		checkFlow(func(c *FlowCase, m *flowModel) bool {
			return c.has("skip") && m.fired > 0 && len(c.Rules) > 2
		}))

	register(Prop{ID: "C07", Quick: 800000, Thorough: 12000000,
		Rule: flowRule + "Non-trivial: the engine is Off or DetectionOnly and a rule of it would have matched, or it is on and one fires."},
		genFlow(flowCfg{modes: []int{modeOff, modeDetect, modeDetect, modeOn, modeUnset}, disruptive: []string{"deny", "deny", "block", "pass", "allow"}, allowArgs: []string{"", "phase", "request"}, disChance: [2]int{1, 2}, chainMax: 3, chainP: [2]int{1, 6}, messyOps: true, aborts: true, noMatchP: [2]int{1, 5}, statusP: [2]int{1, 5}, skipP: [2]int{1, 12}, shuffleAct: true}),
		checkFlow(func(c *FlowCase, m *flowModel) bool {
			return m.mode == modeOff || m.fired > 0
		}))

	register(Prop{ID: "C08", Quick: 800000, Thorough: 12000000,
		Rule: flowRule + "The actions of every rule are written in a random order. Non-trivial: a rule fires that has two or more actions."},
		genFlow(flowCfg{modes: []int{modeOn, modeOn, modeDetect}, disruptive: []string{"deny", "block", "pass", "allow"}, allowArgs: []string{"", "phase", "request"}, disChance: [2]int{2, 3}, chainMax: 3, chainP: [2]int{1, 4}, noMatchP: [2]int{1, 8}, statusP: [2]int{1, 2}, skipP: [2]int{1, 6}, shuffleAct: true, maxRules: 5}),
		checkFlow(func(c *FlowCase, m *flowModel) bool {
			for _, r := range c.Rules {
				for _, l := range r.Links {
					if len(l.Acts) > 1 {
						return m.fired > 0
					}
				}
			}
			return false
		}))
}
