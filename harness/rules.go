package main

// The verdict of a rule, and what it is made of: transformations, operators.

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	ms "github.com/senghoo/modsecurity-go/modsecurity"
	"github.com/senghoo/modsecurity-go/modsecurity/operators"
	"github.com/senghoo/modsecurity-go/modsecurity/transforms"
	"github.com/senghoo/modsecurity-go/seclang"
	"pgregory.net/rapid"
)

var newTrans = map[string]func() ms.Trans{
	"lowercase": transforms.NewTransLowerCase, "urlDecode": transforms.NewTransUrlDecode,
	"urlDecodeUni": transforms.NewTransUrlDecodeUni, "none": transforms.NewTransNone,
	"compressWhitespace": transforms.NewTransCompressWhitespace, "removeWhitespace": transforms.NewTransRemoveWhitespace,
	"replaceNulls": transforms.NewTransReplaceNulls, "removeNulls": transforms.NewTransRemoveNulls,
}

var newOperator = map[string]func(string) (ms.Operator, error){
	"rx": operators.NewOperatorRx, "eq": operators.NewOperatorEq, "ge": operators.NewOperatorGe,
	"gt": operators.NewOperatorGt, "le": operators.NewOperatorLe, "lt": operators.NewOperatorLt,
}

// quoteSec writes s as the inside of a SecLang string in the quotes given.
func quoteSec(s string, quote byte) string {
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		switch c := s[i]; c {
		case '\\':
			sb.WriteString(`\\`)
		case '\n':
			sb.WriteString(`\n`)
		case '\r':
			sb.WriteString(`\r`)
		case quote:
			sb.WriteString(`\` + string([]byte{c}))
		default:
			sb.WriteByte(c)
		}
	}
	return sb.String()
}

// loadSec loads a text that is expected to load.
func loadSec(text string) *ms.Engine {
	e := ms.NewEngine()
	loadInto(e, text)
	return e
}

func loadInto(e *ms.Engine, text string) {
	e.TmpPath = scratch()
	ds, err := seclang.NewDireSetFromSecLangString(text)
	if err != nil {
		panic(fmt.Sprintf("does not load: %v\n%s", err, text))
	}
	if err := ds.Execute(e); err != nil {
		panic(fmt.Sprintf("does not execute: %v\n%s", err, text))
	}
}

// ---- C01

type Cond struct {
	Targets []Target `json:"targets"`
	Trans   []string `json:"trans,omitempty"`
	Op      string   `json:"op"`
	Arg     B        `json:"arg"`
	Neg     bool     `json:"neg,omitempty"`
}

type VRule struct {
	Stage   int    `json:"stage"`
	SecLang bool   `json:"seclang"`
	Links   []Cond `json:"links"`
}

type VerdictCase struct {
	Tx    *Tx     `json:"tx"`
	Rules []VRule `json:"rules"`
}

func (c Cond) holds(x *Tx) bool {
	for _, v := range x.values(c.Targets) {
		for _, tn := range c.Trans {
			v = refTrans(tn, v)
		}
		if refOp(c.Op, string(c.Arg), v) != c.Neg {
			return true
		}
	}
	return false
}

func (c Cond) secLang(extra string) string {
	var parts []string
	for _, t := range c.Targets {
		parts = append(parts, t.String())
	}
	acts := extra
	for _, tn := range c.Trans {
		acts += ",t:" + tn
	}
	op := "@" + c.Op + " " + string(c.Arg)
	if c.Neg {
		op = "!" + op
	}
	return fmt.Sprintf("SecRule %s \"%s\" \"%s\"\n", layout{}.arg(strings.Join(parts, "|")), quoteSec(op, '"'), acts)
}

func (r VRule) build() *ms.SecRule {
	if r.SecLang {
		text := ""
		for i, l := range r.Links {
			extra := "id:1,log"
			if i == 0 {
				extra += fmt.Sprintf(",phase:%d", r.Stage)
			}
			if i < len(r.Links)-1 {
				extra += ",chain"
			}
			text += l.secLang(extra)
		}
		e := loadSec(text)
		rules := e.RuleSet.Phases[r.Stage]
		if len(rules) != 1 {
			panic(fmt.Sprintf("%d rules in stage %d\n%s", len(rules), r.Stage, text))
		}
		rules[0].Actions = nil
		for _, s := range rules[0].SubRules {
			s.Actions = nil
		}
		return rules[0]
	}
	var parent *ms.SecRule
	for _, l := range r.Links {
		rule := loadTargets(l.Targets, r.Stage, false)
		for _, tn := range l.Trans {
			rule.AppendTrans(newTran(tn))
		}
		op, err := newOperator[l.Op](string(l.Arg))
		if err != nil {
			panic(fmt.Sprintf("operator %s %q: %v", l.Op, l.Arg, err))
		}
		rule.SetOperator(op)
		rule.Not = l.Neg
		if parent == nil {
			parent = rule
		} else {
			parent.AppendSubRules(rule)
		}
	}
	return parent
}

func checkVerdict(c *VerdictCase, rec *Rec) error {
	x := c.Tx
	var want []string
	some, fired := false, 0
	for stage := 1; stage <= 6; stage++ {
		for i, r := range c.Rules {
			if r.Stage != stage {
				continue
			}
			y := x.asOf(stage)
			all := true
			for _, l := range r.Links {
				all = all && l.holds(y)
			}
			some = some || len(y.values(r.Links[0].Targets)) > 0
			if all {
				fired++
				want = append(want, fmt.Sprintf("stage%d:rule%d", stage, i))
			}
		}
	}
	rec.NonTrivial(some)
	rec.ClassIf(fired > 0, "fires")
	rec.ClassIf(fired < len(c.Rules), "does not fire")
	for _, r := range c.Rules {
		rec.ClassIf(len(r.Links) > 1, "chain")
		for _, l := range r.Links {
			rec.ClassIf(l.Neg, "negated")
			rec.ClassIf(len(l.Trans) > 1, "several transformations")
			rec.Class("@" + l.Op)
		}
	}
	e := x.engine()
	for i, r := range c.Rules {
		rule := r.build()
		rule.AppendActions(&probe{2, fmt.Sprintf("rule%d", i)})
		e.AddSecRule(rule)
	}
	tr, err := e.NewTransaction()
	if err != nil {
		return err
	}
	defer closeTx(tr)
	tc := &trace{}
	tr.Data[traceKey] = tc
	for _, s := range txSteps {
		x.step(tr, s)
	}
	if fmt.Sprint(tc.events) != fmt.Sprint(want) {
		return fmt.Errorf("fired %v, want %v", tc.events, want)
	}
	if i := tr.Result(); i.Disruptive || i.Status != 200 {
		return fmt.Errorf("rules without disruptive actions intercepted: %+v", i)
	}
	return nil
}

// genRx draws a regular expression, often one that has to do with the values.
func genRx(t *rapid.T, vals []string) string {
	frag := func() string {
		if len(vals) > 0 && chance(t, 2, 3) {
			v := pick(t, vals...)
			if len(v) > 0 {
				i := intn(t, 0, len(v)-1)
				j := i + intn(t, 1, 4)
				if j > len(v) {
					j = len(v)
				}
				return regexp.QuoteMeta(v[i:j])
			}
		}
		return pick(t, "a", "b", "[a-c]", "[^a]", ".", "\\d", "\\s", "\\w", "0", " ", "attack", "SELECT", "(?i:select)", "é", "\\x00", "\\n", "'", "\"", "%", "\\\\", "!", "@", ",", "|b")
	}
	re := ""
	for n := intn(t, 1, 3); n > 0; n-- {
		re += frag()
		if chance(t, 1, 6) {
			re += pick(t, "*", "+", "?", "{2}")
		}
	}
	switch intn(t, 0, 7) {
	case 0:
		re = "^" + re
	case 1:
		re += "$"
	case 2:
		re = "^" + re + "$"
	case 3:
		re = "(?i)" + re
	case 4:
		re = pick(t, "", "^$", ".*", "^", "(?s)^.*$", re, re)
	}
	if _, err := regexp.Compile(re); err != nil {
		return "a"
	}
	return re
}

func genIntArg(t *rapid.T) string {
	return pick(t, "", " ", "\t") + pick(t, "0", "1", "2", "3", "-1", "42", "200", "+5", "007", "9223372036854775807", "-9223372036854775808", "9223372036854775806", "100", "404", "-0") + pick(t, "", "", " ")
}

func genCond(t *rapid.T, x *Tx, stage int, pool []string) Cond {
	c := Cond{Targets: genTargets(t, x, pool, 3), Neg: chance(t, 1, 3)}
	counted := false
	for i := range c.Targets {
		counted = counted || c.Targets[i].Cnt
	}
	if counted { // a count next to exclusions is not specified
		ts := c.Targets[:0]
		for _, tg := range c.Targets {
			if !tg.Excl {
				ts = append(ts, tg)
			}
		}
		c.Targets = ts
	}
	for n := intn(t, 0, 3); n > 0; n-- {
		c.Trans = append(c.Trans, pick(t, transNames...))
	}
	c.Op = pick(t, "rx", "rx", "rx", pick(t, opNames...))
	if counted && chance(t, 2, 3) {
		c.Op = pick(t, opNames[1:]...)
	}
	vals := uniq(x.asOf(stage).values(c.Targets))
	for _, tn := range c.Trans {
		for i := range vals {
			if len(vals[i]) < 500 {
				vals[i] = refTrans(tn, vals[i])
			}
		}
	}
	if c.Op == "rx" {
		c.Arg = B(genRx(t, vals))
	} else {
		c.Arg = B(genIntArg(t))
		if len(vals) > 0 && chance(t, 1, 2) {
			if v, ok := refInt(pick(t, vals...)); ok {
				c.Arg = B(v.String())
			}
		}
	}
	return c
}

func genVerdict(t *rapid.T) *VerdictCase {
	c := &VerdictCase{Tx: genTx(t, txCfg{body: [2]int{1, 2}})}
	for n := count(t, 1, 4, 12); n > 0; n-- {
		r := VRule{Stage: pick(t, 1, 2, 3, 3, 4, 5, 5, 6), SecLang: rapid.Bool().Draw(t, "seclang")}
		if r.Stage == 6 {
			r.SecLang = false
		}
		for m := pick(t, 1, 1, 1, 2, 3); m > 0; m-- {
			var l Cond
			switch intn(t, 0, 3) {
			case 0:
				l = genCond(t, c.Tx, r.Stage, varNames)
			case 1:
				l = genCond(t, c.Tx, r.Stage, []string{"REQUEST_URI", "REQUEST_METHOD", "REMOTE_ADDR", "QUERY_STRING", "RESPONSE_STATUS", "REQUEST_FILENAME"})
			default:
				l = genCond(t, c.Tx, r.Stage, []string{"ARGS", "ARGS_GET", "REQUEST_HEADERS", "REQUEST_COOKIES", "ARGS_NAMES", "ARGS_POST"})
			}
			for _, tg := range l.Targets {
				if !tg.seclangSafe() {
					r.SecLang = false
				}
			}
			if len(l.Targets) == 0 {
				l.Targets = []Target{{Var: "REQUEST_METHOD"}}
			}
			r.Links = append(r.Links, l)
		}
		for i := range r.Links {
			if l := &r.Links[i]; !r.SecLang && chance(t, 1, 8) {
				l.Trans = append(l.Trans, pick(t, hostTrans...))
				if chance(t, 1, 2) {
					l.Trans = append(l.Trans, pick(t, hostTrans...))
				}
			}
		}
		c.Rules = append(c.Rules, r)
	}
	return c
}

// ---- C22, C23: transformations

type TransCase struct {
	Names   []string    `json:"names"`
	In      B           `json:"in"`
	Truth   B           `json:"truth"`   // what an encoder was given
	Encoded bool        `json:"encoded"` // In is an encoding of Truth
	More    []TransStep `json:"more,omitempty"`
	Again   int         `json:"again,omitempty"` // so many more values for the same rules
}

// TransStep is another rule of the same transaction, on another value.
type TransStep struct {
	Names []string `json:"names"`
	In    B        `json:"in"`
}

func checkTrans(c *TransCase, rec *Rec) error {
	e := ms.NewEngine()
	e.TmpPath = scratch()
	tx, err := e.NewTransaction()
	if err != nil {
		return err
	}
	changed := 0
	steps := append([]TransStep{{c.Names, c.In}}, c.More...)
	var rules []*ms.SecRule
	var wants []string
	for k, s := range steps {
		want := string(s.In)
		r := ms.NewSecRule()
		var ts []ms.Trans
		for _, n := range s.Names {
			w := refTrans(n, want)
			if w != want && k == 0 {
				changed++
			}
			want = w
			tr := newTran(n)
			if tr.Name() != n {
				return fmt.Errorf("transformation %s is named %s", n, tr.Name())
			}
			ts = append(ts, tr)
		}
		give(len(s.In)%4, r.AppendTrans, ts)
		if k == 0 && c.Encoded && want != string(c.Truth) {
			return &harnessError{fmt.Errorf("reference decodes %q to %q, was made from %q", c.In, want, c.Truth)}
		}
		rules, wants = append(rules, r), append(wants, want)
	}
	rec.NonTrivial(changed > 0)
	rec.ClassIf(changed > 1, "several take effect")
	rec.ClassIf(c.Encoded, "round trip")
	rec.ClassIf(len(c.In) > 1000, "long")
	rec.ClassIf(len(c.More) > 0, "other rules and values")
	for round := 0; round < 2; round++ { // the second time on the same objects
		for k, s := range steps {
			if got := rules[k].TransformString(tx, string(s.In)); got != wants[k] {
				return fmt.Errorf("%v of %q is %q, want %q (rule %d)", s.Names, clip([]string{string(s.In)}), clip([]string{got}), clip([]string{wants[k]}), k)
			}
		}
	}
	for k, s := range steps { // every rule on the values of the others
		for j := 1; j < 4 && j < len(steps); j++ {
			in := string(steps[(k+j)%len(steps)].In)
			want := in
			for _, n := range s.Names {
				want = refTrans(n, want)
			}
			if got := rules[k].TransformString(tx, in); got != want {
				return fmt.Errorf("%v of %q is %q, want %q (rule %d, on a value of another)", s.Names, clip([]string{in}), clip([]string{got}), clip([]string{want}), k)
			}
		}
	}
	for n := 0; n < c.Again; n++ {
		k := n % len(steps)
		in := fmt.Sprintf("%s %d", steps[k].In, n)
		want := in
		for _, name := range steps[k].Names {
			want = refTrans(name, want)
		}
		if got := rules[k].TransformString(tx, in); got != want {
			return fmt.Errorf("%v of %q, value %d of rule %d, is %q, want %q", steps[k].Names, in, n, k, got, want)
		}
	}
	rec.ClassIf(c.Again > 0, "many values")
	r, want := rules[0], wants[0]
	r.AppendVariables(&constVar{vals: []string{string(c.In), "x", string(c.In)}})
	x := "x"
	for _, n := range c.Names {
		x = refTrans(n, x)
	}
	if got := r.FetchAllTransformedVariables(tx); len(got) != 3 || got[0] != want || got[1] != x || got[2] != want {
		return fmt.Errorf("values %q of %v, want %q", clip(got), c.Names, clip([]string{want, x, want}))
	}
	return nil
}

// genMore draws rules that share transformations or values with the first one.
func genMore(t *rapid.T, c *TransCase) {
	if chance(t, 1, 400) && len(c.In) < 200 {
		c.Again = bigSize(t, 5000)
	}
	if chance(t, 1, 15) { // long values that are alike at one end
		same := strings.Repeat(pick(t, "a%41 B", "x", " %u0041\x00", "A\xff "+string(c.In)), 1100)[:intn(t, 1, 1100)]
		for n := 2; n > 0; n-- {
			own := text(t, 5)
			s := TransStep{append([]string(nil), c.Names...), B(pick(t, same+own, same+own, own+same, same+own+same))}
			c.More = append(c.More, s)
		}
	}
	if !chance(t, 1, 4) {
		return
	}
	for n := count(t, 1, 3, 8); n > 0; n-- {
		from := TransStep{c.Names, c.In}
		if len(c.More) > 0 && chance(t, 1, 2) {
			from = pick(t, c.More...)
		}
		s := TransStep{append([]string(nil), from.Names...), from.In}
		switch intn(t, 0, 4) {
		case 0:
			s.Names = rapid.Permutation(s.Names).Draw(t, "names")
		case 1:
			s.Names[intn(t, 0, len(s.Names)-1)] = pick(t, transNames...)
		case 2:
			s.Names = []string{pick(t, transNames...)}
		case 3:
			s.Names = append(s.Names, pick(t, transNames...))
		}
		switch v := string(s.In); intn(t, 0, 5) {
		case 0: // a value that seems to go with the name of a transformation
			for _, n := range transNames {
				for _, m := range transNames {
					if n != m && strings.HasPrefix(n, m) && chance(t, 1, 2) {
						s.In = B(n[len(m):] + v)
						s.Names[len(s.Names)-1] = m
						if chance(t, 1, 2) {
							s.Names = []string{m}
							c.More = append(c.More, TransStep{[]string{n}, B(v)})
						}
					}
				}
			}
		case 1:
			s.In = B(v + pick(t, "a", "%", " ", "\x00", ","))
		case 2:
			if len(v) > 0 {
				i := intn(t, 0, len(v)-1)
				s.In = B(v[:i] + pick(t, "a", "A", "%", " ", "\x00", "") + v[i+1:])
			}
		case 3:
			s.In = B(refTrans(s.Names[0], v))
		}
		c.More = append(c.More, s)
	}
}

func genTransText(t *rapid.T) string {
	return maybeLong(t, 70000, func() string {
		switch intn(t, 0, 3) {
		case 0:
			return rawBytes(t, 24)
		case 1:
			return pieces(t, 20, " ", "\t", "\n", "\v", "\f", "\r", "\x00", "a", "B", "Z", "\x85", "\xa0", "\u00a0", "\u2003", "\u0085", "É", "İ", "K", "ß", "Σ", "\xff", "\xc3", "世", "@", "[", "`", "{", "\x1c", "\x7f")
		case 2:
			return pieces(t, 16, "%", "%4", "41", "%41", "%00", "%20", "+", "%u", "%u0041", "%U0041", "%uFF21", "%uff41", "%uFF00", "%uFF5E", "%uFF5F", "%uD800", "%u00e9", "%u0000", "a", "g", "F", "%%", "%2541", "%u12", "%zz", "A", "é", "%c3%a9", "\xff", " ")
		}
		return text(t, 20)
	})
}

func genTransCase(t *rapid.T) *TransCase {
	c := &TransCase{In: B(genTransText(t))}
	var effective []string
	for _, n := range transNames {
		if refTrans(n, string(c.In)) != string(c.In) {
			effective = append(effective, n)
		}
	}
	for n := count(t, 1, 3, 12); n > 0; n-- {
		if len(effective) > 0 && chance(t, 2, 3) {
			c.Names = append(c.Names, pick(t, effective...))
		} else {
			c.Names = append(c.Names, pick(t, transNames...))
		}
	}
	for chance(t, 1, 6) {
		i := intn(t, 0, len(c.Names))
		c.Names = append(c.Names[:i], append([]string{pick(t, hostTrans...)}, c.Names[i:]...)...)
	}
	genMore(t, c)
	return c
}

func genDecodeCase(t *rapid.T) *TransCase {
	c := &TransCase{Names: []string{pick(t, "urlDecode", "urlDecodeUni")}}
	if chance(t, 1, 2) {
		c.In = B(genTransText(t))
		return c
	}
	const hexl, hexu = "0123456789abcdef", "0123456789ABCDEF"
	hex := func(c byte) string {
		return string([]byte{'%', pick(t, hexl, hexu)[c>>4], pick(t, hexl, hexu)[c&15]})
	}
	c.Encoded = true
	truth := rawBytes(t, 40)
	if rapid.Bool().Draw(t, "words") {
		truth = text(t, 40)
	}
	in := ""
	style := intn(t, 0, 3)
	for i := 0; i < len(truth); i++ {
		ch := truth[i]
		switch {
		case style == 1 && c.Names[0] == "urlDecodeUni" && ch < 0x80:
			h := fmt.Sprintf("%04x", ch)
			if ch > 0x20 && ch < 0x7f && chance(t, 1, 2) {
				h = fmt.Sprintf("%04X", 0xff01+int(ch)-'!')
			}
			in += pick(t, "%u", "%U") + pick(t, h, strings.ToUpper(h))
		case style == 2, ch == '%', ch == '+':
			in += hex(ch)
		case ch == ' ':
			in += pick(t, "+", " ", "%20")
		default:
			if chance(t, 1, 3) {
				in += hex(ch)
			} else {
				in += string([]byte{ch})
			}
		}
	}
	if style != 1 || c.Names[0] != "urlDecodeUni" || allASCII(truth) {
		c.In, c.Truth = B(in), B(truth)
		return c
	}
	c.In, c.Truth = B(in), B(truth)
	return c
}

func allASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

// ---- C24: numeric operators

type NumCase struct {
	Op      string `json:"op"`
	Arg     B      `json:"arg"`
	Vals    []B    `json:"vals"`
	Neg     bool   `json:"neg"`
	SecLang bool   `json:"seclang"`
	Again   int    `json:"again,omitempty"` // so many more values
}

func checkNum(c *NumCase, rec *Rec) error {
	_, ok := refInt(string(c.Arg))
	if ok { // an operand that does not fit is refused
		_, err := strconv.ParseInt(strings.TrimSpace(string(c.Arg)), 10, 64)
		ok = err == nil
	}
	rec.ClassIf(!ok, "operand is no number")
	var op ms.Operator
	var err error
	if c.SecLang {
		text := Cond{Targets: []Target{{Var: "REMOTE_ADDR"}}, Op: c.Op, Arg: c.Arg, Neg: c.Neg}.secLang("id:1,phase:1,log")
		ds, lerr := seclang.NewDireSetFromSecLangString(text)
		err = lerr
		if err == nil {
			e := ms.NewEngine()
			e.TmpPath = scratch()
			if err := ds.Execute(e); err != nil {
				return err
			}
			r := e.RuleSet.Phases[1][0]
			if r.Not != c.Neg {
				return fmt.Errorf("negation is %v, want %v\n%s", r.Not, c.Neg, text)
			}
			op = r.Operator
		}
	} else {
		op, err = newOperator[c.Op](string(c.Arg))
	}
	if !ok {
		if err == nil {
			return fmt.Errorf("operator @%s takes %q as its operand", c.Op, c.Arg)
		}
		rec.NonTrivial(true)
		return nil
	}
	if err != nil {
		return fmt.Errorf("operator @%s does not take %q as its operand: %v", c.Op, c.Arg, err)
	}
	if op.Name() != c.Op {
		return fmt.Errorf("operator %s is named %s", c.Op, op.Name())
	}
	e := ms.NewEngine()
	e.TmpPath = scratch()
	var last *ms.Transaction
	for _, v := range c.Vals {
		r := ms.NewSecRule()
		r.AppendVariables(&constVar{vals: []string{string(v)}})
		r.SetOperator(op)
		r.Not = c.Neg
		tx, err := e.NewTransaction()
		if err != nil {
			return err
		}
		last = tx
		_, num := refInt(string(v))
		rec.NonTrivial(num)
		rec.ClassIf(!num, "value is no number")
		want := refOp(c.Op, string(c.Arg), string(v))
		rec.ClassIf(want, "holds")
		rec.ClassIf(!want, "does not hold")
		if got := op.Match(tx, string(v)); got != want {
			return fmt.Errorf("%q @%s %q is %v, want %v", v, c.Op, c.Arg, got, want)
		}
		if got := r.Match(tx); got != (want != c.Neg) {
			return fmt.Errorf("%q @%s %q, negated %v: rule matches %v", v, c.Op, c.Arg, c.Neg, got)
		}
	}
	rec.ClassIf(c.Again > 0, "many values")
	for n := 0; n < c.Again; n++ {
		v := strconv.Itoa(n*7919%4001 - 2000)
		if n%3 == 0 {
			v = string(c.Vals[n/3%len(c.Vals)])
		}
		if got, want := op.Match(last, v), refOp(c.Op, string(c.Arg), v); got != want {
			return fmt.Errorf("%q @%s %q, value %d of the operator, is %v, want %v", v, c.Op, c.Arg, n, got, want)
		}
	}
	return nil
}

func genNumText(t *rapid.T) string {
	sp := func() string { return pieces(t, 2, " ", "\t", "\n", "\r", "\v", "\f", "") }
	var n string
	switch intn(t, 0, 9) {
	case 0, 1, 2:
		n = strconv.Itoa(intn(t, -3, 3))
	case 3:
		n = strconv.FormatInt(rapid.Int64().Draw(t, "i"), 10)
	case 4: // about the powers of two
		k := uint(intn(t, 0, 63))
		d := int64(intn(t, -1, 1))
		n = strconv.FormatUint(uint64(1)<<k+uint64(d), 10)
		n = pick(t, "", "-", "+") + n
	case 5: // about what fits
		n = pick(t, "", "-", "+") + pick(t, "9223372036854775807", "9223372036854775808", "9223372036854775809", "9223372036854775806", "99999999999999999999999", "18446744073709551615", "18446744073709551616", "2147483647", "2147483648", "4294967295", "4294967296", "10000000000000000000000000000000000001")
		if chance(t, 1, 3) { // only begins like a number
			n += pick(t, "x", ".5", " 1", "e3", "-", "_0", "\x00")
		}
	case 6:
		n = pick(t, "", "-", "+") + pick(t, "0", "00", "-0", "0007", "00000000000000000000000000000012", "000")
	case 7:
		n = pick(t, "", "-", "+", "1.5", "0x10", "1e3", "1_000", "１", "abc", "12a", "a12", "1 2", "--1", "+-1", "- 1", "0b1", "0o7", "1,000", "٣", "\x00", "1\x00", "NaN", "Inf", "-1.0")
	case 8:
		n = text(t, 6)
	default:
		n = strconv.Itoa(intn(t, -1000, 1000))
	}
	return sp() + n + sp()
}

func genNum(t *rapid.T) *NumCase {
	c := &NumCase{Op: pick(t, opNames[1:]...), Neg: rapid.Bool().Draw(t, "neg"), SecLang: rapid.Bool().Draw(t, "seclang")}
	c.Arg = B(genNumText(t))
	if !chance(t, 1, 8) {
		for _, ok := refInt(string(c.Arg)); !ok; _, ok = refInt(string(c.Arg)) {
			c.Arg = B(strconv.Itoa(intn(t, -9, 9)))
		}
	}
	for n := count(t, 1, 4, 12); n > 0; n-- {
		v := genNumText(t)
		if a, ok := refInt(string(c.Arg)); ok && chance(t, 1, 2) {
			if i := a.Int64(); i > -1<<62 && i < 1<<62 { // next to the operand
				v = strconv.FormatInt(i+int64(intn(t, -1, 1)), 10)
			} else {
				v = a.String()
			}
		}
		c.Vals = append(c.Vals, B(v))
	}
	if chance(t, 1, 400) {
		c.Again = bigSize(t, 5000)
	}
	if chance(t, 1, 40) { // long ones that are alike at one end
		same := strings.Repeat(pick(t, "0", " ", "1", "\t "), bigSize(t, 1500))
		for i, v := range c.Vals {
			c.Vals[i] = B(pick(t, same+string(v), same+string(v), string(v)+same))
		}
	}
	return c
}

func init() {
	register(Prop{ID: "C01", Quick: 240000, Thorough: 6000000,
		Rule: "A generated transaction runs against 1-12 rules (single or chained, from SecLang or the Go API) whose targets, transformations, operators, operands and negation are generated, operands often taken from the values; which rules fire, and when, is compared with a reference evaluation of the transaction as of that stage. Non-trivial: the targets of a rule select a value."},
		genVerdict, checkVerdict)
	register(Prop{ID: "C22", Quick: 800000, Thorough: 30000000,
		Rule: "Lists of 1-3, now and then 12, transformations are applied to generated byte strings (any bytes, white space, nulls, characters beyond ASCII, broken UTF-8, escapes, lengths up to 70000) and compared with reference definitions applied in order; in a quarter of the cases other rules of the same transaction, with the same transformations in another order or on values that differ little, are applied before and after. Non-trivial: a transformation changes the value."},
		genTransCase, checkTrans)
	register(Prop{ID: "C23", Quick: 1500000, Thorough: 30000000,
		Rule: "Half of the cases encode a generated byte string with a random choice of escapes per byte and must decode to that string; the others decode generated text with well-formed, malformed and truncated escapes and are compared with a reference decoder. Non-trivial: decoding changes the text."},
		genDecodeCase, checkTrans)
	register(Prop{ID: "C24", Quick: 1000000, Thorough: 30000000,
		Rule: "Operators eq, ge, gt, le, lt with generated operands (signs, blanks, leading zeros, boundaries of 32 and 64 bits, no numbers at all), loaded from SecLang or made through the Go API, are applied to generated values, half of them next to the operand, and compared with arithmetic on integers of any size. Non-trivial: a value is a number, or an operand is none and must be refused."},
		genNum, checkNum)
}
