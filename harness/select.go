package main

// What rules get to see: target selection and the meaning of the variables.

import (
	"fmt"

	ms "github.com/senghoo/modsecurity-go/modsecurity"
	"pgregory.net/rapid"
)

type SelRule struct {
	Targets []Target `json:"targets"`
	SecLang bool     `json:"seclang"`
	Stage   int      `json:"stage"`
}

type SelCase struct {
	Tx    *Tx       `json:"tx"`
	Rules []SelRule `json:"rules"`
	Late  bool      `json:"late"`            // the variables are read again when all is over
	Again int       `json:"again,omitempty"` // so many more transactions of the engine
}

// asOf is the part of the transaction the host has handed over when the rules
// of a stage run.
func (x *Tx) asOf(stage int) *Tx {
	y := *x
	y.Twice, y.Early = nil, nil
	if stage < 2 && x.twice("conn") {
		y.Src = x.Early.Src
	}
	if stage == 2 && x.twice("reqhdr") {
		y.Hdrs, y.CT, y.CTKey = x.Early.Hdrs, x.Early.CT, x.Early.CTKey
	}
	if stage == 4 && x.twice("reshdr") {
		y.Code, y.ResProto, y.ResHdrs = x.Early.Code, x.Early.ResProto, x.Early.ResHdrs
	}
	if stage < 2 {
		y.Hdrs, y.CT = nil, ""
	}
	until := map[string]int{"": 1, "reqhdr": 2, "reqbody": 3, "reshdr": 4, "resbody": 5}[x.URLLate]
	switch e := x.Early; {
	case stage < 2 && !x.URLFirst:
		y.NoURL, y.Method, y.Proto = true, "", ""
	case stage <= until && x.twice("url"):
		y.NoURL, y.Method, y.Proto = e.NoURL, e.Method, e.Proto
		y.Scheme, y.Host, y.Path, y.RawPath, y.Query, y.Force = e.Scheme, e.Host, e.Path, e.RawPath, e.Query, e.Force
	}
	if stage < 3 {
		y.Body, y.Parts = "", nil
	}
	if stage < 4 {
		y.Code, y.ResProto, y.ResHdrs = 0, "", nil
	}
	if stage < 5 {
		y.ResBody = ""
	}
	return &y
}

func dedupe(ts []Target, vals []string) []string {
	for _, t := range ts {
		if t.Var == "ARGS_NAMES" && !t.Cnt {
			return uniq(vals)
		}
	}
	return vals
}

func checkSelect(nontrivial func(c *SelCase, want [][]string) bool) func(*SelCase, *Rec) error {
	return func(c *SelCase, rec *Rec) error {
		x := c.Tx
		want := make([][]string, len(c.Rules))
		total := 0
		for i, r := range c.Rules {
			want[i] = dedupe(r.Targets, x.asOf(r.Stage).values(r.Targets))
			total += len(want[i])
		}
		rec.NonTrivial(nontrivial(c, want))
		rec.ClassIf(total > 0, "values")
		rec.ClassIf(total > 20, "many values")
		rec.ClassIf(len(x.Twice) > 0, "handed over twice")
		rec.ClassIf(x.inspectsBody() != "", "body "+x.inspectsBody())
		rec.ClassIf(x.Mem > 0 && int64(len(x.Body)) > x.Mem, "spilled body")
		e := x.engine()
		var rules []*ms.SecRule
		for i, r := range c.Rules {
			rule := loadTargets(r.Targets, r.Stage, r.SecLang)
			rule.SetOperator(&collector{i})
			rules = append(rules, rule)
		}
		e.RuleSet.AddRules(rules...)
		rec.ClassIf(c.Again > 0, "more transactions")
		for n := 0; n <= c.Again; n++ {
			if err := c.look(e, rules, want, n == c.Again); err != nil {
				if c.Again > 0 {
					return fmt.Errorf("transaction %d: %w", n+1, err)
				}
				return err
			}
		}
		return nil
	}
}

// look runs the transaction and compares what the rules see.
func (c *SelCase) look(e *ms.Engine, rules []*ms.SecRule, want [][]string, last bool) error {
	x := c.Tx
	tr, err := e.NewTransaction()
	if err != nil {
		return err
	}
	defer closeTx(tr)
	got := map[int][]string{}
	tr.Data[collectKey] = got
	for _, s := range txSteps {
		x.step(tr, s)
	}
	if i := tr.Result(); i.Disruptive || i.Status != 200 {
		return fmt.Errorf("rules without actions intercepted: %+v", i)
	}
	for i, r := range c.Rules {
		g := dedupe(r.Targets, got[i])
		if !sameBag(want[i], g) {
			return fmt.Errorf("rule %d: targets %v in stage %d see %q, want %q", i, r.Targets, r.Stage, clip(sorted(g)), clip(sorted(want[i])))
		}
	}
	if c.Late && last {
		for i, r := range c.Rules {
			w := dedupe(r.Targets, x.values(r.Targets))
			g := dedupe(r.Targets, rules[i].FetchAllTransformedVariables(tr))
			if !sameBag(w, g) {
				return fmt.Errorf("rule %d: targets %v at the end are %q, want %q", i, r.Targets, clip(sorted(g)), clip(sorted(w)))
			}
		}
	}
	return nil
}

func genSelCase(cfg txCfg, pool []string, stages []int, plain bool) func(t *rapid.T) *SelCase {
	return func(t *rapid.T) *SelCase {
		c := &SelCase{Tx: genTx(t, cfg), Late: rapid.Bool().Draw(t, "late")}
		for n := count(t, 1, 4, 15); n > 0; n-- {
			r := SelRule{SecLang: rapid.Bool().Draw(t, "seclang")}
			r.Stage = pick(t, stages...)
			if plain && chance(t, 2, 3) {
				r.Targets = []Target{{Var: pick(t, pool...)}}
			} else {
				r.Targets = genTargets(t, c.Tx, pool, 4)
			}
			counted := map[string]bool{}
			for _, tg := range r.Targets {
				if tg.Cnt {
					counted[tg.Var] = true
				}
			}
			var ts []Target
			for _, tg := range r.Targets {
				if tg.Excl && counted[tg.Var] {
					continue // whether a count counts what is excluded elsewhere is not specified
				}
				if !tg.seclangSafe() {
					r.SecLang = false
				}
				ts = append(ts, tg)
			}
			r.Targets = ts
			if len(ts) == 0 {
				continue
			}
			if r.Stage > 5 {
				r.SecLang = false
			}
			c.Rules = append(c.Rules, r)
		}
		if chance(t, 1, 25) {
			c.Again = intn(t, 1, 4)
		}
		if chance(t, 1, 1000) && c.Tx.weight() < 3000 {
			c.Again = bigSize(t, 520)
		}
		return c
	}
}

const selRule = "A generated transaction (request line, headers, cookies, parameters, bodies in random chunks, response) runs against rules whose target lists are generated and loaded from SecLang or through the Go API; a collecting operator records the values every rule is asked about, compared as a multiset with a reference reading of the transaction as of that stage. "

func init() {
	argVars := []string{"ARGS", "ARGS_GET", "ARGS_POST", "ARGS_NAMES", "ARGS_GET_NAMES", "ARGS_POST_NAMES"}
	hdrVars := []string{"REQUEST_HEADERS", "REQUEST_HEADERS_NAMES", "REQUEST_COOKIES", "REQUEST_COOKIES_NAMES", "RESPONSE_HEADERS", "RESPONSE_HEADERS_NAMES"}
	some := func(c *SelCase, want [][]string) bool {
		for _, w := range want {
			if len(w) > 0 {
				return true
			}
		}
		return false
	}
	register(Prop{ID: "C13", Quick: 300000, Thorough: 6000000,
		Rule: selRule + "Targets mix names, patterns, exclusions and counts. Non-trivial: a target list has a selector, an exclusion or a count, and selects a value."},
		genSelCase(txCfg{body: [2]int{1, 2}}, append(append([]string{}, argVars...), hdrVars...), []int{3, 4, 5, 3, 4, 5, 6, 2}, false),
		checkSelect(func(c *SelCase, want [][]string) bool {
			for i, r := range c.Rules {
				for _, t := range r.Targets {
					if (t.Sel != "" || t.Excl || t.Cnt) && len(want[i]) > 0 {
						return true
					}
				}
			}
			return false
		}))
	register(Prop{ID: "C14", Quick: 300000, Thorough: 6000000,
		Rule: selRule + "Non-trivial: a rule sees a value."},
		genSelCase(txCfg{body: [2]int{1, 10}}, []string{"REQUEST_URI", "REQUEST_FILENAME", "REQUEST_BASENAME", "QUERY_STRING", "REQUEST_METHOD", "REQUEST_PROTOCOL", "REMOTE_ADDR", "ARGS_GET", "ARGS_GET_NAMES", "ARGS"}, []int{1, 2, 2, 2, 3, 4, 5, 6}, true),
		checkSelect(some))
	register(Prop{ID: "C15", Quick: 300000, Thorough: 6000000,
		Rule: selRule + "Non-trivial: a rule sees a value."},
		genSelCase(txCfg{body: [2]int{1, 10}}, hdrVars[:4], []int{1, 2, 2, 2, 3, 4, 5, 6}, true),
		checkSelect(some))
	register(Prop{ID: "C16", Quick: 300000, Thorough: 6000000,
		Rule: selRule + "Nearly every request has a body that is to be inspected. Non-trivial: a rule sees a value that comes from the body."},
		genSelCase(txCfg{body: [2]int{14, 15}}, []string{"ARGS_POST", "ARGS_POST_NAMES", "ARGS", "ARGS_NAMES", "REQUEST_BODY"}, []int{3, 3, 3, 4, 5, 6, 2}, true),
		checkSelect(func(c *SelCase, want [][]string) bool {
			return c.Tx.inspectsBody() != "" && some(c, want)
		}))
	register(Prop{ID: "C17", Quick: 300000, Thorough: 6000000,
		Rule: selRule + "Access switches, methods and content types are drawn freely. Non-trivial: there is a body of one side and a rule that looks for it."},
		genSelCase(txCfg{body: [2]int{9, 10}, gated: true}, []string{"ARGS_POST", "ARGS_POST_NAMES", "ARGS", "ARGS_NAMES", "REQUEST_BODY", "RESPONSE_BODY"}, []int{3, 3, 3, 4, 5, 5, 6, 2}, true),
		checkSelect(func(c *SelCase, want [][]string) bool {
			return (c.Tx.Body != "" || c.Tx.ResBody != "") && len(c.Rules) > 0
		}))
	register(Prop{ID: "C18", Quick: 400000, Thorough: 6000000,
		Rule: selRule + "Non-trivial: a rule of a response stage sees a value."},
		genSelCase(txCfg{body: [2]int{1, 10}}, []string{"RESPONSE_STATUS", "RESPONSE_PROTOCOL", "RESPONSE_BODY", "RESPONSE_CONTENT_LENGTH", "RESPONSE_CONTENT_TYPE", "RESPONSE_HEADERS", "RESPONSE_HEADERS_NAMES"}, []int{4, 5, 5, 6, 4, 1, 2, 3}, true),
		checkSelect(func(c *SelCase, want [][]string) bool {
			for i, r := range c.Rules {
				if r.Stage >= 4 && len(want[i]) > 0 {
					return true
				}
			}
			return false
		}))
}
