package main

// C25: what @rx matches, against a matcher of its own that works on syntax
// trees (sets of end positions), not on the text of the expression.

import (
	"fmt"
	"sort"
	"strings"
	"unicode/utf8"

	ms "github.com/senghoo/modsecurity-go/modsecurity"
	"github.com/senghoo/modsecurity-go/modsecurity/operators"
	"pgregory.net/rapid"
)

// Re is a regular expression as a tree.
type Re struct {
	K    string `json:"k"` // lit any set cat alt rep bol eol word nword group fold dotall
	S    string `json:"s,omitempty"`
	Neg  bool   `json:"neg,omitempty"`
	Lo   int    `json:"lo,omitempty"`
	Hi   int    `json:"hi,omitempty"` // -1 for no bound
	Lazy bool   `json:"lazy,omitempty"`
	Sub  []*Re  `json:"sub,omitempty"`
}

const rxMeta = `\.+*?()|[]{}^$`

func (r *Re) write(sb *strings.Builder) {
	switch r.K {
	case "lit":
		for _, c := range r.S {
			if strings.ContainsRune(rxMeta, c) {
				sb.WriteByte('\\')
			}
			sb.WriteRune(c)
		}
	case "any":
		sb.WriteByte('.')
	case "set":
		sb.WriteByte('[')
		if r.Neg {
			sb.WriteByte('^')
		}
		for _, c := range r.S {
			if strings.ContainsRune(rxMeta+"-&~", c) {
				sb.WriteByte('\\')
			}
			sb.WriteRune(c)
		}
		sb.WriteByte(']')
	case "class":
		sb.WriteString(r.S)
	case "cat":
		for _, s := range r.Sub {
			s.write(sb)
		}
	case "alt":
		sb.WriteString("(?:")
		for i, s := range r.Sub {
			if i > 0 {
				sb.WriteByte('|')
			}
			s.write(sb)
		}
		sb.WriteByte(')')
	case "rep":
		sb.WriteString("(?:")
		r.Sub[0].write(sb)
		sb.WriteByte(')')
		switch {
		case r.Lo == 0 && r.Hi == -1:
			sb.WriteByte('*')
		case r.Lo == 1 && r.Hi == -1:
			sb.WriteByte('+')
		case r.Lo == 0 && r.Hi == 1:
			sb.WriteByte('?')
		case r.Hi == -1:
			fmt.Fprintf(sb, "{%d,}", r.Lo)
		case r.Hi == r.Lo:
			fmt.Fprintf(sb, "{%d}", r.Lo)
		default:
			fmt.Fprintf(sb, "{%d,%d}", r.Lo, r.Hi)
		}
		if r.Lazy {
			sb.WriteByte('?')
		}
	case "bol":
		sb.WriteByte('^')
	case "eol":
		sb.WriteByte('$')
	case "word":
		sb.WriteString(`\b`)
	case "group":
		sb.WriteByte('(')
		r.Sub[0].write(sb)
		sb.WriteByte(')')
	case "fold":
		sb.WriteString("(?i:")
		r.Sub[0].write(sb)
		sb.WriteByte(')')
	case "dotall":
		sb.WriteString("(?s:")
		r.Sub[0].write(sb)
		sb.WriteByte(')')
	default:
		panic("Re " + r.K)
	}
}

func (r *Re) String() string {
	var sb strings.Builder
	r.write(&sb)
	return sb.String()
}

type rxIn struct {
	chars []rune // what is not UTF-8 counts as U+FFFD, byte by byte
}

func rxInput(s string) *rxIn {
	in := &rxIn{}
	for len(s) > 0 {
		c, n := utf8.DecodeRuneInString(s)
		in.chars = append(in.chars, c)
		s = s[n:]
	}
	return in
}

func foldASCII(c rune) rune {
	if c >= 'A' && c <= 'Z' {
		return c + 32
	}
	return c
}

func isWordChar(c rune) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

func inClass(cl string, c rune) bool {
	switch cl {
	case `\d`:
		return c >= '0' && c <= '9'
	case `\D`:
		return !inClass(`\d`, c)
	case `\s`:
		return c == ' ' || c == '\t' || c == '\n' || c == '\f' || c == '\r'
	case `\S`:
		return !inClass(`\s`, c)
	case `\w`:
		return isWordChar(c)
	case `\W`:
		return !isWordChar(c)
	}
	panic("class " + cl)
}

// posSet is a set of positions in ascending order.
type posSet []int

func union(a, b posSet) posSet {
	if len(a) == 0 {
		return b
	}
	res := make(posSet, 0, len(a)+len(b))
	for len(a) > 0 || len(b) > 0 {
		switch {
		case len(b) == 0 || len(a) > 0 && a[0] < b[0]:
			res, a = append(res, a[0]), a[1:]
		case len(a) == 0 || b[0] < a[0]:
			res, b = append(res, b[0]), b[1:]
		default:
			res, a, b = append(res, a[0]), a[1:], b[1:]
		}
	}
	return res
}

// ends gives where a match of r that starts at one of the positions may end.
func (r *Re) ends(in *rxIn, from posSet, fold, dotall bool) posSet {
	if len(from) == 0 {
		return nil
	}
	var res posSet
	one := func(ok func(c rune) bool) {
		for _, p := range from {
			if p < len(in.chars) && ok(in.chars[p]) {
				res = append(res, p+1)
			}
		}
	}
	at := func(ok func(p int) bool) {
		for _, p := range from {
			if ok(p) {
				res = append(res, p)
			}
		}
	}
	same := func(a, b rune) bool {
		return a == b || fold && foldASCII(a) == foldASCII(b)
	}
	switch r.K {
	case "lit":
		lit := []rune(r.S)
		for _, p := range from {
			if p+len(lit) > len(in.chars) {
				break
			}
			k := 0
			for k < len(lit) && same(in.chars[p+k], lit[k]) {
				k++
			}
			if k == len(lit) {
				res = append(res, p+k)
			}
		}
	case "any":
		one(func(c rune) bool { return dotall || c != '\n' })
	case "set":
		one(func(c rune) bool {
			for _, m := range r.S {
				if same(m, c) {
					return !r.Neg
				}
			}
			return r.Neg
		})
	case "class":
		one(func(c rune) bool { return inClass(r.S, c) })
	case "cat":
		res = from
		for _, s := range r.Sub {
			res = s.ends(in, res, fold, dotall)
		}
	case "alt":
		for _, s := range r.Sub {
			res = union(res, s.ends(in, from, fold, dotall))
		}
	case "rep":
		cur := from
		for i := 0; i < r.Lo; i++ {
			cur = r.Sub[0].ends(in, cur, fold, dotall)
		}
		if len(cur) == 0 {
			return nil
		}
		seen := make(map[int]bool, len(cur))
		for _, p := range cur {
			seen[p] = true
		}
		res = append(res, cur...)
		for i := r.Lo; (r.Hi == -1 || i < r.Hi) && len(cur) > 0; i++ {
			// what was there before was there with fewer repetitions
			var fresh posSet
			for _, p := range r.Sub[0].ends(in, cur, fold, dotall) {
				if !seen[p] {
					seen[p] = true
					fresh = append(fresh, p)
				}
			}
			res = append(res, fresh...)
			cur = fresh
		}
		sort.Ints(res)
	case "bol":
		at(func(p int) bool { return p == 0 })
	case "eol":
		at(func(p int) bool { return p == len(in.chars) })
	case "word":
		at(func(p int) bool {
			before := p > 0 && isWordChar(in.chars[p-1])
			after := p < len(in.chars) && isWordChar(in.chars[p])
			return before != after
		})
	case "group":
		return r.Sub[0].ends(in, from, fold, dotall)
	case "fold":
		return r.Sub[0].ends(in, from, true, dotall)
	case "dotall":
		return r.Sub[0].ends(in, from, fold, true)
	default:
		panic("Re " + r.K)
	}
	return res
}

func (r *Re) matches(s string) bool {
	in := rxInput(s)
	var all posSet
	for i := 0; i <= len(in.chars); i++ {
		all = append(all, i)
	}
	return len(r.ends(in, all, false, false)) > 0
}

type RxCase struct {
	Re      *Re  `json:"re"`
	Subs    []B  `json:"subs"`
	SecLang int  `json:"seclang"` // 0 Go API, 1 @rx, 2 no operator name
	Neg     bool `json:"neg"`
	Again   int  `json:"again,omitempty"` // so many more values
}

func checkRx(c *RxCase, rec *Rec) error {
	re := c.Re.String()
	r := ms.NewSecRule()
	r.Not = c.Neg
	mode := c.SecLang
	if mode == 2 && (re == "" || re[0] == '!' || re[0] == '@') {
		mode = 1
	}
	if mode == 0 {
		op, err := operators.NewOperatorRx(re)
		if err != nil {
			return fmt.Errorf("%q does not compile: %v", re, err)
		}
		r.SetOperator(op)
	} else {
		op := "@rx " + re
		if mode == 2 {
			op = re
		}
		if c.Neg {
			op = "!" + op
		}
		r = loadSec(fmt.Sprintf("SecRule REMOTE_ADDR \"%s\" \"id:1,phase:1,log\"\n", quoteSec(op, '"'))).RuleSet.Phases[1][0]
		if r.Not != c.Neg {
			return fmt.Errorf("negation of %q is %v, want %v", op, r.Not, c.Neg)
		}
	}
	if r.Operator.Args() != re {
		return fmt.Errorf("expression is %q, want %q", r.Operator.Args(), re)
	}
	e := ms.NewEngine()
	e.TmpPath = scratch()
	tx, err := e.NewTransaction()
	if err != nil {
		return err
	}
	hit, miss := false, false
	for _, s := range c.Subs {
		want := c.Re.matches(string(s))
		hit, miss = hit || want, miss || !want
		if got := r.Operator.Match(tx, string(s)); got != want {
			return fmt.Errorf("%q matches %q (%d bytes): %v, want %v", re, clip([]string{string(s)}), len(s), got, want)
		}
		r.Variables = []ms.Variable{&constVar{vals: []string{string(s)}}}
		if got := r.Match(tx); got != (want != c.Neg) {
			return fmt.Errorf("rule with %q, negated %v, matches %q: %v", re, c.Neg, clip([]string{string(s)}), got)
		}
	}
	rec.ClassIf(c.Again > 0, "many values")
	for n := 0; n < c.Again; n++ {
		s := string(c.Subs[n%len(c.Subs)])
		if n%2 == 0 {
			s = fmt.Sprintf("%s %d", s, n)
		}
		if got, want := r.Operator.Match(tx, s), c.Re.matches(s); got != want {
			return fmt.Errorf("%q matches %q, value %d of the operator: %v, want %v", re, s, n, got, want)
		}
	}
	rec.NonTrivial(hit && miss)
	for _, s := range c.Subs {
		rec.ClassIf(len(s) > 50000, "very long")
	}
	rec.ClassIf(hit, "hit")
	rec.ClassIf(miss, "miss")
	return nil
}

// characters without case relations beyond ASCII
var rxChars = []rune("aaabbbcABC01 _-.*'\"\\/%&<>=,!@\n\r\t\x00éя世\uFFFD")

func genRe(t *rapid.T, depth int) *Re {
	k := intn(t, 0, 12)
	if depth <= 0 && k > 6 {
		k = intn(t, 0, 6)
	}
	switch k {
	case 0, 1, 2, 3:
		s := ""
		for n := intn(t, 1, 3); n > 0; n-- {
			s += string(pick(t, rxChars...))
		}
		return &Re{K: "lit", S: s}
	case 4:
		return &Re{K: "any"}
	case 5:
		s := ""
		for n := intn(t, 1, 4); n > 0; n-- {
			s += string(pick(t, rxChars...))
		}
		return &Re{K: "set", S: s, Neg: chance(t, 1, 3)}
	case 6:
		if chance(t, 1, 3) {
			return &Re{K: pick(t, "bol", "eol", "word")}
		}
		return &Re{K: "class", S: pick(t, `\d`, `\s`, `\w`, `\D`, `\S`, `\W`)}
	case 7, 8:
		r := &Re{K: "cat"}
		for n := intn(t, 2, 3); n > 0; n-- {
			r.Sub = append(r.Sub, genRe(t, depth-1))
		}
		return r
	case 9:
		r := &Re{K: "alt"}
		for n := intn(t, 2, 3); n > 0; n-- {
			r.Sub = append(r.Sub, genRe(t, depth-1))
		}
		return r
	case 10, 11:
		r := &Re{K: "rep", Sub: []*Re{genRe(t, depth-1)}, Lazy: chance(t, 1, 5)}
		switch intn(t, 0, 4) {
		case 0:
			r.Hi = -1
		case 1:
			r.Lo, r.Hi = 1, -1
		case 2:
			r.Hi = 1
		case 3:
			r.Lo = intn(t, 0, 3)
			r.Hi = r.Lo + intn(t, 0, 2)
			if r.Hi == 0 {
				r.Hi = 1
			}
		default:
			r.Lo, r.Hi = intn(t, 0, 3), -1
		}
		return r
	default:
		return &Re{K: pick(t, "group", "fold", "dotall"), Sub: []*Re{genRe(t, depth-1)}}
	}
}

// sampleRe draws a string the tree was made to match, anchors aside.
func (r *Re) sample(t *rapid.T, sb *strings.Builder, fold bool) {
	if sb.Len() > 300 {
		return
	}
	switch r.K {
	case "lit":
		for _, c := range r.S {
			if fold && rapid.Bool().Draw(t, "case") {
				if c >= 'a' && c <= 'z' {
					c -= 32
				} else if c >= 'A' && c <= 'Z' {
					c += 32
				}
			}
			sb.WriteRune(c)
		}
	case "set":
		if !r.Neg {
			sb.WriteRune(pick(t, []rune(r.S)...))
			return
		}
		sb.WriteRune(pick(t, rxChars...))
	case "any":
		sb.WriteRune(pick(t, rxChars...))
	case "class":
		sb.WriteString(pick(t, "0", "a", " ", "\n", "_", "é"))
	case "cat":
		for _, s := range r.Sub {
			s.sample(t, sb, fold)
		}
	case "alt":
		pick(t, r.Sub...).sample(t, sb, fold)
	case "rep":
		hi := r.Hi
		if hi == -1 {
			hi = r.Lo + 3
		}
		for n := intn(t, r.Lo, hi); n > 0; n-- {
			r.Sub[0].sample(t, sb, fold)
		}
	case "group", "dotall":
		r.Sub[0].sample(t, sb, fold)
	case "fold":
		r.Sub[0].sample(t, sb, true)
	}
}

func genRxCase(t *rapid.T) *RxCase {
	c := &RxCase{Re: genRe(t, 4), SecLang: intn(t, 0, 2), Neg: chance(t, 1, 3)}
	switch intn(t, 0, 6) {
	case 0:
		c.Re = &Re{K: "cat", Sub: []*Re{{K: "bol"}, c.Re}}
	case 1:
		c.Re = &Re{K: "cat", Sub: []*Re{c.Re, {K: "eol"}}}
	case 2:
		c.Re = &Re{K: "cat", Sub: []*Re{{K: "bol"}, c.Re, {K: "eol"}}}
	}
	junk := func() string {
		return pieces(t, 4, "a", "b", "A", "0", " ", "\n", "\r", "\x00", "\xff", "é", "_", "-", "\xc3", string(rune(intn(t, 0x20, 0x7e))))
	}
	for n := intn(t, 2, 5); n > 0; n-- {
		var sb strings.Builder
		if chance(t, 3, 4) {
			c.Re.sample(t, &sb, false)
		}
		s := sb.String()
		switch intn(t, 0, 5) {
		case 0:
			s = junk() + s + junk()
		case 1:
			s = s + junk()
		case 2:
			s = junk() + s
		case 3: // a character less
			if len(s) > 0 {
				i := intn(t, 0, len(s)-1)
				s = s[:i] + s[i+1:]
			}
		case 4:
			pad := func() string {
				if chance(t, 1, 3) {
					return junk()
				}
				unit := pick(t, "z", "z\n", "zy ", "a", "\xff", "é", "ab")
				size := intn(t, 1, 300)
				if chance(t, 1, 60) {
					size = bigSize(t, 300000)
				}
				return strings.Repeat(unit, size/len(unit)+1)
			}
			s = pad() + s + pad() // somewhere in a long value
		}
		if last := len(c.Subs) - 1; last >= 0 && len(c.Subs[last]) > 0 && chance(t, 1, 5) {
			// like one before, but for a character
			b := []byte(c.Subs[intn(t, 0, last)])
			if len(b) > 0 {
				i := pick(t, len(b)/2, intn(t, 0, len(b)-1))
				b[i] = pick(t, byte('a'), 'b', 'A', '0', ' ', '\n', 'q', byte(intn(t, 0x20, 0x7e)))
				if chance(t, 1, 3) {
					j := intn(t, 0, len(b)-1)
					b[i], b[j] = b[j], b[i]
				}
				s = string(b)
			}
		}
		c.Subs = append(c.Subs, B(s))
	}
	if chance(t, 1, 60) { // long ones that are alike at one end
		same := strings.Repeat(pick(t, "z", "ab", "\xff", "z\n", "é"), bigSize(t, 3000)+1)
		after := chance(t, 1, 2)
		for i, s := range c.Subs {
			if len(s) > 400 {
				continue
			}
			if after {
				c.Subs[i] = s + B(same)
			} else {
				c.Subs[i] = B(same) + s
			}
		}
	}
	size := 0
	for _, s := range c.Subs {
		size += len(s)
	}
	if size < 150 && chance(t, 1, 400) {
		c.Again = bigSize(t, 2000)
	}
	return c
}

func init() {
	register(Prop{ID: "C25", Quick: 1000000, Thorough: 12000000,
		Rule:   "Regular expressions are generated as trees (literals, any, sets, classes, anchors, word boundaries, groups, alternation, greedy and lazy repetition, case folding, dot-all), written out, loaded from SecLang or through the Go API, and applied one after the other to strings made to match, nearly match or not, to ones that differ from an earlier one in a character, and now and then to ones of up to 300000 bytes; the answers are compared with a matcher that works on the tree. Non-trivial: among the strings are one that matches and one that does not.",
		Assume: []string{"The trees use the part of the RE2 syntax on which the reference matcher and RE2 are known to agree; characters with case relations outside ASCII are not generated."}},
		genRxCase, checkRx)
}
