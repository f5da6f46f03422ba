package main

// Reference semantics of values: decoding, transformations, operators, and the
// selection of collection members. Nothing here calls the code under test.

import (
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"unicode"
	"unicode/utf8"

	ms "github.com/senghoo/modsecurity-go/modsecurity"
)

type KV struct {
	K B `json:"k"`
	V B `json:"v"`
}

func hexVal(s string) (int, bool) {
	for i := 0; i < len(s); i++ {
		if !strings.ContainsRune("0123456789abcdefABCDEF", rune(s[i])) {
			return 0, false
		}
	}
	v, err := strconv.ParseUint(s, 16, 32)
	return int(v), err == nil
}

// refURLDecode: %XX is the byte XX, + is a blank, everything else, malformed
// escapes included, is itself. With uni, %uXXXX is the character U+XXXX, full
// width forms of ASCII characters being those ASCII characters.
func refURLDecode(s string, uni bool) string {
	out := ""
	var parts []string
	for len(s) > 0 {
		if s[0] == '+' {
			out, s = " ", s[1:]
		} else if v, ok := 0, false; s[0] == '%' {
			if len(s) >= 3 {
				v, ok = hexVal(s[1:3])
			}
			if ok {
				out, s = string([]byte{byte(v)}), s[3:]
			} else {
				if uni && len(s) >= 6 && (s[1] == 'u' || s[1] == 'U') {
					v, ok = hexVal(s[2:6])
				}
				if ok {
					if v >= 0xff01 && v <= 0xff5e {
						v = v - 0xff01 + '!'
					}
					out, s = string(rune(v)), s[6:]
				} else {
					out, s = "%", s[1:]
				}
			}
		} else {
			i := strings.IndexAny(s, "%+")
			if i < 0 {
				i = len(s)
			}
			out, s = s[:i], s[i:]
		}
		parts = append(parts, out)
	}
	return strings.Join(parts, "")
}

// refQuery: the parameters of a query string or an urlencoded body.
func refQuery(q string) []KV {
	var res []KV
	for _, seg := range strings.Split(q, "&") {
		if seg == "" {
			continue
		}
		nv := strings.SplitN(seg, "=", 2)
		v := ""
		if len(nv) == 2 {
			v = nv[1]
		}
		res = append(res, KV{B(refURLDecode(nv[0], false)), B(refURLDecode(v, false))})
	}
	return res
}

const asciiSpace = " \t\n\v\f\r"

var spaceRun = regexp.MustCompile(`[ \t\n\v\f\r]+`)

func refLower(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && n <= 1 {
			sb.WriteByte(s[i])
			i++
			continue
		}
		sb.WriteRune(unicode.ToLower(r))
		i += n
	}
	return sb.String()
}

func dropBytes(s, set string) string {
	res := make([]byte, 0, len(s))
	for i := 0; i < len(s); i++ {
		if strings.IndexByte(set, s[i]) < 0 {
			res = append(res, s[i])
		}
	}
	return string(res)
}

var transNames = []string{"lowercase", "urlDecode", "urlDecodeUni", "none", "compressWhitespace", "removeWhitespace", "replaceNulls", "removeNulls"}

// transformations a host could have written
var hostTrans = []string{"host:prefix", "host:drop", "host:twice"}

type hostTran string

func (h hostTran) Name() string                              { return string(h) }
func (h hostTran) Trans(tr *ms.Transaction, s string) string { return refTrans(string(h), s) }

func newTran(name string) ms.Trans {
	if f := newTrans[name]; f != nil {
		return f()
	}
	return hostTran(name)
}

func refTrans(name, s string) string {
	switch name {
	case "none":
		return s
	case "lowercase":
		return refLower(s)
	case "urlDecode":
		return refURLDecode(s, false)
	case "urlDecodeUni":
		return refURLDecode(s, true)
	case "compressWhitespace":
		// byte-wise: regexp would look at invalid UTF-8 as characters, but the
		// pattern is ASCII and replaces only what it matches
		return spaceRun.ReplaceAllLiteralString(s, " ")
	case "removeWhitespace":
		return dropBytes(s, asciiSpace)
	case "replaceNulls":
		return strings.Replace(s, "\x00", " ", -1)
	case "removeNulls":
		return strings.Replace(s, "\x00", "", -1)
	case "host:prefix":
		return "<B " + s
	case "host:drop":
		return ""
	case "host:twice":
		if len(s) > 1000 {
			return s
		}
		return s + s
	}
	panic("refTrans " + name)
}

var opNames = []string{"rx", "eq", "ge", "gt", "le", "lt"}

// refInt is the number a value stands for: an optional sign and digits between
// blanks, anything else is 0. Numbers beyond 64 bits are the nearest that fits.
func refInt(s string) (*big.Int, bool) {
	s = strings.TrimSpace(s)
	d := s
	if d != "" && (d[0] == '+' || d[0] == '-') {
		d = d[1:]
	}
	if d == "" {
		return new(big.Int), false
	}
	for i := 0; i < len(d); i++ {
		if d[i] < '0' || d[i] > '9' {
			return new(big.Int), false
		}
	}
	v := new(big.Int)
	if _, ok := v.SetString(strings.TrimPrefix(s, "+"), 10); !ok {
		return new(big.Int), false
	}
	lo := new(big.Int).Lsh(big.NewInt(-1), 63)
	hi := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 63), big.NewInt(1))
	if v.Cmp(lo) < 0 {
		v = lo
	}
	if v.Cmp(hi) > 0 {
		v = hi
	}
	return v, true
}

func refOp(op, arg, val string) bool {
	if op == "rx" {
		return regexp.MustCompile(arg).MatchString(val)
	}
	v, _ := refInt(val)
	a, _ := refInt(arg)
	c := v.Cmp(a)
	switch op {
	case "eq":
		return c == 0
	case "ge":
		return c >= 0
	case "gt":
		return c > 0
	case "le":
		return c <= 0
	case "lt":
		return c < 0
	}
	panic("refOp " + op)
}

// selector of collection members: a name, or /pattern/
func isPattern(sel string) bool {
	return len(sel) >= 2 && sel[0] == '/' && sel[len(sel)-1] == '/'
}

var compiled sync.Map
var compiledN atomic.Int64

func pattern(p string) *regexp.Regexp {
	if re, ok := compiled.Load(p); ok {
		return re.(*regexp.Regexp)
	}
	re := regexp.MustCompile(p)
	if compiledN.Add(1) > 20000 {
		compiledN.Store(0)
		compiled.Clear()
	}
	compiled.Store(p, re)
	return re
}

func selects(sel, name string, fold bool) bool {
	if isPattern(sel) {
		return pattern(sel[1 : len(sel)-1]).MatchString(name)
	}
	if fold {
		return strings.EqualFold(sel, name)
	}
	return sel == name
}

func sorted(ss []string) []string {
	res := append([]string{}, ss...)
	sort.Strings(res)
	return res
}

func sameBag(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	a, b = sorted(a), sorted(b)
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func uniq(ss []string) []string {
	var res []string
	for i, s := range sorted(ss) {
		if i == 0 || s != res[len(res)-1] {
			res = append(res, s)
		}
	}
	return res
}

func clip(ss []string) []string {
	res := []string{}
	for i, s := range ss {
		if i == 12 {
			res = append(res, "...")
			break
		}
		if len(s) > 80 {
			s = s[:60] + "...(" + strconv.Itoa(len(s)) + " bytes)"
		}
		res = append(res, s)
	}
	return res
}
