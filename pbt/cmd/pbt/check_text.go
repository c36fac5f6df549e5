package main

import (
	"encoding/json"
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf16"
	"unicode/utf8"

	"github.com/forsyth/jsonpath"
	"github.com/forsyth/jsonpath/paths"
	"verif/pbt/ref"

	"pgregory.net/rapid"
)

// C01 totality, C02 syntax, C04 literals.

// AnyCase is any text, and a document.
type AnyCase struct {
	Text Text   `json:"text"`
	Doc  string `json:"doc"`
}

func mustCompile(s string) (p *jsonpath.JSONPath, panicked bool) {
	defer func() {
		if recover() != nil {
			panicked = true
		}
	}()
	return jsonpath.MustCompile(s), false
}

func execAny(c AnyCase) Result {
	s := string(c.Text)
	res := Result{}
	if e, err := paths.ParseScriptExpression(s); (e == nil) == (err == nil) {
		return failf("ParseScriptExpression(%q) gives %v and error %v", clip(s, 500), e, err)
	} else if err == nil {
		res.Labels = append(res.Labels, "script expression")
	}
	p, err := jsonpath.Compile(s)
	m, panicked := mustCompile(s)
	if panicked != (err != nil) {
		return failf("Compile(%q): %v; MustCompile panics: %v", clip(s, 500), err, panicked)
	}
	if err != nil {
		if p != nil {
			return failf("Compile(%q): both a path and an error", clip(s, 500))
		}
		if err.Error() == "" {
			return failf("Compile(%q): empty error", clip(s, 500))
		}
		res.Labels = append(res.Labels, "refused")
		return res
	}
	if p == nil || m == nil {
		return failf("Compile(%q): neither a path nor an error", clip(s, 500))
	}
	if p.String() != s || m.String() != s {
		return failf("path compiled from %q calls itself %q", clip(s, 500), clip(p.String(), 500))
	}
	doc := parseDoc(c.Doc)
	got, err := p.Eval(doc)
	if (got == nil) != (err != nil) {
		return failf("%q on %s: results %v, error %v", clip(s, 500), c.Doc, got, err)
	}
	switch {
	case err != nil:
		if err.Error() == "" {
			return failf("%q on %s: empty error", clip(s, 500), c.Doc)
		}
		res.Labels = append(res.Labels, "evaluation fails")
	case len(got) == 0:
		res.Labels = append(res.Labels, "no results")
	default:
		res.Labels = append(res.Labels, "results")
	}
	return res
}

var fragments = []string{"$", "@", ".", "..", "[", "]", "(", ")", "?(", "?", "*", ",", ":", "'", "\"", "/", "\\", "-", "+", "!", "=", "==", "!=", "<", "<=", ">", ">=", "=~", "~", "&&", "||", "&", "|", "%", "in", "nin",
	"a", "b", "length", "abs(", "max(", "0", "1", "9", "9223372036854775807", "9223372036854775808", "1.5", "1.", "1e5", "1.e400", "true", "null", " ", "\n", "\t", "'a'", "\"a\"", "'\\u00e9'", "\\u", "\\ud800", "/a/", "/[/", "/a\\/b/", "é", "\x00", "\xff", "\u2028", "{", "}", "#", "$.a", "@.a", "[0]", "[1:2]", "[?(@.a)]", "..*", "-1", "[-1]", "^", ";", "`", "_", "::", ":-1", "keys(@)", "''", "[]", "()", "tokenize('a',',')"}

func soup(t *rapid.T) string {
	n := below(t, 14)
	var b strings.Builder
	switch below(t, 3) {
	case 0:
		b.WriteString("$")
	case 1:
		b.WriteString("$[?(")
	}
	for i := 0; i < n; i++ {
		if chance(t, 1, 12) {
			b.WriteByte(byte(below(t, 256)))
		} else {
			b.WriteString(pick(t, fragments))
		}
	}
	if bit.Draw(t, "") {
		b.WriteString(pick(t, []string{")]", "]", ")", "'", "\"", "/", ")]."}))
	}
	return b.String()
}

// validText draws a valid path or expression, and its tokens.
func validText(t *rapid.T) (text string, toks []string, expr bool, doc any) {
	doc = document(t, docCfg{depth: 3, budget: 25})
	r := style(t)
	if chance(t, 1, 3) {
		g := newExprGen(t, doc, []any{doc})
		g.big = chance(t, 1, 4)
		e := g.expr(want(below(t, 5)), 1+below(t, 4))
		s := r.exprText(e)
		return s, r.toks, true, doc
	}
	cfg := stdPath
	cfg.errs = 2
	cfg.bigIdx = chance(t, 1, 4)
	p := genPath(t, doc, cfg)
	s := r.path(p)
	return s, r.toks, false, doc
}

func mutateChars(t *rapid.T, s string) string {
	b := []byte(s)
	n := 1 + below(t, 3)
	for i := 0; i < n; i++ {
		k := below(t, len(b)+1)
		switch below(t, 6) {
		case 0: // delete
			if k < len(b) {
				b = append(b[:k:k], b[k+1:]...)
			}
		case 1: // insert a fragment
			b = append(b[:k:k], append([]byte(pick(t, fragments)), b[k:]...)...)
		case 2: // replace
			if k < len(b) {
				b[k] = pick(t, []byte("$@.[]()?*,:'\"/\\-+!=<>~&| 01a9ein\x00\x7f\xff\n"))
			}
		case 3: // truncate
			b = b[:k]
		case 4: // duplicate a piece
			j := k + below(t, len(b)-k+1)
			b = append(b[:j:j], b[k:]...)
		case 5: // swap neighbours
			if k+1 < len(b) {
				b[k], b[k+1] = b[k+1], b[k]
			}
		}
	}
	return string(b)
}

func mutateToks(t *rapid.T, toks []string) []string {
	l := append([]string{}, toks...)
	n := 1 + below(t, 2)
	for i := 0; i < n && len(l) > 0; i++ {
		k := below(t, len(l))
		switch below(t, 7) {
		case 0:
			l = append(l[:k:k], l[k+1:]...)
		case 1:
			l = append(l[:k:k], append([]string{pick(t, fragments)}, l[k:]...)...)
		case 2:
			l[k] = pick(t, fragments)
		case 3:
			l = append(l[:k+1:k+1], l[k:]...) // double
		case 4:
			if k+1 < len(l) {
				l[k], l[k+1] = l[k+1], l[k]
			}
		case 5:
			l = l[:k]
		case 6: // move a token elsewhere
			tok := l[k]
			l = append(l[:k:k], l[k+1:]...)
			j := below(t, len(l)+1)
			l = append(l[:j:j], append([]string{tok}, l[j:]...)...)
		}
	}
	return l
}

func genAny(mode int) func(t *rapid.T) AnyCase {
	return func(t *rapid.T) AnyCase {
		switch mode {
		case 0:
			return AnyCase{Text(soup(t)), docText(document(t, docCfg{depth: 2, budget: 10}))}
		case 1:
			s, _, _, doc := validText(t)
			return AnyCase{Text(mutateChars(t, s)), docText(doc)}
		case 2:
			n := below(t, 40)
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(below(t, 256))
			}
			return AnyCase{Text(b), "[1]"}
		}
		doc := document(t, stdDoc)
		cfg := stdPath
		cfg.errs = 2
		cfg.bigIdx = bit.Draw(t, "")
		g := *&cfg
		g.exprGen = func(e *exprGen) *ref.Expr {
			e.wild = 40
			e.errs = 1
			e.big = true
			return e.expr(wAny, 1+below(t, 4))
		}
		return AnyCase{Text(style(t).path(genPath(t, doc, g))), docText(doc)}
	}
}

// NestCase is a construct repeated.
type NestCase struct {
	Kind int `json:"kind"`
	N    int `json:"n"`
}

var nests = []struct{ pre, open, mid, close, post string }{
	{"$[(", "(", "1", ")", ")]"},
	{"$[?(", "[", "1", "]", ")]"},
	{"$[?(", "-", "1", "", ")]"},
	{"$[?(", "!", "1", "", ")]"},
	{"$[?(", "abs(", "1", ")", ")]"},
	{"$[?(@", "[0", "", "]", ")]"},
	{"$[?(", "@[", "0", "]", ")]"},
	{"$", ".a", "", "", ""},
	{"$", "[0]", "", "", ""},
	{"$", "..a", "", "", ""},
	{"$[0", ",0", "", "", "]"},
	{"$[?(1", "+1", "", "", ")]"},
	{"$[?(1", "||1", "", "", ")]"},
	{"$[?(0", "&&(0", "", ")", ")]"},
	{"$[?(", "(", "1", "", ")]"},
	{"$[?(", "[", "", "", ""},
	{"$[?(", "", "1", ")", ")]"},
	{"$['", "a", "", "", "']"},
	{"$['", "\\u00e9", "", "", "']"},
	{"$.", "a", "", "", ""},
	{"$[?(@=~/", "a", "", "", "/)]"},
	{"$[?(@=~/", "(", "a", ")", "/)]"},
	{"$", " ", "", "", ""},
	{"$[", "1", "", "", "]"},
	{"$[?(1.", "1", "", "", ")]"},
	{"$[?(max(1", ",1", "", "", "))]"},
	{"$[?(@.a", ".a", "", "", ")]"},
	{"$", "[?(@)]", "", "", ""},
	{"$[?(@=~/", "a{1000}", "", "", "/)]"},
	{"$[?(1", "==(1", "", ")", ")]"},
	{"", "$", "", "", ""},
	{"$", "[", "", "", ""},
	{"$[?(", "?(", "", "", ""},
	{"$[?(", "-(", "1", ")", ")]"},
	{"$[?(", "a(", "", "", ""},
}

func (c NestCase) text() string {
	k := nests[c.Kind]
	return k.pre + strings.Repeat(k.open, c.N) + k.mid + strings.Repeat(k.close, c.N) + k.post
}

func nestSweep(tier string, emit func(NestCase)) {
	sizes := []int{1, 2, 17, 300, 5000, 70000, 99998, 100001, 400000}
	if tier == "thorough" {
		sizes = append(sizes, 1000, 20000, 99999, 100000, 1<<20, 1<<21, 1<<22-5, 1<<22+5)
	}
	for _, n := range sizes {
		for k := range nests {
			if n > 100 && nests[k].open == "a{1000}" {
				continue
			}
			emit(NestCase{k, n})
		}
	}
}

func execNestText(c NestCase) Result {
	s := c.text()
	r := execAny(AnyCase{Text(s), `[[[1]],{"a":{"a":1}},"aaa"]`})
	if c.N > 1 {
		r2 := execAny(AnyCase{Text(s[:len(s)/2]), "[1]"})
		if r2.Fail != "" {
			return r2
		}
	}
	r.Labels = append(r.Labels, "size "+bucket(c.N))
	return r
}

// C02

// SyntaxCase is a text that may be a path or an expression.
type SyntaxCase struct {
	Text Text `json:"text"`
	Expr bool `json:"expr,omitempty"`
	Must bool `json:"must,omitempty"` // it was made to be valid
}

func execSyntax(c SyntaxCase) Result {
	s := string(c.Text)
	var ierr, rerr error
	if c.Expr {
		_, ierr = paths.ParseScriptExpression(s)
		_, rerr = ref.ParseExpr(s)
	} else {
		_, ierr = jsonpath.Compile(s)
		_, rerr = ref.ParsePath(s)
	}
	what := "path"
	if c.Expr {
		what = "expression"
	}
	if c.Must && rerr != nil {
		harness("generated %s %q is invalid: %v", what, s, rerr)
	}
	switch {
	case ierr != nil && rerr == nil:
		return failf("%s %q was refused (%v), but is valid", what, s, ierr)
	case ierr == nil && rerr != nil:
		return failf("%s %q was accepted, but is invalid (%v)", what, s, rerr)
	case ierr != nil:
		return Result{Labels: []string{what + " invalid"}, Trivia: len(s) < 3}
	}
	return Result{Labels: []string{what + " valid"}, Trivia: len(s) < 3}
}

func genValid(t *rapid.T) SyntaxCase {
	s, _, expr, _ := validText(t)
	return SyntaxCase{Text(s), expr, true}
}

func genNearToks(t *rapid.T) SyntaxCase {
	_, toks, expr, _ := validText(t)
	l := mutateToks(t, toks)
	r := &renderer{t: t, toks: l}
	if chance(t, 1, 3) {
		r.space = 8
	}
	if bit.Draw(t, "") {
		return SyntaxCase{Text(strings.Join(l, "")), expr, false}
	}
	return SyntaxCase{Text(r.String()), expr, false}
}

func genNearChars(t *rapid.T) SyntaxCase {
	s, _, expr, _ := validText(t)
	return SyntaxCase{Text(mutateChars(t, s)), expr, false}
}

func genSoup(t *rapid.T) SyntaxCase {
	return SyntaxCase{Text(soup(t)), chance(t, 1, 3), false}
}

var (
	pathToks = []string{".", "..", "[", "]", "*", "a", "1", "-", ",", ":", "'a'", "?(", "(", ")", "@", "$"}
	exprToks = []string{"1", "a", "@", "$", "(", ")", "[", "]", ".", ",", "-", "!", "+", "/", "==", "=~", "in", "'a'", "&&", "1.", "length"}
)

// every short sequence of tokens
func tokenSweep(tier string, emit func(SyntaxCase)) {
	var rec func(toks []string, n int, prefix string, f func(string))
	rec = func(toks []string, n int, prefix string, f func(string)) {
		f(prefix)
		if n == 0 {
			return
		}
		for _, t := range toks {
			rec(toks, n-1, prefix+t, f)
		}
	}
	np, ne := 4, 3
	if tier == "thorough" {
		np, ne = 5, 4
	}
	rec(pathToks, np, "$", func(s string) { emit(SyntaxCase{Text(s), false, false}) })
	rec(pathToks, np, "$[", func(s string) { emit(SyntaxCase{Text(s + "]"), false, false}) })
	rec(exprToks, ne, "", func(s string) {
		emit(SyntaxCase{Text(s), true, false})
		emit(SyntaxCase{Text("$[?(" + s + ")]"), false, false})
	})
	rec(exprToks, ne, "", func(s string) { emit(SyntaxCase{Text("$[(" + s + "):]"), false, false}) })
	// with spaces between
	spaced := func(l []string) []string {
		var out []string
		for _, s := range l {
			out = append(out, s+" ")
		}
		return out
	}
	rec(spaced(pathToks), np-1, "$ ", func(s string) { emit(SyntaxCase{Text(s), false, false}) })
	rec(spaced(exprToks), ne, "@ ", func(s string) { emit(SyntaxCase{Text(s), true, false}) })
}

// lists of each kind and length, with a comma too many or too few somewhere
func listSweep(tier string, emit func(SyntaxCase)) {
	lists := []struct{ pre, post string }{
		{"$[?([", "])]"}, {"$[?(@ in [", "])]"}, {"$[?(max(", "))]"}, {"$[?(nosuch(", "))]"}, {"$[", "]"}, {"$..[", "]"}, {"$.a[", "].b"}, {"$[(abs(", "))]"}, {"$[?([[", "]])]"}, {"$[?(@[", "])]"}, {"$[?((", "))]"}, {"$[?(max([", "]))]"},
	}
	elems := [][]string{{"1"}, {"'a'"}, {"1", "'a'"}, {"a", "1", "1:2"}, {"(1)"}, {"@", "@.a"}, {"1.5", "null", "[1]"}, {"[]"}, {"*"}, {"1", "*"}, {"1", "?(@)"}, {":", "::"}, {"-1", "- 1"}, {"@[0]", "abs(1)"}, {"/a/"}, {"!1"}, {"1+1", "1 in [1]"}}
	top := 6
	if tier == "thorough" {
		top = 12
	}
	for _, l := range lists {
		for _, e := range elems {
			for n := 0; n <= top; n++ {
				var toks []string
				for i := 0; i < n; i++ {
					if i > 0 {
						toks = append(toks, ",")
					}
					toks = append(toks, e[i%len(e)])
				}
				text := func(toks []string, sp string) {
					emit(SyntaxCase{Text(l.pre + sp + strings.Join(toks, sp) + sp + l.post), false, false})
				}
				text(toks, "")
				text(toks, " ")
				for k := 0; k <= len(toks); k++ {
					for _, x := range []string{",", ";", ":", "]", ")", "1", "]]", " "} {
						text(append(append(append([]string{}, toks[:k]...), x), toks[k:]...), "")
					}
					if k < len(toks) {
						text(append(append([]string{}, toks[:k]...), toks[k+1:]...), " ")
					}
				}
			}
		}
	}
}

// every byte in every lexical position
func byteSweep(tier string, emit func(SyntaxCase)) {
	frames := []string{"%s", "$%s", "$.%s", "$.a%s", "$.a%sb", "$[%s]", "$['%s']", "$[\"%s\"]", "$['\\%s']", "$[\"\\%s\"]", "$['a\\%s']", "$['\\u%s123']", "$['\\u123%s']", "$[\"\\u0%s12\"]",
		"$[1%s]", "$[1%s2]", "$[-%s]", "$[a%s]", "$[a%s,b]", "$['a'%s]", "$[?(%s)]", "$[?(1%s)]", "$[?(1%s2)]", "$[?(1.%s)]", "$[?(1.5%s2)]", "$[?(1.5e%s)]", "$[?(1.5e%s1)]", "$[?(@%s)]", "$[?(@.%s)]", "$[?(@.a%s)]", "$[?(@.a%sb)]", "$[?(a%s)]", "$[?('%s')]", "$[?('\\%s')]", "$[?(\"\\%s\")]",
		"$[?(/%s/)]", "$[?(/\\%s/)]", "$[?(1 %s 2)]", "$[?(1 %s= 2)]", "$[?(1 =%s 2)]", "$[?(1 &%s 2)]", "$[?(1 |%s 2)]", "$[?%s@)]", "$..%s", "$.%sa", "$[1:%s]", "$[%s:1]", "$[1:2:%s]", "$[1%s:2]", "$[*%s]", "$.*%s", "$%s.a", "%s$.a", "$.a%s ", "$[?(@)%s]", "$[(1)%s]", "$[?(abs%s(1))]", "$[?(abs(1%s))]", "$[?([1%s])]", "$[?([1,%s2])]", "$[?(1 i%s 2)]", "$[?(1 %sn [2])]", "$[?(t%srue)]", "$[0,%s]"}
	for _, f := range frames {
		for b := 0; b < 256; b++ {
			emit(SyntaxCase{Text(strings.Replace(f, "%s", string([]byte{byte(b)}), 1)), false, false})
		}
		for _, s := range []string{"é", "日", "😀", "\u0085", "\u00a0", "\u2028", "\ufeff", "\u3000", "\x80", "\xc3", "\xe6\x97", "\ufffd", "  ", "\r\n", "\x0b", "\x0c", "''", "--", "$$", "..", "::", ",,", "//", "\\\\", "\\'", "\\\""} {
			emit(SyntaxCase{Text(strings.Replace(f, "%s", s, 1)), false, false})
		}
	}
	for _, n := range []string{"0", "00", "007", "9223372036854775806", "9223372036854775807", "9223372036854775808", "9223372036854775809", "18446744073709551615", "18446744073709551616", "99999999999999999999", "4294967296", "1.0", "1.", ".5", "1e5", "1.e5", "1.0e5", "1.0E5", "1.0e+5", "1.0e-5", "1.0e", "1.0e+", "1.0e400", "1.0e-400", "1.0e308", "1.8e308", "0x10", "0b1", "0o7", "1_000", "1.5.5", "1..5", "0.0", "00.5", "1.7976931348623157e308", "1.7976931348623159e308", "4.9e-324", "1.0e99999999999999999999", "0.0e99999999999999999999", "Infinity", "NaN", "1.5f", "1n", "+1", "1-", "-0"} {
		for _, f := range []string{"$[%s]", "$[-%s]", "$.%s", "$.-%s", "$[%s:]", "$[:%s]", "$[::%s]", "$[-%s:-%s:-%s]", "$[(%s)]", "$[(-%s)]", "$[?(@==%s)]", "$[?(@==-%s)]", "$[0,%s]", "$..%s", "$[?([%s])]", "$[?(%s in [%s])]", "$[- %s]", "$[?(@[%s])]", "$[?(@[-%s])]"} {
			emit(SyntaxCase{Text(strings.ReplaceAll(f, "%s", n)), false, false})
		}
	}
	for _, r := range []string{"", "a", "[", "]", "(", ")", "*", "+", "a**", "a{2,1}", "a{1001}", "a{1000}", "\\", "\\\\", "\\/", "\\\\/", "\\\\\\/", "[/]", "(?i)a", "(?z)", "(?<n>a)", "(?P<n>a)", "(?=a)", "a|b", "|", "^", "$", "\\d", "\\e", "\\x41", "\\x{110000}", "\\pL", "\\p{Foo}", "[b-a]", "[[:alpha:]]", "[[:foo:]]", "\\1", "a\nb", "\x00", "\xff", "é", "\\Q*\\E", "\\C", "(?:", "x{,2}", "((a{100}){100}){100}"} {
		for _, f := range []string{"$[?(@=~/%s/)]", "$[?(@~/%s/)]", "$[?(/%s/ in [1])]", "$[?(@ =~ /%s/ && @=~/b/)]", "$[?(/%s)]", "$[?(@ =~ '%s')]"} {
			emit(SyntaxCase{Text(strings.ReplaceAll(f, "%s", r)), false, false})
		}
	}
}

// C04

// KeyCase: a quoted spelling of a string, among other keys.
type KeyCase struct {
	Quoted Text     `json:"quoted"` // with its quotes
	Keys   []string `json:"keys"`
}

// denote is what a quoted string denotes: by the JSON decoder if it is a JSON string.
func denote(q string) (string, bool) {
	if len(q) < 2 {
		return "", false
	}
	body := q[1 : len(q)-1]
	if q[0] == '\'' {
		// make it a JSON string: unescape \' and escape "
		var b strings.Builder
		for i := 0; i < len(body); i++ {
			switch {
			case body[i] == '\\' && i+1 < len(body) && body[i+1] == '\'':
				b.WriteByte('\'')
				i++
			case body[i] == '\\' && i+1 < len(body):
				b.WriteString(body[i : i+2])
				i++
			case body[i] == '"':
				b.WriteString(`\"`)
			default:
				b.WriteByte(body[i])
			}
		}
		body = b.String()
	}
	var s string
	if json.Unmarshal([]byte(`"`+body+`"`), &s) != nil {
		return "", false
	}
	return s, true
}

// strayQuote reports an escape of the other quote, which is not allowed (though JSON allows \" anywhere).
func strayQuote(q string) bool {
	return q[0] == '\'' && strings.Contains(strings.ReplaceAll(q, `\\`, ""), `\"`)
}

func execKey(c KeyCase) Result {
	q := string(c.Quoted)
	key, ok := denote(q)
	if !ok || strayQuote(q) {
		r := execSyntax(SyntaxCase{Text("$[" + q + "]"), false, false})
		if r.Fail == "" {
			r.Skip = "not a string"
		}
		return r
	}
	obj := map[string]any{}
	list := []any{}
	for i, k := range append([]string{key}, c.Keys...) {
		if _, ok := obj[k]; !ok {
			obj[k] = float64(i)
			list = append(list, k)
		}
	}
	without := map[string]any{}
	for k, v := range obj {
		if k != key {
			without[k] = v
		}
	}
	doc := map[string]any{"o": obj, "l": list, "w": without}
	var none []any
	if key == "length" {
		none = nil // it may have one
	} else {
		none = []any{}
	}
	for _, f := range []struct {
		path string
		want []any
	}{
		{"$.w[%s]", none},
		{"$.w[%s,%s]", none},
		{"$.w[(%s)]", none},
		{"$.w..[%s]", none},
		{"$.w[?(@[%s])]", none},
		{"$.o[%s]", []any{0.0}},
		{"$['o'][ %s ]", []any{0.0}},
		{"$.o[%s,%s]", []any{0.0, 0.0}},
		{"$.o[(%s)]", []any{0.0}},
		{"$.o.(%s)", []any{0.0}},
		{"$.o..[%s]", []any{0.0}},
		{"$.l[?(@==%s)]", []any{key}},
		{"$.l[?(%s==@)]", []any{key}},
		{"$[?(@[%s]==0)].length", nil},
		{"$.l[?($.o[%s]==0 && @ in [%s])]", []any{key}},
		{"$.l[?(@ in [null,%s,null])]", []any{key}},
		{"$.l[?(@ =~ /(?s)^.*$/ && @==%s)]", []any{key}},
	} {
		if f.want == nil {
			continue
		}
		path := strings.ReplaceAll(f.path, "%s", q)
		got, err := evalText(path, doc)
		if err != nil {
			return failf("%s, that denotes %q: %v", path, key, err)
		}
		if ref.Canon(got) != ref.Canon(f.want) {
			return failf("%s, that denotes %q, among %q gives %s, not %s", path, key, list, ref.Canon(got), ref.Canon(f.want))
		}
	}
	return Result{Trivia: len(obj) < 2, Labels: []string{fmt.Sprintf("quote %c, escapes %v", q[0], strings.Contains(q, `\`))}}
}

func nearKeys(t *rapid.T, k string) []string {
	l := []string{k + "a", "a" + k, strings.ToUpper(k), "a", ""}
	r := []rune(k)
	if len(r) > 0 {
		i := below(t, len(r))
		l = append(l, string(r[:i])+string(r[i+1:]), string(r[:i])+string(r[i]+1)+string(r[i+1:]), string(r[:i])+"\\"+string(r[i:]), string(r[:i])+"\ufffd"+string(r[i+1:]), string(r[:i])+string(r[i:i+1])+string(r[i:]), string(r[:i])+string(r[i]&0xff)+string(r[i+1:]))
	}
	l = append(l, docText(k), "'"+k+"'", quoteWith('\'', k, func() int { return 1 }))
	out := l[:0]
	for _, s := range l {
		if utf8.ValidString(s) {
			out = append(out, s)
		}
	}
	return out
}

func genKeyCase(t *rapid.T) KeyCase {
	k := randomString(t, 8)
	if chance(t, 1, 3) {
		k = pick(t, append(append([]string{}, oddKeys...), strPool...))
	}
	r := style(t)
	return KeyCase{Text(r.quote(k)), nearKeys(t, k)}
}

// genEscapes: raw escape sequences, with surrogates in any arrangement.
func genEscapes(t *rapid.T) KeyCase {
	n := 1 + below(t, 6)
	q := pick(t, []string{"'", "\""})
	var b strings.Builder
	for i := 0; i < n; i++ {
		switch weighted(t, 3, 4, 4, 3, 3, 2) {
		case 0:
			b.WriteString(pick(t, []string{"a", "b", "é", "😀", " ", "0", "u", "dc00", "D800"}))
		case 1:
			fmt.Fprintf(&b, "\\u%04x", 0xD800+below(t, 0x400))
		case 2:
			fmt.Fprintf(&b, "\\u%04X", 0xDC00+below(t, 0x400))
		case 3:
			fmt.Fprintf(&b, "\\u%04x", pick(t, []int{0x41, 0, 0x1f, 0x7f, 0x80, 0xff, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x22, 0x27, 0x5c, 0x2f, 0xfeff}))
		case 4:
			b.WriteString(pick(t, []string{`\b`, `\f`, `\n`, `\r`, `\t`, `\\`, `\/`}))
		case 5:
			b.WriteString("\\" + q)
		}
	}
	s := q + b.String() + q
	k, _ := denote(s)
	return KeyCase{Text(s), nearKeys(t, k)}
}

// words are texts that mean something elsewhere in paths.
var words = []string{"*", "..", ".", "$", "@", "$.a", "@.a", "$['a']", "[*]", "[0]", "['a']", "?", "?()", "?(@)", "?(@.a)", "()", "(1)", "(@.length-1)", "0", "1", "-1", "00", "01", "+1", "1.0", "1e0", "0:1", ":", "::", "::-1", "1:2", "0,1", "a,b", "'a','b'", "a", "b", "a.b", "a..b", "a[0]", "a.*", "~", "~/a/", "=~", "/a/", "^", "^a", "a$", ".*", "true", "false", "null", "in", "nin", "and", "or", "not", "||", "&&", "!", "==", "size", "count", "keys", "key", "parent", "root", "this", "self", "value", "index", "item", "first", "last", "max", "min", "nil", "<nil>", "undefined", "NaN", "__proto__", "constructor", "toString", "hasOwnProperty", "", " ", "a ", " a", "A", "#", "%", "%s", "%d", "%!s", "&", "|", "`", "\"", "'", "\\", "\n", "\t", "\x00", "/", "//", "\u2028", "\ufeff", "\ufffd", "{}", "{", "}", "[", "]", "[]", "(", ")", "<", ">", "=", ",", ";", "-", "_", "--", "+", "==="}

func wordSweep(tier string, emit func(KeyCase)) {
	quotes := []string{"'", "\""}
	others := [][]string{{"a"}, {"a", "b"}, {}, {"0", "1", "-1"}, words}
	for _, w := range words {
		for _, q := range quotes {
			for _, o := range others {
				emit(KeyCase{Text(q + strings.NewReplacer("\\", "\\\\", q, "\\"+q, "\n", "\\n", "\t", "\\t", "\x00", "\\u0000").Replace(w) + q), o})
			}
		}
	}
}

func escapeSweep(tier string, emit func(KeyCase)) {
	step := 1
	for c := 0; c < 0x10000; c += step {
		if tier != "thorough" && c >= 0x100 {
			step = 97
		}
		emit(KeyCase{Text(fmt.Sprintf("'\\u%04x'", c)), []string{"a", "\ufffd", "?"}})
		emit(KeyCase{Text(fmt.Sprintf("\"x\\u%04Xy\"", c)), []string{"xy", "x\ufffdy"}})
		if c < 0xD800 || c >= 0xE000 {
			if c >= 0x20 && c != '\'' && c != '\\' {
				emit(KeyCase{Text("'" + string(rune(c)) + "'"), []string{"a", "", "\ufffd"}})
			}
		}
	}
	for hi := 0xD800; hi < 0xDC00; hi += 1 {
		for _, lo := range []int{0xDC00, 0xDC01, 0xDFFF, 0xDBFF, 0xE000, 0xDD55} {
			if tier != "thorough" && hi%31 != 0 && hi != 0xDBFF {
				continue
			}
			emit(KeyCase{Text(fmt.Sprintf("'\\u%04x\\u%04x'", hi, lo)), []string{"\ufffd", "\ufffd\ufffd", "a"}})
			emit(KeyCase{Text(fmt.Sprintf("\"\\u%04x\\u%04x\\u%04x\"", hi, hi, lo)), []string{"\ufffd", "\ufffd\ufffd", "a"}})
			emit(KeyCase{Text(fmt.Sprintf("\"\\u%04x\\u%04x\"", lo, hi)), []string{"\ufffd", "\ufffd\ufffd", "a"}})
		}
	}
}

// BlockCase: 256 characters, one after another, each a key.
type BlockCase struct {
	Start int    `json:"start"`
	How   int    `json:"how"` // spelling
	Quote string `json:"quote"`
}

func blockSweep(tier string, emit func(BlockCase)) {
	q := []string{"'", "\""}
	for b := 0; b < 0x110000; b += 256 {
		for how := 0; how < 3; how++ {
			if b >= 0x10000 && tier != "thorough" && (b>>8)%16 != how && b>>8 != 0x1f6 && b>>8 != 0x10ff && b>>8 != 0x100 && b>>8 != 0x1ff {
				continue
			}
			emit(BlockCase{b, how, q[(b>>8+how)%2]})
			if tier == "thorough" {
				emit(BlockCase{b, how, q[(b>>8+how+1)%2]})
			}
		}
	}
}

// execBlock writes each character itself (0), or as escapes in lower (1) or upper case (2).
func execBlock(c BlockCase) Result {
	obj := map[string]any{"": "nothing", "?": "a question mark", "\ufffd": "a replacement"}
	var b strings.Builder
	var want, list []any
	n := 0
	for r := rune(c.Start); r < rune(c.Start)+256; r++ {
		if utf16.IsSurrogate(r) {
			if c.How == 0 {
				continue // not in UTF-8
			}
			// half a pair: denotes U+FFFD
		}
		if c.How == 0 && (r < 0x20 || r == rune(c.Quote[0]) || r == '\\') {
			continue
		}
		if n > 0 {
			b.WriteByte(',')
		}
		n++
		b.WriteString(c.Quote)
		f := "\\u%04x"
		if c.How == 2 {
			f = "\\u%04X"
		}
		switch {
		case c.How == 0:
			b.WriteRune(r)
		case r < 0x10000:
			fmt.Fprintf(&b, f, r)
		default:
			hi, lo := utf16.EncodeRune(r)
			fmt.Fprintf(&b, f+f, hi, lo)
		}
		b.WriteString(c.Quote)
		k := string(r)
		if k != "\ufffd" {
			obj[k] = float64(r)
		}
		want = append(want, obj[k])
		list = append(list, k)
	}
	if n == 0 {
		return Result{Skip: "no such characters"}
	}
	for _, f := range []struct {
		path string
		doc  any
		want []any
	}{
		{"$[%s]", obj, want},
		{"$[?(@==[%s])]", []any{list, append([]any{"x"}, list[1:]...)}, []any{list}},
	} {
		path := strings.Replace(f.path, "%s", b.String(), 1)
		got, err := evalText(path, f.doc)
		if err != nil {
			return failf("%s: %v", path, err)
		}
		if ref.Canon(got) != ref.Canon(f.want) {
			return failf("%s gives %s, not %s", path, ref.Canon(got), ref.Canon(f.want))
		}
	}
	return Result{Labels: []string{[]string{"as they are", "escapes", "escapes in capitals"}[c.How]}}
}

// reBlockSweep has every character of the first planes' beginnings in a regular expression literal.
func reBlockSweep(tier string, emit func(BlockCase)) {
	for b := 0; b < 0x110000; b += 64 {
		if tier != "thorough" && b >= 0x3100 && (b>>6)%16 != 3 && (b < 0xfb00 || b >= 0x10100) {
			continue
		}
		for how := 0; how < 5; how++ {
			emit(BlockCase{Start: b, How: how})
		}
	}
}

// execREBlock writes each character in turn alone, first, last, in the middle or twice in a pattern.
func execREBlock(c BlockCase) Result {
	form := []string{"%c", "%ca", "a%c", "a%ca", "%c%c"}[c.How]
	n := 0
	for r := rune(c.Start); r < rune(c.Start)+64; r++ {
		if utf16.IsSurrogate(r) {
			continue
		}
		n++
		put := func(s string) string { return strings.ReplaceAll(form, "%c", s) }
		x := string(r)
		pat := regexp.QuoteMeta(x)
		lit := pat
		if r == '/' {
			lit = `\/`
		}
		docs := []any{}
		var want []any
		re := regexp.MustCompile("^" + put(pat) + "$")
		for _, s := range []string{"", "a", "aa", x, x + x, "a" + x, x + "a", "a" + x + "a", "\\" + x, x + "/", "b" + x, "aba", string(r ^ 1), string(r^0x20) + "a", "a" + string(r^1)} {
			docs = append(docs, s)
			if re.MatchString(s) {
				want = append(want, s)
			}
		}
		for _, path := range []string{"$[?(@ =~ /^" + put(lit) + "$/)]", "$[?(@ =~ /" + put(lit) + "/)]"} {
			if path[len("$[?(@ =~ /")] != '^' {
				re := regexp.MustCompile(put(pat))
				want = nil
				for _, d := range docs {
					if re.MatchString(d.(string)) {
						want = append(want, d)
					}
				}
			}
			got, err := evalText(path, docs)
			if err != nil {
				return failf("%q: %v", path, err)
			}
			if ref.Canon(got) != ref.Canon(append([]any{}, want...)) {
				return failf("%q on %s gives %s, not %s", path, ref.Canon(docs), ref.Canon(got), ref.Canon(append([]any{}, want...)))
			}
		}
	}
	if n == 0 {
		return Result{Skip: "no such characters"}
	}
	return Result{Labels: []string{form}}
}

// IntCase: an integer in every position.
type IntCase struct {
	N int64 `json:"n"`
}

func execInt(c IntCase) Result {
	n := c.N
	key := func(n int64) string { return strconv.FormatInt(n, 10) }
	obj := map[string]any{key(n): "this"}
	for _, m := range []int64{n - 1, n + 1, -n, n & 0xffffff, n & 0xffffffff, n ^ 1<<23, n ^ 1<<22, n >> 8, int64(int32(n)), n << 1, n >> 1, int64(float32(n)), n ^ 1<<31, n ^ 1<<32, n | -1<<22} {
		if m != n {
			obj[key(m)] = "other"
		}
	}
	if f := float64(n); math.Abs(f) < 9e18 && int64(f) != n {
		obj[key(int64(f))] = "rounded"
	}
	list := []any{}
	for i := 0; i < 30; i++ {
		list = append(list, float64(i))
	}
	doc := map[string]any{"o": obj, "l": list}
	s := key(n)
	lit := s
	if n < 0 {
		lit = "-" + s[1:]
	}
	want := `["this"]`
	ps := []string{
		"$.o[" + s + "]", "$.o." + s, "$.o[(" + lit + ")]", "$.o.(" + lit + ")", "$.o..[" + s + "]",
		"$['o'][" + s + ",'nothing']", "$.o[(0+" + lit + ")]", "$.o[(false||(" + lit + "))]",
		"$.o[([5," + lit + ",7][1])]", "$.o[(" + lit + "*1)]",
	}
	for _, p := range ps {
		got, err := evalText(p, doc)
		if err != nil {
			return failf("%s: %v", p, err)
		}
		if ref.Canon(got) != want {
			return failf("%s gives %s on %s", p, ref.Canon(got), ref.Canon(doc))
		}
	}
	// as index and slice bounds, by the definition
	for _, f := range []string{"$[%s]", "$[%s:]", "$[:%s]", "$[::%s]", "$[%s:%s:%s]", "$[:%s:-1]", "$[?(@==%s)]", "$[?(@<%s)]", "$[?(@ in [%s,1])]", "$[?(@.a[%s])]", "$[?($[%s]==@)]"} {
		p := strings.ReplaceAll(f, "%s", s)
		r, _ := checkPath(PathCase{Text(p), docText(list)})
		if r.Fail != "" {
			return r
		}
	}
	return Result{Trivia: n > -100 && n < 100}
}

func intSweep(tier string, emit func(IntCase)) {
	emit(IntCase{0})
	for b := 0; b < 63; b++ {
		for d := int64(-3); d <= 3; d++ {
			n := int64(1)<<b + d
			emit(IntCase{n})
			emit(IntCase{-n})
		}
	}
	for d := int64(0); d < 4; d++ {
		emit(IntCase{math.MaxInt64 - 3 + d})
		if -(math.MaxInt64 - 3 + d) != -math.MaxInt64 {
			emit(IntCase{-(math.MaxInt64 - 3 + d)})
		}
	}
	p := int64(1)
	for i := 0; i < 18; i++ {
		p *= 10
		for d := int64(-1); d <= 1; d++ {
			emit(IntCase{p + d})
			emit(IntCase{-p + d})
		}
	}
}

func genInt(t *rapid.T) IntCase {
	b := below(t, 63)
	n := int64(1) << b
	for i := 0; i < b; i++ {
		if bit.Draw(t, "") {
			n |= 1 << i
		}
	}
	if bit.Draw(t, "") {
		n = -n
	}
	if n <= -math.MaxInt64 {
		n = -5
	}
	return IntCase{n}
}

// RealCase: the text of a real literal.
type RealCase struct {
	Text string `json:"text"`
}

func execReal(c RealCase) Result {
	f, err := strconv.ParseFloat(c.Text, 64)
	if err != nil {
		return execSyntax(SyntaxCase{Text("$[?(@==" + c.Text + ")]"), false, false})
	}
	list := []any{f, math.Nextafter(f, math.Inf(1)), math.Nextafter(f, math.Inf(-1)), -f - 1, float64(float32(f)) * 1.0000001, f + 1}
	list = unique(list)
	doc := map[string]any{"l": list}
	for _, p := range []string{"$.l[?(@==%s)]", "$.l[?(%s==@)]", "$.l[?(@>=%s && @<=%s)]", "$.l[?(@ in [%s])]", "$.l[?(@ == - -%s)]", "$.l[?([@]==[%s])]", "$.l[?(@==(%s))]", "$.l[?(!(@<%s||@>%s))]", "$.l[?(@==max(%s))]"[:0]} {
		if p == "" {
			continue
		}
		p = strings.ReplaceAll(p, "%s", c.Text)
		got, err := evalText(p, doc)
		if err != nil {
			return failf("%s: %v", p, err)
		}
		if ref.Canon(got) != ref.Canon([]any{f}) {
			return failf("%s gives %s, not [%v], on %s", p, ref.Canon(got), f, ref.Canon(doc))
		}
	}
	return Result{}
}

func unique(l []any) []any {
	var out []any
	seen := map[any]bool{}
	for _, v := range l {
		if f := v.(float64); !seen[f] && !math.IsInf(f, 0) && !math.IsNaN(f) {
			seen[f] = true
			out = append(out, v)
		}
	}
	return out
}

func genReal(t *rapid.T) RealCase {
	var b strings.Builder
	digits := func(min, max int) {
		n := between(t, min, max)
		for i := 0; i < n; i++ {
			b.WriteByte(byte('0' + below(t, 10)))
		}
	}
	switch weighted(t, 3, 2, 1) {
	case 0:
		digits(1, 4)
		b.WriteByte('.')
		digits(0, 6)
	case 1:
		digits(1, 20)
		b.WriteByte('.')
		digits(0, 25)
	default:
		f := pick(t, []float64{0.1, 1.0 / 3, math.Pi, math.MaxFloat64, math.SmallestNonzeroFloat64, 1 << 53, 1<<53 + 2, 2.2250738585072014e-308, 1e22, 1e23, 123456789012345680, 5e-324, 0.30000000000000004})
		return RealCase{(&renderer{t: t}).real(f)}
	}
	if bit.Draw(t, "") {
		b.WriteString(pick(t, []string{"e", "E"}))
		b.WriteString(pick(t, []string{"", "+", "-"}))
		fmt.Fprint(&b, below(t, pick(t, []int{10, 30, 290})))
	}
	return RealCase{b.String()}
}

// ManyCase: a path with many different constants, each of which must be itself.
type ManyCase struct {
	Kind int      `json:"kind"` // how they are put in the path
	Lits []Text   `json:"lits"`
	Vals []string `json:"vals"` // as JSON; integers as text
}

func genMany(t *rapid.T) ManyCase {
	n := 2 + below(t, 40)
	if chance(t, 1, 5) {
		n = 100 + below(t, 600)
	}
	c := ManyCase{Kind: below(t, 4)}
	r := style(t)
	seen := map[string]bool{}
	base := below(t, 200)
	mode := below(t, 4)
	for i := 0; len(c.Lits) < n; i++ {
		var e *ref.Expr
		var v any
		m := mode
		if m == 3 {
			m = i % 3
		}
		switch m {
		case 0:
			k := int64(i*(1+base) + base)
			if i%5 == 4 {
				k = 1<<22 + int64(i)
			}
			e, v = eInt(k), float64(k)
		case 1:
			f := float64(i) + 0.25
			if i%3 == 0 {
				f = float64(i) * 1000003.5
			}
			if i%7 == 3 {
				f = float64(i) // same as the integer, but a real
			}
			e, v = eReal(f), f
		default:
			s := fmt.Sprintf("s%d", i*base)
			if i%4 == 1 {
				s = strings.Repeat("x", i%50)
			}
			e, v = eStr(s), s
		}
		if k := ref.Canon(v); !seen[k] || i > 3*n {
			seen[k] = true
			c.Lits = append(c.Lits, Text(r.exprText(e)))
			c.Vals = append(c.Vals, docText(v))
		}
	}
	return c
}

func execMany(c ManyCase) Result {
	vals := make([]any, len(c.Vals))
	for i, v := range c.Vals {
		vals[i] = parseDoc(v)
	}
	var path string
	var doc any
	var want []any
	switch c.Kind {
	case 0: // candidate i must equal constant i, and not its neighbour
		var b strings.Builder
		l := []any{}
		for i, s := range c.Lits {
			if i > 0 {
				b.WriteString("||")
			}
			fmt.Fprintf(&b, "@.i==%d&&@.v==%s", i, s)
			l = append(l, map[string]any{"i": float64(i), "v": vals[i]}, map[string]any{"i": float64(i), "v": vals[(i+1)%len(vals)]})
			want = append(want, l[2*i])
			if ref.Canon(vals[i]) == ref.Canon(vals[(i+1)%len(vals)]) {
				want = append(want, l[2*i+1])
			}
		}
		path, doc = "$[?("+b.String()+")]", l
	case 1: // element by element
		l := []any{}
		var b strings.Builder
		for i, s := range c.Lits {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(string(s))
			l = append(l, vals[i])
		}
		path, doc, want = "$[?(@==["+b.String()+"])]", []any{l, l[1:], []any{}}, []any{l}
		if len(l) == 1 {
			doc = []any{l}
		}
	case 2: // selected back
		var b strings.Builder
		for i, s := range c.Lits {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(string(s))
		}
		l := []any{}
		for i := range vals {
			l = append(l, map[string]any{"i": float64(i), "v": vals[i]}, map[string]any{"i": float64(i), "v": "none"})
			want = append(want, l[2*i])
		}
		path, doc = "$[?(["+b.String()+"][@.i]==@.v)]", l
	default: // a union of names
		obj := map[string]any{}
		var b strings.Builder
		for i := range vals {
			k := ref.Canon(vals[i])
			obj[k] = float64(i)
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(quoteWith('\'', k, func() int { return 0 }))
		}
		for i := range vals {
			want = append(want, obj[ref.Canon(vals[i])])
		}
		path, doc = "$["+b.String()+"]", obj
	}
	got, err := evalText(path, doc)
	if err != nil {
		return failf("%s: %v", clip(path, 3000), err)
	}
	if ref.Canon(got) != ref.Canon(want) {
		return failf("%s gives %s, not %s", clip(path, 3000), clip(ref.Canon(got), 3000), clip(ref.Canon(want), 3000))
	}
	return Result{Labels: []string{fmt.Sprintf("kind %d", c.Kind), "constants " + bucket(len(c.Lits))}}
}

// Constants of different kinds with the same text, in one path.

var spellings = []string{"a", "abc", "x1", "b", "1", "12", "5000000", "5000001", "9000000000", "1.5", "5000000.5", "true", "null", "length", "in", "a.c", "0:1", "[0:1]", "s", "-5000000", "e1", "$", "@"}

func genSpellings(t *rapid.T) PathCase {
	pool := []string{pick(t, spellings), pick(t, spellings)}
	if chance(t, 1, 3) {
		pool[1] = pool[0]
	}
	value := func(s string) any {
		switch below(t, 4) {
		case 0:
			if f, err := strconv.ParseFloat(s, 64); err == nil {
				return f
			}
			return s
		case 1:
			return pick(t, []any{"x" + s, s + "x", s + s, strings.ToUpper(s), "", nil, true, 1.0, 0.0})
		}
		return s
	}
	obj := func() map[string]any {
		o := map[string]any{"s": value(pick(t, pool)), "l": []any{value(pool[0]), value(pool[1])}}
		for _, s := range pool {
			if !chance(t, 1, 4) {
				o[s] = value(pick(t, pool))
			}
		}
		return o
	}
	list := []any{}
	for n := 1 + below(t, 4); n > 0; n-- {
		list = append(list, obj())
	}
	number := func(s string) bool {
		_, err := strconv.ParseFloat(s, 64)
		return err == nil && s != "Inf" && s != "NaN" && s[0] != '-'
	}
	word := func(s string) bool { return identifier(s, false) && s != "in" && s != "true" && s != "null" }
	lit := func(s string) string { // a constant with that text
		q := quoteWith(pick(t, []byte{'\'', '"'}), s, func() int { return 0 })
		switch {
		case number(s) && bit.Draw(t, ""):
			if !strings.Contains(s, ".") && bit.Draw(t, "") {
				return s + ".0"
			}
			return s
		}
		return q
	}
	str := func(s string) string {
		return quoteWith(pick(t, []byte{'\'', '"'}), s, func() int { return 0 })
	}
	var atom func() string
	atom = func() string {
		s := pick(t, pool)
		lhs := pick(t, []string{"@.s", "@.s", "@.l[0]", "@.l[1]"})
		switch below(t, 3) {
		case 0:
			lhs = "@[" + lit(pick(t, pool)) + "]"
		case 1:
			if n := pick(t, pool); word(n) {
				lhs = "@." + n
			}
		}
		re := strings.ReplaceAll(s, "/", "\\/")
		switch below(t, 6) {
		case 0, 1:
			return lhs + pick(t, []string{"==", "!="}) + lit(s)
		case 2:
			return "(" + lhs + "||'') in [" + lit(s) + "," + lit(pick(t, pool)) + "]"
		case 3:
			return str(s) + "=~/" + re + "/"
		case 4:
			return str(pick(t, pool)) + "=~" + pick(t, []string{"/" + re + "/", str(s)})
		default:
			return lit(s) + "==" + lhs
		}
	}
	n := 2 + below(t, 3)
	var b strings.Builder
	b.WriteString("$[?(")
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(pick(t, []string{"&&", "||"}))
		}
		b.WriteString(atom())
	}
	b.WriteString(")]")
	for i := below(t, 3); i > 0; i-- {
		s := pick(t, pool)
		switch below(t, 4) {
		case 0:
			b.WriteString("[" + str(s) + "]")
		case 1:
			if identifier(s, true) {
				b.WriteString("." + s)
			}
		case 2:
			b.WriteString("[" + str(s) + "," + str(pick(t, pool)) + "]")
		default:
			if number(s) && !strings.Contains(s, ".") {
				b.WriteString("[" + s + "]")
			} else {
				b.WriteString(".l[0:1]")
			}
		}
	}
	return PathCase{Text(b.String()), docText(list)}
}

func execSpellings(c PathCase) Result {
	r, _ := checkPath(c)
	return r
}

// NameCase: an unquoted name.
type NameCase struct {
	Name string   `json:"name"`
	Keys []string `json:"keys"`
}

func genName(t *rapid.T) NameCase {
	n := 1 + below(t, 6)
	var b strings.Builder
	for i := 0; i < n; i++ {
		s := pick(t, []string{"a", "b", "z", "A", "Z", "_", "é", "日", "😀", "ß", "\u00a0", "\u2028", "\ufffd", "x", "in", "nin", "true", "null", "length"})
		if i > 0 && chance(t, 1, 3) {
			s = pick(t, []string{"-", "0", "9", "1", "--", "-1"})
		}
		b.WriteString(s)
	}
	return NameCase{b.String(), nearKeys(t, b.String())}
}

func execName(c NameCase) Result {
	obj := map[string]any{c.Name: "this"}
	for _, k := range c.Keys {
		if k != c.Name {
			obj[k] = "other"
		}
	}
	doc := map[string]any{"o": obj}
	if c.Name == "o" {
		return Result{Skip: "same name"}
	}
	ps := []string{"$.o.%s", "$.o[%s]", "$.o[ %s ,'nothing']", "$..%s", "$.o..%s", "$.*.%s", "$ .o . %s "}
	if !strings.Contains(c.Name, "-") {
		ps = append(ps, "$.o[?(@==$.o.%s)]", "$.o[?($.o.%s==@)]")
	}
	for _, p := range ps {
		p = strings.ReplaceAll(p, "%s", c.Name)
		got, err := evalText(p, doc)
		if err != nil {
			return failf("%q: %v", p, err)
		}
		if ref.Canon(got) != `["this"]` {
			return failf("%q gives %s on %s", p, ref.Canon(got), ref.Canon(doc))
		}
	}
	return Result{}
}

func init() {
	register(&Check{
		ID:   "C01",
		Rule: "any text counts, valid or not",
		Families: []*Family{
			sweep("nesting", nestSweep, execNestText),
			family("fragments", 80000, 4000000, genAny(0), execAny),
			family("near paths", 60000, 3000000, genAny(1), execAny),
			family("bytes", 30000, 2000000, genAny(2), execAny),
			family("paths", 60000, 3000000, genAny(3), execAny),
		},
	})
	register(&Check{
		ID:   "C02",
		Rule: "the text has at least three bytes",
		Families: []*Family{
			sweep("token sequences", tokenSweep, execSyntax),
			sweep("bytes in place", byteSweep, execSyntax),
			sweep("lists", listSweep, execSyntax),
			sweep("positions", positionSweep, execSyntax),
			family("valid", 80000, 4000000, genValid, execSyntax),
			family("token mutations", 100000, 6000000, genNearToks, execSyntax),
			family("character mutations", 100000, 6000000, genNearChars, execSyntax),
			family("fragments", 60000, 4000000, genSoup, execSyntax),
		},
	})
	register(&Check{
		ID:   "C04",
		Rule: "strings: there are other keys; integers: outside -100..100; others: any",
		Families: []*Family{
			sweep("words", wordSweep, execKey),
			sweep("escapes", escapeSweep, execKey),
			sweep("all characters", blockSweep, execBlock),
			sweep("characters of patterns", reBlockSweep, execREBlock),
			sweep("integers near limits", intSweep, execInt),
			family("keys", 40000, 1500000, genKeyCase, execKey),
			family("escape sequences", 30000, 1500000, genEscapes, execKey),
			family("names", 20000, 500000, genName, execName),
			family("integers", 15000, 600000, genInt, execInt),
			family("reals", 30000, 1500000, genReal, execReal),
			family("many constants", 6000, 200000, genMany, execMany),
			family("same text, other kind", 40000, 1500000, genSpellings, execSpellings),
			family("matches", 20000, 500000, genMatch, execProbe),
		},
	})
}
