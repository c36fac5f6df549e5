package main

import (
	"math"
	"sort"
	"strings"

	"verif/pbt/ref"

	"pgregory.net/rapid"
)

// Type-directed generator of script expressions.

type want int

const (
	wBool want = iota
	wNum
	wStr
	wArr
	wAny
)

type exprGen struct {
	t    *rapid.T
	root any
	dots []any // samples of what @ may be; nil if @ has no meaning here
	errs int   // chance in 64 of something that raises an error
	wild int   // chance in 64 of ignoring the wanted type
	fns  bool  // functions allowed
	re   bool  // matches allowed
	in   bool  // in, nin allowed
	big  bool  // large constants
}

func newExprGen(t *rapid.T, root any, dots []any) *exprGen {
	return &exprGen{t: t, root: root, dots: dots, errs: 0, wild: 3, fns: true, re: true, in: true}
}

func eInt(n int64) *ref.Expr {
	if n < 0 {
		return &ref.Expr{K: ref.KNeg, Kids: []*ref.Expr{{K: ref.KInt, I: -n}}}
	}
	return &ref.Expr{K: ref.KInt, I: n}
}
func eReal(f float64) *ref.Expr {
	if f < 0 || f == 0 && math.Signbit(f) {
		return &ref.Expr{K: ref.KNeg, Kids: []*ref.Expr{{K: ref.KReal, F: -f}}}
	}
	return &ref.Expr{K: ref.KReal, F: f}
}
func eStr(s string) *ref.Expr { return &ref.Expr{K: ref.KStr, S: s} }
func eBool(b bool) *ref.Expr  { return &ref.Expr{K: ref.KBool, B: b} }
func eNull() *ref.Expr        { return &ref.Expr{K: ref.KNull} }
func eCur() *ref.Expr         { return &ref.Expr{K: ref.KCur} }
func eRoot() *ref.Expr        { return &ref.Expr{K: ref.KRoot} }
func eBin(op string, a, b *ref.Expr) *ref.Expr {
	return &ref.Expr{K: ref.KBin, Op: op, Kids: []*ref.Expr{a, b}}
}
func eNot(a *ref.Expr) *ref.Expr               { return &ref.Expr{K: ref.KNot, Kids: []*ref.Expr{a}} }
func eNeg(a *ref.Expr) *ref.Expr               { return &ref.Expr{K: ref.KNeg, Kids: []*ref.Expr{a}} }
func eDot(a *ref.Expr, s string) *ref.Expr     { return &ref.Expr{K: ref.KDot, S: s, Kids: []*ref.Expr{a}} }
func eIndex(a, b *ref.Expr) *ref.Expr          { return &ref.Expr{K: ref.KIndex, Kids: []*ref.Expr{a, b}} }
func eArr(l ...*ref.Expr) *ref.Expr            { return &ref.Expr{K: ref.KArray, Kids: l} }
func eRegex(s string) *ref.Expr                { return &ref.Expr{K: ref.KRegex, S: s} }
func eCall(n string, l ...*ref.Expr) *ref.Expr { return &ref.Expr{K: ref.KCall, S: n, Kids: l} }

// literal renders a document value as an expression, if it can be.
func literal(v any) *ref.Expr {
	switch v := v.(type) {
	case nil:
		return eNull()
	case bool:
		return eBool(v)
	case float64:
		if v == math.Trunc(v) && math.Abs(v) < 1<<53 && !(v == 0 && math.Signbit(v)) {
			return eInt(int64(v))
		}
		return eReal(v)
	case string:
		return eStr(v)
	case []any:
		e := eArr()
		for _, x := range v {
			k := literal(x)
			if k == nil {
				return nil
			}
			e.Kids = append(e.Kids, k)
		}
		return e
	}
	return nil
}

// litOf is literal for values in evaluations, which may be integers.
func litOf(v any) *ref.Expr {
	switch v := v.(type) {
	case int64:
		if v == math.MinInt64 {
			return nil
		}
		return eInt(v)
	case ref.Nothing:
		return eNull()
	case float64:
		if v == math.Trunc(v) && math.Abs(v) < 1e15 {
			return eReal(v)
		}
		if math.IsInf(v, 0) || math.IsNaN(v) {
			return nil
		}
	case []any:
		e := eArr()
		for _, x := range v {
			k := litOf(x)
			if k == nil {
				return nil
			}
			e.Kids = append(e.Kids, k)
		}
		return e
	}
	return literal(v)
}

func fits(v any, w want) bool {
	switch v.(type) {
	case bool:
		return w == wBool || w == wAny
	case float64:
		return w == wNum || w == wAny
	case string:
		return w == wStr || w == wAny
	case []any:
		return w == wArr || w == wAny
	}
	return w == wAny
}

// access makes an expression reaching some value under v from base; it prefers one that fits.
func (g *exprGen) access(base *ref.Expr, v any, w want) *ref.Expr {
	type cand struct {
		path []any
		v    any
	}
	var all []cand
	var walk func(v any, path []any)
	walk = func(v any, path []any) {
		if len(all) > 60 || len(path) > 4 {
			return
		}
		all = append(all, cand{append([]any(nil), path...), v})
		switch v := v.(type) {
		case []any:
			for i, x := range v {
				if i < 6 {
					walk(x, append(path, i))
				} else if i == len(v)-1 {
					walk(x, append(path, -1))
				}
			}
		case map[string]any:
			for _, k := range sortedKeys(v) {
				walk(v[k], append(path, k))
			}
		}
	}
	walk(v, nil)
	var good []cand
	for _, c := range all {
		if fits(c.v, w) && (w != wAny || len(c.path) > 0) {
			good = append(good, c)
		}
	}
	if len(good) == 0 || chance(g.t, 1, 12) {
		good = all
	}
	c := pick(g.t, good)
	e := base
	for _, s := range c.path {
		switch s := s.(type) {
		case int:
			e = eIndex(e, eInt(int64(s)))
		case string:
			if identifier(s, false) && s != "length" && chance(g.t, 5, 6) {
				e = eDot(e, s)
			} else {
				e = eIndex(e, eStr(s))
			}
		}
	}
	if chance(g.t, 1, 24) { // something missing
		return eDot(e, pick(g.t, plainKeys))
	}
	return e
}

func (g *exprGen) doc(w want) *ref.Expr {
	if len(g.dots) > 0 && chance(g.t, 3, 4) {
		return g.access(eCur(), pick(g.t, g.dots), w)
	}
	return g.access(eRoot(), g.root, w)
}

func (g *exprGen) intLit() *ref.Expr {
	if g.big && chance(g.t, 1, 3) {
		return eInt(pick(g.t, bigInts))
	}
	if chance(g.t, 1, 10) {
		return eInt(pick(g.t, []int64{127, 128, 255, 256, 1000, 65535, 65536, 16777215, 16777216, 1 << 31, 1<<31 - 1, 1 << 32}))
	}
	return eInt(int64(below(g.t, 12)))
}

var bigInts = []int64{1<<22 - 1, 1 << 22, 1<<22 + 1, 1<<23 - 1, 1 << 23, 1<<23 + 1, 1<<24 - 1, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32,
	1<<53 - 1, 1 << 53, 1<<53 + 1, 1<<62 + 1, math.MaxInt64, math.MaxInt64 - 1, 1<<21 - 1, 1 << 21, 1<<20 - 1, 1 << 20, -1 << 22, -1<<23 - 1, -1 << 21, -1<<21 - 1, -1<<22 - 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536}

func (g *exprGen) realLit() *ref.Expr {
	return eReal(pick(g.t, []float64{0, 0.5, 1, 1.5, 2, 2.5, 3.25, 0.1, 100, 1e10, 1e-3, 1e21, 4, 10, 0.25, 7.75, 1e300, 123456789.125, 5e-324, 1.7976931348623157e308, 0.3, 1e16}))
}

func (g *exprGen) lit(w want) *ref.Expr {
	switch w {
	case wBool:
		return eBool(bit.Draw(g.t, ""))
	case wNum:
		if chance(g.t, 1, 4) {
			return g.realLit()
		}
		return g.intLit()
	case wStr:
		if chance(g.t, 1, 3) { // a string that is somewhere in the document
			var l []string
			for _, v := range subvalues(g.root, 60) {
				if s, ok := v.(string); ok {
					l = append(l, s)
				}
			}
			if len(l) > 0 {
				return eStr(pick(g.t, l))
			}
		}
		if chance(g.t, 1, 12) {
			return eStr(randomString(g.t, 6))
		}
		if chance(g.t, 1, 24) {
			return eStr(strings.Repeat(pick(g.t, strPool), pick(g.t, []int{8, 20, 100, 300})))
		}
		return eStr(pick(g.t, strPool))
	case wArr:
		e := eArr()
		n := below(g.t, 4)
		if chance(g.t, 1, 24) {
			n = pick(g.t, []int{8, 9, 16, 17, 33, 40})
		}
		k := want(below(g.t, 5))
		for i := 0; i < n; i++ {
			if k == wAny {
				e.Kids = append(e.Kids, g.lit(want(below(g.t, 4))))
			} else {
				e.Kids = append(e.Kids, g.lit(k))
			}
		}
		return e
	}
	if chance(g.t, 1, 8) {
		return eNull()
	}
	return g.lit(want(below(g.t, 4)))
}

func (g *exprGen) leaf(w want) *ref.Expr {
	if chance(g.t, 3, 5) {
		return g.doc(w)
	}
	return g.lit(w)
}

var (
	relops = []string{"==", "!=", "<", "<=", ">", ">="}
	ariops = []string{"+", "-", "*", "/", "%"}
	rePool = []string{"a", "^a", "b$", "^abc$", ".", "a.c", "[a-c]+", "\\d", "^\\d+$", "x|b", "(a)(b)", "", "^$", "A", "(?i)A", "é", "\\.", "a/b", "\\\\", "^.$", "\\s", "[^a]", "a{2}", "\\bb", "ab*", "(?s)^.*$", "日", "(abc){2}", "^-?\\d", "t$", "e", " a", "a ", " ", "\\t", "^(a|b)*$", "\\x61", "[\\]a]", "b|", "\\Qa.c\\E"}
)

// longRE are patterns of the kind that real paths have.
var longRE = []string{"^[A-Za-z0-9._%+-]+@[A-Za-z0-9.-]+\\.[A-Za-z]{2,}$", "^(abc|abd|acd|bcd){1,10}x?$", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "(?:a|b|c|d|e|f|g|h|i|j|k|l|m)+$",
	"^(?i:alpha|beta|gamma|delta|a|b|ab|abc)$", "[a-zA-Z_][a-zA-Z0-9_]*", "(\\d{4})-(\\d{2})-(\\d{2})", "^(((((a)?b)?c)?d)?e)?$", "https?://[^/]+/(.*)", "^.{3,100}$", "\\b(abc|x y|true|false|null)\\b", "(?m)^(a|b).*$", "^[^\\x00-\\x7f]+$", "\\p{L}+\\s\\p{N}*"}

func (g *exprGen) pattern(depth int) *ref.Expr {
	if chance(g.t, 1, 8) {
		if bit.Draw(g.t, "") {
			return eStr(pick(g.t, longRE))
		}
		return eRegex(pick(g.t, longRE))
	}
	switch weighted(g.t, 5, 2, 2, 1) {
	case 0:
		return eRegex(pick(g.t, rePool))
	case 1:
		return eStr(pick(g.t, rePool))
	case 2:
		return g.doc(wStr)
	}
	return g.expr(wStr, depth-1)
}

func (g *exprGen) bad() *ref.Expr {
	switch below(g.t, 7) {
	case 0:
		return eCall(pick(g.t, []string{"nosuch", "Length", "lengths", "match", "search", "count", "value", "a", "size"}), g.leaf(wAny))
	case 1:
		names := fnNames()
		f := pick(g.t, names)
		n := ref.Functions()[f]
		if n < 0 {
			f, n = "abs", 1
		}
		e := eCall(f)
		k := pick(g.t, []int{0, 1, 2, 3})
		if k == n {
			k++
		}
		for i := 0; i < k; i++ {
			e.Kids = append(e.Kids, g.leaf(wAny))
		}
		return e
	case 2:
		return eBin("=~", g.leaf(wNum), eRegex("a"))
	case 3:
		return eBin("=~", g.leaf(wStr), g.leaf(wNum))
	case 4:
		return eBin("=~", g.leaf(wStr), eStr(pick(g.t, []string{"[", "(", "*", "a**", "\\", "(?z)", "a{2,1}", "[b-a]"})))
	case 5:
		return eBin(pick(g.t, []string{"in", "nin"}), g.leaf(wAny), g.leaf(wNum))
	}
	return eBin(pick(g.t, []string{"in", "nin"}), g.leaf(wAny), g.leaf(wStr))
}

func fnNames() []string {
	var l []string
	for n := range ref.Functions() {
		l = append(l, n)
	}
	sort.Strings(l)
	return l
}

// expr draws an expression that tends to have type w.
func (g *exprGen) expr(w want, depth int) *ref.Expr {
	if g.errs > 0 && chance(g.t, g.errs, 64) {
		return g.bad()
	}
	if g.wild > 0 && chance(g.t, g.wild, 64) {
		w = want(below(g.t, 5))
	}
	if depth <= 0 {
		return g.leaf(w)
	}
	switch w {
	case wBool:
		return g.boolean(depth)
	case wNum:
		return g.number(depth)
	case wStr:
		return g.str(depth)
	case wArr:
		return g.array(depth)
	}
	switch weighted(g.t, 3, 2, 2, 2, 1, 2) {
	case 1:
		return g.boolean(depth)
	case 2:
		return g.number(depth)
	case 3:
		return g.str(depth)
	case 4:
		return g.array(depth)
	case 5:
		return eBin(pick(g.t, []string{"&&", "||"}), g.expr(wAny, depth-1), g.expr(wAny, depth-1))
	}
	return g.leaf(wAny)
}

func (g *exprGen) boolean(depth int) *ref.Expr {
	sub := func(w want) *ref.Expr { return g.expr(w, depth-1) }
	switch weighted(g.t, 6, 3, 2, 4, 3, 2, 2, 1, 1, 8) {
	case 9: // something of a candidate against the same thing in another
		if len(g.dots) == 0 {
			break
		}
		e := g.access(eCur(), pick(g.t, g.dots), pick(g.t, []want{wNum, wStr, wAny}))
		v, out := ref.EvalExpr(e, g.root, pick(g.t, g.dots))
		if out.Status != ref.OK {
			break
		}
		l := litOf(v)
		if l == nil || len(plainExpr(l)) > 80 {
			return e
		}
		op := pick(g.t, relops)
		if _, ok := v.([]any); ok || v == nil {
			op = pick(g.t, relops[:2])
		}
		if chance(g.t, 1, 4) {
			return eBin(op, l, e)
		}
		return eBin(op, e, l)
	case 0:
		return eBin(pick(g.t, relops), sub(wNum), sub(wNum))
	case 1:
		return eBin(pick(g.t, relops), sub(wStr), sub(wStr))
	case 2:
		return eBin(pick(g.t, relops[:2]), sub(wAny), sub(wAny))
	case 3:
		return eBin(pick(g.t, []string{"&&", "||"}), sub(wBool), sub(wBool))
	case 4:
		return eNot(sub(wBool))
	case 5:
		if !g.in {
			break
		}
		return eBin(pick(g.t, []string{"in", "nin"}), sub(wAny), sub(wArr))
	case 6:
		if !g.re {
			break
		}
		return eBin(pick(g.t, []string{"=~", "~"}), sub(wStr), g.pattern(depth))
	case 7:
		if !g.fns {
			break
		}
		if bit.Draw(g.t, "") {
			return eCall(pick(g.t, []string{"contains", "starts_with", "ends_with"}), sub(wStr), sub(wStr))
		}
		return eCall("contains", sub(wArr), sub(wAny))
	}
	return g.leaf(wBool)
}

func (g *exprGen) number(depth int) *ref.Expr {
	sub := func(w want) *ref.Expr { return g.expr(w, depth-1) }
	switch weighted(g.t, 4, 5, 2, 2, 2) {
	case 0:
	case 1:
		return eBin(pick(g.t, ariops), sub(wNum), sub(wNum))
	case 2:
		return eNeg(sub(wNum))
	case 3:
		if w := pick(g.t, []want{wStr, wArr, wAny}); bit.Draw(g.t, "") || !g.fns {
			return eDot(sub(w), "length")
		} else {
			return eCall("length", sub(w))
		}
	case 4:
		if !g.fns {
			break
		}
		switch below(g.t, 3) {
		case 0:
			return eCall(pick(g.t, []string{"abs", "ceil", "floor"}), sub(wNum))
		case 1:
			return eCall(pick(g.t, []string{"sum", "avg", "prod", "min", "max"}), sub(wArr))
		default:
			if bit.Draw(g.t, "") {
				return eCall("to_number", sub(wStr))
			}
			return eCall(pick(g.t, []string{"min", "max"}), sub(wNum), sub(wNum))
		}
	}
	return g.leaf(wNum)
}

func (g *exprGen) str(depth int) *ref.Expr {
	if g.fns && chance(g.t, 1, 4) {
		switch below(g.t, 2) {
		case 0:
			return eIndex(eCall("tokenize", g.expr(wStr, depth-1), eStr(pick(g.t, []string{",", " ", "b", "\\s+", "a", ""}))), g.intLit())
		default:
			return eCall(pick(g.t, []string{"min", "max"}), g.expr(wStr, depth-1), g.expr(wStr, depth-1))
		}
	}
	return g.leaf(wStr)
}

func (g *exprGen) array(depth int) *ref.Expr {
	switch weighted(g.t, 4, 3, 1) {
	case 1:
		e := eArr()
		n := below(g.t, 4)
		w := want(below(g.t, 5))
		for i := 0; i < n; i++ {
			e.Kids = append(e.Kids, g.expr(w, depth-1))
		}
		return e
	case 2:
		if !g.fns {
			break
		}
		if bit.Draw(g.t, "") {
			return eCall("tokenize", g.expr(wStr, depth-1), eStr(pick(g.t, []string{",", " ", "b", "\\s+", "a"})))
		}
		return eCall("keys", g.expr(wAny, depth-1))
	}
	return g.leaf(wArr)
}
