package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/forsyth/jsonpath"
	"verif/pbt/ref"

	"pgregory.net/rapid"
)

// C03 grouping, C10 operators, C11 equality, C12 functions, C13 matching, C14 errors.

// ProbeCase is an expression, evaluated for each element of the document (an array),
// and looked at through many uses of its value.
type ProbeCase struct {
	Expr Text   `json:"expr"`
	Doc  string `json:"doc"`
}

func safeLit(e *ref.Expr) string {
	s := plainExpr(e)
	if e.K == ref.KInt || e.K == ref.KReal {
		return s
	}
	return "(" + s + ")"
}

// probes lists filters showing the value of e.
func probes(text string, e *ref.Expr, root any, cands []any) []string {
	p := "(" + text + ")"
	l := []string{text, "!" + p, p + "==null", "[" + text + "]==[null]"}
	seen := map[string]bool{}
	for _, c := range cands {
		v, out := ref.EvalExpr(e, root, c)
		if out.Status != ref.OK && out.Status != ref.MaybeErr {
			continue
		}
		s := ref.Canon(v)
		if seen[s] || len(seen) >= 3 {
			continue
		}
		seen[s] = true
		switch x := v.(type) {
		case int64, float64, bool, string, []any:
			le := litOf(v)
			if le == nil {
				continue
			}
			lit := safeLit(le)
			if len(lit) > 2000 {
				continue
			}
			l = append(l, p+"=="+lit, lit+"!="+p)
			switch x := x.(type) {
			case int64:
				// 7/2 is 3 but 7./2 is 3.5
				l = append(l, p+"<"+lit, p+">="+lit, p+"/2==3", "("+p+"*2+1)/2=="+lit, "["+p+"]==["+lit+"]")
			case float64:
				l = append(l, p+"<"+lit, p+"<="+lit, "("+p+"*2+1)/2==("+lit+"*2+1)/2")
			case bool:
				l = append(l, p+"+1=="+fmt.Sprint(map[bool]int{false: 1, true: 2}[x]), p+".length==null", p+"==="[:0]+"["+p+"]==["+lit+"]")
			case string:
				l = append(l, p+"<"+lit, p+"<="+lit, p+".length=="+lit+".length", p+"+0==null", p+"=~'^'")
			case []any:
				l = append(l, p+".length=="+fmt.Sprint(len(x)), p+"+0==null")
			}
		case map[string]any:
			l = append(l, p+".length", p+"=="+p)
		case nil, ref.Nothing:
			l = append(l, p+"<1", p+"+1", "1 in [2,"+p+"]")
		}
	}
	return l
}

// compileProbe compiles a filter with both, reporting disagreement.
func execProbe(c ProbeCase) Result {
	text := string(c.Expr)
	root := parseDoc(c.Doc)
	cands, ok := root.([]any)
	if !ok {
		harness("probe document is not an array: %s", c.Doc)
	}
	e, err := ref.ParseExpr(text)
	if err != nil {
		_, _, res := compileBoth("$[?(" + text + ")]")
		if res.Fail == "" {
			res.Skip = "invalid expression"
		}
		return res
	}
	res := Result{Trivia: true}
	before := ref.Canon(root)
	skips := ""
	for i, f := range probes(text, e, root, cands) {
		path := "$[?(" + f + ")]"
		ip, rp, r := compileBoth(path)
		if r.Fail != "" {
			return r
		}
		if ip == nil {
			harness("probe does not compile: %s", path)
		}
		out := ref.Eval(rp, root)
		got, err := ip.Eval(root)
		r = judge(path, c.Doc, out, got, err)
		if r.Fail != "" {
			return r
		}
		if r.Skip != "" {
			if i == 0 {
				skips = r.Skip
			}
			continue
		}
		if i == 0 {
			res.Labels = append(res.Labels, r.Labels...)
		}
		// the probe has something to say of the value
		if i > 3 && out.Tree != nil && out.Tree.Len() > 0 {
			res.Trivia = false
		}
	}
	if after := ref.Canon(root); after != before {
		return failf("%s: the document was altered: %s to %s", text, before, after)
	}
	if skips != "" && res.Trivia {
		res.Skip = skips
	}
	for _, c := range cands {
		v, out := ref.EvalExpr(e, root, c)
		if out.Status == ref.OK {
			k := kindOf(v)
			if _, ok := v.(ref.Nothing); ok {
				k = "nothing"
			}
			if _, ok := v.(int64); ok {
				k = "integer"
			}
			res.Labels = append(res.Labels, "value "+k)
		} else if out.Status == ref.Error {
			res.Labels = append(res.Labels, "value error")
			res.Trivia = res.Trivia && len(cands) < 2
		}
	}
	return res
}

// candidates draws an array of candidates.
func candidates(t *rapid.T) []any {
	g := &docGen{t: t, cfg: docCfg{depth: 3, budget: 40}}
	if chance(t, 1, 2) {
		return g.table(3).([]any)
	}
	n := 1 + below(t, 5)
	a := []any{}
	for i := 0; i < n; i++ {
		a = append(a, g.value(3))
	}
	return a
}

func genProbe(depth int, tweak func(t *rapid.T, g *exprGen) *ref.Expr) func(t *rapid.T) ProbeCase {
	return func(t *rapid.T) ProbeCase {
		cands := candidates(t)
		g := newExprGen(t, cands, cands)
		var e *ref.Expr
		if tweak != nil {
			e = tweak(t, g)
		} else {
			e = g.expr(want(below(t, 5)), 1+below(t, depth))
		}
		return ProbeCase{Text(style(t).exprText(e)), docText(cands)}
	}
}

// pool of operand values, as JSON; "" is a missing member
var operandPool = []string{"", "null", "true", "false", "0", "1", "-1", "2", "3", "1.5", "-0.5", "1e300", "9007199254740993", "-0", `""`, `"0"`, `"1"`, `"1.5"`, `"a"`, `"b"`, `"ab"`, `"true"`, `"-1"`, `"é日"`, `"[1]"`, `"2"`, `"1e2"`,
	"[]", "[0]", "[1]", `["1"]`, `["a"]`, "[null]", "[true]", "[1,2]", `["a","b"]`, "[[1]]", "[[]]", `[1,"1"]`, "{}", `{"a":1}`, `{"length":3}`, `{"a":[1],"b":null}`, `{"b":1}`, `{"a":"1"}`, "100"}

// literal operands
var literalPool = []string{"null", "true", "false", "0", "1", "2", "7", "(-1)", "(-7)", "1.5", "2.0", "(-0.5)", "9223372036854775807", "(-9223372036854775807)", "4611686018427387904", "9007199254740993", "1.e300", "''", "'0'", "'1'", "'-1'", "'1.5'", "'a'", "'b'", "'ab'", "'true'", "[]", "[0]", "[1]", "['1']", "['a']", "[null]", "[1,2]", "[[1]]", "[1.0]", "0.0", "100", "3.0", "$", "@.none", "65536", "16777217"}

var allOps = []string{"||", "&&", "==", "!=", "<", "<=", ">", ">=", "=~", "~", "in", "nin", "+", "-", "*", "/", "%"}

func pairDoc(a, b string) string {
	var l []string
	if a != "" {
		l = append(l, `"a":`+a)
	}
	if b != "" {
		l = append(l, `"b":`+b)
	}
	return "[{" + strings.Join(l, ",") + "}]"
}

func opSweep(ops []string, skip func(string) bool) func(tier string, emit func(ProbeCase)) {
	return func(tier string, emit func(ProbeCase)) {
		n := 0
		for _, op := range ops {
			op := op
			for _, a := range operandPool {
				for _, b := range operandPool {
					emit(ProbeCase{Text("@.a " + op + " @.b"), pairDoc(a, b)})
				}
				for _, l := range literalPool {
					n++
					if tier == "thorough" || n%2 == 0 {
						emit(ProbeCase{Text("@.a " + op + " " + l), pairDoc(a, "")})
					}
					if tier == "thorough" || n%2 == 1 {
						emit(ProbeCase{Text(l + " " + op + " @.a"), pairDoc(a, "")})
					}
				}
			}
			for _, l := range literalPool {
				for _, m := range literalPool {
					n++
					if tier == "thorough" || n%2 == 0 {
						emit(ProbeCase{Text(l + " " + op + " " + m), "[1]"})
					}
				}
			}
		}
	}
}

func unarySweep(tier string, emit func(ProbeCase)) {
	forms := []string{"-%s", "!%s", "--%s", "!!%s", "-!%s", "!-%s", "%s.length", "%s.a", "%s[0]", "%s[-1]", "%s['a']", "%s['length']", "%s[1]", "%s[1.0]", "%s['0']", "%s[@.none]", "%s[-3]", "%s['b'].c", "%s.a.length", "%s[0].length", "-%s.a", "-%s[0]", "%s['1']", "%s[null]", "%s[[0]]", "%s[2]", "%s[9223372036854775807]", "%s[-9223372036854775807]", "%s[100]"}
	for _, f := range forms {
		for _, a := range operandPool {
			emit(ProbeCase{Text(fmt.Sprintf(f, "@.a")), pairDoc(a, "")})
			if a != "" {
				emit(ProbeCase{Text(fmt.Sprintf(f, "@")), "[" + a + "]"})
				emit(ProbeCase{Text(fmt.Sprintf(f, "$[0]")), "[" + a + ",2]"})
			}
		}
		for _, l := range literalPool {
			if (strings.HasPrefix(l, "9") || strings.HasPrefix(l, "1")) && strings.Contains(f, "s.") {
				l = "(" + l + ")"
			}
			emit(ProbeCase{Text(fmt.Sprintf(f, l)), "[1]"})
			emit(ProbeCase{Text(fmt.Sprintf(f, "("+l+")")), "[1]"})
		}
	}
}

// KeyCase: an expression without @ used as a subscript.
func genKey(t *rapid.T) PathCase {
	g := &docGen{t: t, cfg: docCfg{depth: 3, budget: 25}}
	keys := map[string]any{}
	for i := 0; i < 12; i++ {
		keys[fmt.Sprint(i)] = fmt.Sprintf("k%d", i)
		if i > 0 {
			keys[fmt.Sprint(-i)] = fmt.Sprintf("m%d", i)
		}
	}
	for _, s := range []string{"a", "b", "ab", "x", "abc", "z"} {
		keys[s] = "s" + s
	}
	l := []any{}
	for i := 0; i < 10; i++ {
		l = append(l, fmt.Sprintf("e%d", i))
	}
	doc := map[string]any{"k": keys, "l": l, "v": g.value(3), "n": g.num(), "s": g.str()}
	e := newExprGen(t, map[string]any{"v": doc["v"], "n": doc["n"], "s": doc["s"]}, nil)
	x := e.expr(pick(t, []want{wNum, wNum, wStr, wAny}), 1+below(t, 3))
	st := pick(t, []string{"$.k[(%s)]", "$.k.(%s)", "$.l[(%s)]", "$.l.(%s)", "$['k','l'][(%s)]", "$..[(%s)]", "$.*[(%s)]"})
	return PathCase{Text(fmt.Sprintf(st, style(t).exprText(x))), docText(doc)}
}

// C03

// TreeCase is one expression in several layouts, the first with no needless parentheses.
type TreeCase struct {
	Layouts []Text `json:"layouts"`
	Doc     string `json:"doc"`
}

func envs(t *rapid.T) []any {
	n := 4 + below(t, 5)
	a := []any{}
	arr := []any{[]any{}, []any{1.0, 2.0}, []any{0.0, "a"}, []any{true}, []any{3.0}, []any{"a", "b"}}
	for i := 0; i < n; i++ {
		m := map[string]any{}
		for _, k := range plainKeys {
			m[k] = float64(between(t, -3, 9))
			if chance(t, 1, 10) {
				m[k] = bit.Draw(t, "")
			}
		}
		m["s"] = pick(t, []any{"a", "b", "ab", "", "abc"})
		m["t"] = pick(t, []any{"a", "b", "ab", "", "abc"})
		m["l"] = pick(t, arr)
		m["p"] = bit.Draw(t, "")
		m["q"] = bit.Draw(t, "")
		m["o"] = map[string]any{"x": float64(below(t, 5)), "y": []any{1.0, 5.0, 2.0}}
		a = append(a, m)
	}
	return a
}

// tree draws an expression that evaluates without errors in most environments,
// with any operator over any other.
func tree(t *rapid.T, depth int, w want) *ref.Expr {
	if depth <= 0 || chance(t, 1, 8) {
		switch w {
		case wNum:
			switch below(t, 7) {
			case 0:
				return eInt(int64(below(t, 10)))
			case 1:
				return eDot(eDot(eCur(), "o"), "x")
			case 2:
				return eIndex(eDot(eDot(eCur(), "o"), "y"), eInt(int64(below(t, 3))))
			default:
				return eDot(eCur(), pick(t, plainKeys))
			}
		case wStr:
			if chance(t, 1, 4) {
				return eStr(pick(t, []string{"a", "b", "ab"}))
			}
			return eDot(eCur(), pick(t, []string{"s", "t"}))
		case wArr:
			return eDot(eCur(), "l")
		default:
			return eDot(eCur(), pick(t, []string{"p", "q"}))
		}
	}
	sub := func(w want) *ref.Expr { return tree(t, depth-1, w) }
	num := func() *ref.Expr { // booleans count as numbers
		return sub(pick(t, []want{wNum, wNum, wNum, wBool}))
	}
	any := func() *ref.Expr { return sub(pick(t, []want{wNum, wBool, wStr, wNum})) }
	switch w {
	case wNum:
		switch weighted(t, 6, 2, 1, 1, 1) {
		case 0:
			return eBin(pick(t, ariops), num(), num())
		case 1:
			return eNeg(num())
		case 2:
			return eDot(sub(pick(t, []want{wStr, wArr})), "length")
		case 3:
			return eCall("abs", sub(wNum))
		default:
			return eIndex(eArr(num(), num(), num()), eInt(int64(below(t, 3))))
		}
	case wBool:
		switch weighted(t, 3, 3, 3, 2, 2, 2) {
		case 0:
			return eBin(pick(t, relops), num(), num())
		case 1:
			return eBin(pick(t, []string{"&&", "||"}), any(), any())
		case 2:
			return eBin(pick(t, []string{"==", "!="}), any(), any())
		case 3:
			return eNot(any())
		case 4:
			return eBin(pick(t, []string{"in", "nin"}), any(), sub(wArr))
		default:
			return eBin(pick(t, []string{"=~", "~"}), sub(wStr), pick(t, []*ref.Expr{eRegex("a"), eRegex("^b"), eStr("b$"), eDot(eCur(), "t")}))
		}
	case wStr:
		if chance(t, 1, 3) {
			return eBin(pick(t, []string{"&&", "||"}), sub(wStr), sub(wStr))
		}
		return tree(t, 0, wStr)
	default:
		if chance(t, 1, 2) {
			return eArr(any(), any())
		}
		return tree(t, 0, wArr)
	}
}

func genTree(t *rapid.T) TreeCase {
	e := tree(t, 2+below(t, 4), pick(t, []want{wBool, wNum, wBool, wNum, wStr}))
	c := TreeCase{Doc: docText(envs(t))}
	c.Layouts = append(c.Layouts, Text(plainExpr(e)))
	c.Layouts = append(c.Layouts, Text((&renderer{full: true}).exprText(e)))
	for i := 0; i < 2; i++ {
		c.Layouts = append(c.Layouts, Text((&renderer{t: t, forms: true, space: 3 + below(t, 13), parens: below(t, 7), fancy: below(t, 9)}).exprText(e)))
	}
	return c
}

func execTree(c TreeCase) Result {
	root := parseDoc(c.Doc)
	cands := root.([]any)
	e, err := ref.ParseExpr(string(c.Layouts[0]))
	if err != nil {
		harness("tree %s: %v", c.Layouts[0], err)
	}
	// every layout must be the same tree by the reference, or the renderer is wrong
	canon := plainExpr(e)
	for _, l := range c.Layouts {
		x, err := ref.ParseExpr(string(l))
		if err != nil || plainExpr(x) != canon {
			harness("layout %q of %q: %v", l, canon, err)
		}
	}
	// uses of the value
	uses := []string{"%s", "!(%s)", "(%s)==null", "(%s)<2", "[%s]==[true]"}
	seen := map[string]bool{}
	for _, d := range cands {
		v, out := ref.EvalExpr(e, root, d)
		if out.Status == ref.OK || out.Status == ref.MaybeErr {
			if l := litOf(v); l != nil && !seen[ref.Canon(v)] && len(seen) < 4 {
				seen[ref.Canon(v)] = true
				uses = append(uses, "(%s)=="+strings.ReplaceAll(safeLit(l), "%", "%%"))
			}
		}
	}
	res := Result{Trivia: len(seen) < 2}
	for _, u := range uses {
		for _, one := range append([]any{root}, wrapEach(cands)...) {
			doc := one.([]any)
			var first []any
			var firstErr error
			for i, l := range c.Layouts {
				path := "$[?(" + fmt.Sprintf(u, string(l)) + ")]"
				p, err := jsonpath.Compile(path)
				if err != nil {
					return failf("%q was refused: %v", path, err)
				}
				got, err := p.Eval(doc)
				if i == 0 {
					first, firstErr = got, err
					rp, perr := ref.ParsePath(path)
					if perr != nil {
						harness("probe %q: %v", path, perr)
					}
					r := judge(path, ref.Canon(doc), ref.Eval(rp, doc), got, err)
					if r.Fail != "" {
						return r
					}
					continue
				}
				if (err != nil) != (firstErr != nil) || !sameResults(first, got, true) {
					return failf("%q and %q differ: %v (%v), %v (%v) on %s", c.Layouts[0], l, ref.Canon(first), firstErr, ref.Canon(got), err, ref.Canon(doc))
				}
			}
			if len(cands) > 6 && len(uses) > 6 && len(doc) > 1 {
				break // enough together
			}
		}
	}
	return res
}

func wrapEach(l []any) []any {
	var out []any
	for _, v := range l {
		out = append(out, []any{v})
	}
	return out
}

// chains of operators with no parentheses
func chainSweep(tier string, emit func(ProbeCase)) {
	vals := []string{"2", "true", `"a"`, "[2]", "0", "-3", `"2"`, "[]"}
	un := []string{"", "-", "!"}
	n := 0
	for _, op1 := range allOps {
		for _, op2 := range allOps {
			for i, a := range vals {
				for j, b := range vals {
					for k, c := range vals {
						n++
						if tier != "thorough" && (i*5+j*3+k+n/512)%7 != 0 {
							continue
						}
						u := un[(i+j+k+n/64)%3]
						if (n/7)%2 == 0 {
							u = ""
						}
						text := fmt.Sprintf("%s@.a %s @.b %s @.c", u, op1, op2)
						switch n % 5 {
						case 1:
							text = fmt.Sprintf("@.a %s %s@.b %s @.c", op1, u, op2)
						case 2:
							text = fmt.Sprintf("@.a %s @.b %s %s@.c", op1, op2, u)
						case 3:
							text = strings.NewReplacer("@.a", "@['a']", "@.c", "[@.c][0]").Replace(text)
						}
						emit(ProbeCase{Text(text), fmt.Sprintf(`[{"a":%s,"b":%s,"c":%s}]`, a, b, c)})
					}
				}
			}
			if tier == "thorough" || n%3 == 0 {
				for _, op3 := range allOps {
					for i := 0; i < 6; i++ {
						m := n*31 + i*17 + len(op3)
						emit(ProbeCase{Text(fmt.Sprintf("@.a %s @.b %s @.c %s @.d", op1, op2, op3)),
							fmt.Sprintf(`[{"a":%s,"b":%s,"c":%s,"d":%s}]`, vals[m%8], vals[m/3%8], vals[m/7%8], vals[m/11%8])})
					}
				}
			}
		}
	}
}

// C11

// PairCase is two values compared.
type PairCase struct {
	A   string `json:"a"`
	B   string `json:"b"`
	Lit int    `json:"lit"` // 0: both from the document; 1: A is a literal; 2: B; 3: both
}

func (g *docGen) mutate(v any, n int) any {
	t := g.t
	switch x := v.(type) {
	case []any:
		a := append([]any{}, x...)
		switch below(t, 5) {
		case 0:
			return append(a, g.scalar())
		case 1:
			if len(a) > 0 {
				return a[:len(a)-1]
			}
		case 2:
			if len(a) > 1 {
				i := below(t, len(a)-1)
				a[i], a[i+1] = a[i+1], a[i]
				return a
			}
		}
		if len(a) > 0 && n > 0 {
			i := below(t, len(a))
			a[i] = g.mutate(a[i], n-1)
		}
		return a
	case map[string]any:
		m := map[string]any{}
		for k, v := range x {
			m[k] = v
		}
		keys := sortedKeys(m)
		switch below(t, 5) {
		case 0:
			m[g.key()] = g.scalar()
			return m
		case 1:
			if len(keys) > 0 {
				delete(m, pick(t, keys))
				return m
			}
		case 2: // rename a key
			if len(keys) > 0 {
				k := pick(t, keys)
				v := m[k]
				delete(m, k)
				m[g.key()] = v
				return m
			}
		case 3: // a null for a missing member
			m[g.key()] = nil
			return m
		}
		if len(keys) > 0 && n > 0 {
			k := pick(t, keys)
			m[k] = g.mutate(m[k], n-1)
		}
		return m
	case float64:
		switch below(t, 5) {
		case 0:
			return docText(x)
		case 1:
			return x + 1
		case 2:
			return -x
		case 3:
			return []any{x}
		}
		return x == 1
	case string:
		switch below(t, 5) {
		case 0:
			return x + "a"
		case 1:
			return []any{x}
		case 2:
			return strings.ToUpper(x)
		case 3:
			if e := literal(x); e != nil {
				var f any
				if f = g.num(); chance(t, 1, 2) {
					return f
				}
			}
			return " " + x
		}
		return nil
	case bool:
		switch below(t, 4) {
		case 0:
			return !x
		case 1:
			return map[bool]float64{false: 0, true: 1}[x]
		case 2:
			return map[bool]string{false: "0", true: "1"}[x]
		}
		return []any{x}
	case nil:
		return pick(t, []any{false, 0.0, "", []any{}, map[string]any{}, "null", []any{nil}})
	}
	return v
}

func genPair(t *rapid.T) PairCase {
	g := &docGen{t: t, cfg: docCfg{depth: 3, budget: 12}}
	a := g.value(3)
	b := a
	switch weighted(t, 3, 6, 1) {
	case 1:
		for i := 0; i <= below(t, 2); i++ {
			b = g.mutate(b, 3)
		}
	case 2:
		b = g.value(3)
	}
	if bit.Draw(t, "") {
		a, b = b, a
	}
	return PairCase{docText(a), docText(b), below(t, 4)}
}

func pairSweep(tier string, emit func(PairCase)) {
	for _, a := range operandPool[1:] {
		for _, b := range operandPool[1:] {
			for l := 0; l < 4; l++ {
				if tier == "thorough" || (len(a)+len(b)+l)%2 == 0 {
					emit(PairCase{a, b, l})
				}
			}
		}
	}
}

var anchors = []int64{0, 1 << 7, 1 << 8, 1 << 15, 1 << 16, 1 << 20, 1 << 21, 1 << 22, 1 << 23, 1 << 24, 1 << 31, 1 << 32, 1 << 33, 1 << 40, 1 << 52, 1 << 53, 1 << 54, 1 << 57, 1 << 60, 1 << 61, 1 << 62, 1<<62 + 1<<61, math.MaxInt64 - 4, 1e15, 1e16, 1e18, 999999, 123456789012345678}

// near draws an integer close to n, written somehow.
func near(t *rapid.T, n int64) *ref.Expr {
	v := n + int64(below(t, 9)) - 4
	if n < 0 || v < 0 && n > 1<<40 {
		v = n
	}
	if chance(t, 1, 4) {
		v = -v
	}
	e := eInt(v)
	switch below(t, 8) {
	case 0:
		if k := int64(1 + below(t, 5)); v < math.MaxInt64-k {
			return eBin("-", eInt(v+k), eInt(k))
		}
	case 1:
		if k := int64(1 + below(t, 5)); v > -math.MaxInt64+k {
			return eBin("+", eInt(v-k), eInt(k))
		}
	case 2:
		return eNeg(eInt(-v))
	case 3:
		return eIndex(eArr(e, eNull()), eInt(0))
	}
	return e
}

// genNear compares integers close to each other, in all the ways values are compared.
func genNear(ops []string, forms int) func(t *rapid.T) ProbeCase {
	return func(t *rapid.T) ProbeCase {
		n := pick(t, anchors)
		if chance(t, 1, 4) {
			n = int64(below(t, 1<<30))<<below(t, 33) + int64(below(t, 1000))
		}
		a, b := near(t, n), near(t, n)
		if chance(t, 1, 8) {
			a = eCur()
		}
		var e *ref.Expr
		op := pick(t, ops)
		switch below(t, forms) {
		case 0, 1, 2:
			e = eBin(op, a, b)
		case 3:
			e = eBin(op, eArr(a, eInt(1)), eArr(b, eInt(1)))
		case 4:
			e = eBin(pick(t, []string{"in", "nin"}), a, eArr(near(t, n), b, eStr("x")))
		case 5:
			e = eCall("contains", eArr(near(t, n), b), a)
		case 6:
			e = eBin(op, eArr(eArr(a), eNull()), eArr(eArr(b), eNull()))
		case 7:
			e = eCall(pick(t, []string{"min", "max"}), a, b)
		case 8:
			e = eCall(pick(t, []string{"min", "max"}), eArr(a, b, near(t, n)))
		case 9:
			e = eCall(pick(t, []string{"abs", "floor", "ceil", "to_number"}), a)
		case 10:
			e = eBin("-", a, b)
		case 11:
			e = eCall("sum", eArr(a, eNeg(b)))
		}
		return ProbeCase{Text(style(t).exprText(e)), docText([]any{float64(n), 1.0})}
	}
}

func execPair(c PairCase) Result {
	a, b := parseDoc(c.A), parseDoc(c.B)
	ea, eb := "@.a", "@.b"
	if c.Lit&1 != 0 {
		l := literal(a)
		if l == nil {
			return Result{Skip: "no such literal"}
		}
		ea = safeLit(l)
	}
	if c.Lit&2 != 0 {
		l := literal(b)
		if l == nil {
			return Result{Skip: "no such literal"}
		}
		eb = safeLit(l)
	}
	cand := map[string]any{"a": a, "b": b, "c": []any{a}, "d": []any{9.5, a}, "e": map[string]any{"k": a, "l": 1.0}, "f": map[string]any{"l": 1.0, "k": b}}
	doc := []any{cand}
	holds := func(f string) (bool, error) {
		got, err := evalText("$[?("+f+")]", doc)
		return len(got) > 0, err
	}
	eq, err := holds(ea + "==" + eb)
	if err != nil {
		return failf("%s==%s: %v", ea, eb, err)
	}
	desc := fmt.Sprintf("a=%s b=%s (form %d)", c.A, c.B, c.Lit)
	// laws, whatever the definition
	for _, f := range []struct {
		text string
		want bool
	}{
		{eb + "==" + ea, eq}, {ea + "!=" + eb, !eq}, {eb + "!=" + ea, !eq}, {"!(" + ea + "==" + eb + ")", !eq},
		{ea + " in [" + eb + "]", eq}, {ea + " nin [" + eb + "]", !eq}, {"contains([" + eb + "]," + ea + ")", eq},
		{"@.a==@.a", true}, {"@.b!=@.b", false}, {ea + "==@.a", true}, {"@.b==" + eb, true},
		{"[1," + ea + "]==[1," + eb + "]", eq}, {"[" + ea + ",1]!=[" + eb + ",1]", !eq}, {"[" + ea + "]==[" + eb + ",null]", false},
		{"@.e==@.f", eq || c.Lit != 0}, {"[[" + eb + "],2]==[[" + ea + "],2]", eq},
	} {
		if f.text == "@.e==@.f" && c.Lit != 0 {
			continue
		}
		got, err := holds(f.text)
		if err != nil || got != f.want {
			return failf("%s: %s==%s is %v, but %s is %v (%v)", desc, ea, eb, eq, f.text, got, err)
		}
	}
	res := Result{Labels: []string{fmt.Sprintf("%v: %s %s", eq, kindOf(a), kindOf(b))}}
	// the definition
	path := "$[?(" + ea + "==" + eb + ")]"
	rp, perr := ref.ParsePath(path)
	if perr != nil {
		harness("%s: %v", path, perr)
	}
	out := ref.Eval(rp, doc)
	if out.Status == ref.Unspec {
		res.Trivia = true
		res.Labels = append(res.Labels, "laws only: "+out.Why)
		return res
	}
	want := out.Tree.Len() > 0
	if want != eq {
		return failf("%s: %s==%s is %v, not %v", desc, ea, eb, eq, want)
	}
	return res
}

// C12

func fnSweep(tier string, emit func(ProbeCase)) {
	args := append([]string{}, operandPool[1:]...)
	args = append(args, "[1,2,3]", "[3,1,2]", "[-1,-2]", `["b","a","c"]`, `["a","b"]`, `[1,"a"]`, `["a",1]`, "[1,null]", "[null]", "[true,1]", "[[1],2]", "[0.5,0.25]", "[10,9]", `["10","9"]`, `["",""]`, `["é","z"]`, `"a,b,c"`, `"-2.5e3"`, `"日本語"`, "2.5", "-2.5", "-7", `"12abc"`, `" 1"`, `"+5"`, `".5"`, `"5."`, `{"a":1,"b":2,"c":3}`, `["A","a","B"]`, `[1,1]`, `[5]`, `[2,4,6,8]`)
	for _, f := range fnNames() {
		emit(ProbeCase{Text(f + "()"), "[1]"})
		for _, a := range args {
			emit(ProbeCase{Text(f + "(@.a)"), pairDoc(a, "")})
			emit(ProbeCase{Text(f + "(@.a).length"), pairDoc(a, "")})
			if l := literal(parseDoc(a)); l != nil {
				emit(ProbeCase{Text(f + "(" + plainExpr(l) + ")"), "[1]"})
			}
		}
		emit(ProbeCase{Text(f + "(@.none)"), "[{}]"})
		emit(ProbeCase{Text(f + "(@.none,1)"), "[{}]"})
		emit(ProbeCase{Text(f + "(1,@.none)"), "[{}]"})
		n := ref.Functions()[f]
		if n == 2 || n < 0 {
			i := 0
			for _, a := range args {
				for _, b := range args {
					i++
					emit(ProbeCase{Text(f + "(@.a,@.b)"), pairDoc(a, b)})
					if n < 0 && i%7 == 0 {
						emit(ProbeCase{Text(f + "(@.a,@.b,@.a)"), pairDoc(a, b)})
						emit(ProbeCase{Text(f + "(@.b,1,@.a,2.5)"), pairDoc(a, b)})
					}
				}
			}
		} else {
			for i, a := range args {
				emit(ProbeCase{Text(f + "(@.a,@.b)"), pairDoc(a, args[(i*7)%len(args)])})
			}
		}
	}
}

func genFn(t *rapid.T) ProbeCase {
	g := &docGen{t: t, cfg: docCfg{depth: 2, budget: 20}}
	f := pick(t, fnNames())
	n := ref.Functions()[f]
	if n < 0 {
		n = 1 + below(t, 4)
		if chance(t, 1, 2) {
			n = 1
		}
	}
	if chance(t, 1, 40) {
		n += between(t, -1, 1)
	}
	numList := func() any {
		a := []any{}
		k := below(t, 7)
		for i := 0; i < k; i++ {
			a = append(a, g.num())
		}
		if chance(t, 1, 12) && k > 0 {
			a[below(t, k)] = g.scalar()
		}
		return a
	}
	strList := func() any {
		a := []any{}
		k := below(t, 6)
		for i := 0; i < k; i++ {
			a = append(a, g.str())
		}
		if chance(t, 1, 12) && k > 0 {
			a[below(t, k)] = g.scalar()
		}
		return a
	}
	cands := []any{}
	for i := 0; i < 3; i++ {
		m := map[string]any{}
		mode := below(t, 3)
		for j := 0; j < n; j++ {
			var v any
			switch f {
			case "abs", "ceil", "floor":
				v = g.num()
			case "to_number":
				v = pick(t, []any{g.num(), g.str(), docText(g.num()), pick(t, []any{"1", "-1.5", "1e3", "007", "1.", ".5", "x1", "1x", "", "0"})})
			case "avg", "sum", "prod":
				v = numList()
			case "min", "max":
				switch {
				case n == 1 && mode < 2:
					v = numList()
				case n == 1:
					v = strList()
				case mode < 2:
					v = g.num()
				default:
					v = g.str()
				}
			case "keys":
				v = g.value(2)
				if mode == 0 {
					v = map[string]any{g.key(): g.scalar()}
				}
			case "contains":
				switch {
				case mode == 0:
					v = g.str()
				case j == 0:
					v = strList()
				default:
					v = g.scalar()
					if l, ok := m[plainKeys[0]].([]any); ok && len(l) > 0 && chance(t, 1, 2) {
						v = pick(t, l)
					}
				}
			case "length":
				v = g.value(2)
			case "tokenize":
				v = g.str()
				if j == 1 {
					v = pick(t, []any{",", " ", "b", "\\s+", "", "[ab]", "a", ".", "x*", "(", "(b)|c"})
				}
			default:
				v = g.str()
				if s, ok := m[plainKeys[0]].(string); ok && j == 1 && s != "" && chance(t, 1, 2) {
					k := below(t, len(s)+1)
					if mode == 0 {
						v = s[:k]
					} else {
						v = s[k:]
					}
					v = strings.ToValidUTF8(v.(string), "")
				}
			}
			if chance(t, 1, 12) {
				v = g.value(2)
			}
			if j < len(plainKeys) && !chance(t, 1, 30) {
				m[plainKeys[j]] = v
			}
		}
		cands = append(cands, m)
	}
	e := eCall(f)
	lit := chance(t, 1, 4)
	for j := 0; j < n; j++ {
		var k *ref.Expr
		if j < len(plainKeys) {
			k = eDot(eCur(), plainKeys[j])
			if lit {
				if l := literal(cands[0].(map[string]any)[plainKeys[j]]); l != nil {
					k = l
				}
			}
		} else {
			k = eInt(int64(j))
		}
		e.Kids = append(e.Kids, k)
	}
	switch weighted(t, 8, 1, 1, 1) {
	case 1:
		e = eDot(e, "length")
	case 2:
		e = eIndex(e, eInt(int64(between(t, -1, 2))))
	case 3:
		e = eBin(pick(t, ariops), e, eCall(pick(t, []string{"length", "abs", "max", "sum"}), eDot(eCur(), "a")))
	}
	return ProbeCase{Text(style(t).exprText(e)), docText(cands)}
}

// C13

func randRegex(t *rapid.T, depth int) string {
	atom := func() string {
		return pick(t, []string{"a", "b", "c", ".", "[ab]", "[^a]", "\\d", "\\w", "x", "é", "\\.", "\\\\", "1", "[a-c0-9]", "\\s", "日", "/", "A", "-"})
	}
	if depth <= 0 {
		return atom()
	}
	switch weighted(t, 4, 4, 3, 2, 1, 1, 1) {
	case 1:
		return randRegex(t, depth-1) + randRegex(t, depth-1)
	case 2:
		return atom() + pick(t, []string{"*", "+", "?", "{2}", "{1,2}", "*?"})
	case 3:
		return "(" + randRegex(t, depth-1) + "|" + randRegex(t, depth-1) + ")"
	case 4:
		return "^" + randRegex(t, depth-1)
	case 5:
		return randRegex(t, depth-1) + "$"
	case 6:
		return "(?i)" + randRegex(t, depth-1)
	}
	return atom()
}

func subject(t *rapid.T) string {
	if chance(t, 1, 3) {
		return pick(t, strPool)
	}
	n := below(t, 6)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(pick(t, []string{"a", "b", "c", "ab", "1", "x", "A", "é", ".", "\\", "/", " ", "日", "B", "-", "\n"}))
	}
	return b.String()
}

// genMatch: every candidate has its own subject, pattern, value and list.
func genMatch(t *rapid.T) ProbeCase {
	g := &docGen{t: t, cfg: docCfg{depth: 2, budget: 20}}
	n := 1 + below(t, 6)
	cands := []any{}
	pats := []string{}
	for i := 0; i < 1+below(t, 3); i++ {
		pats = append(pats, randRegex(t, 2))
	}
	for i := 0; i < n; i++ {
		m := map[string]any{"s": subject(t), "r": pick(t, pats)}
		if chance(t, 1, 4) {
			m["r"] = pick(t, rePool)
		}
		v := g.scalar()
		if chance(t, 1, 6) {
			v = g.value(2)
		}
		l := []any{}
		for j := 0; j < below(t, 5); j++ {
			l = append(l, g.scalar())
		}
		if chance(t, 1, 3) {
			l = append(l, v)
		}
		if chance(t, 1, 5) {
			l = append(l, g.mutate(v, 1))
		}
		switch below(t, 12) {
		case 0:
			l = []any{l}
		case 1:
			l = append(l, []any{v, g.scalar()})
		case 2:
			l = append(l, map[string]any{"a": v})
		}
		m["v"], m["l"] = v, l
		if chance(t, 1, 20) {
			delete(m, pick(t, []string{"s", "r", "v", "l"}))
		}
		cands = append(cands, m)
	}
	at := func(k string) *ref.Expr { return eDot(eCur(), k) }
	var e *ref.Expr
	op := pick(t, []string{"=~", "~"})
	switch weighted(t, 3, 3, 2, 3, 1, 1, 1) {
	case 0:
		e = eBin(op, at("s"), eRegex(pick(t, pats)))
	case 1:
		e = eBin(op, at("s"), at("r"))
	case 2:
		e = eBin(op, at("s"), eStr(pick(t, pats)))
	case 3:
		e = eBin(pick(t, []string{"in", "nin"}), at("v"), at("l"))
	case 4:
		e = eBin(pick(t, []string{"in", "nin"}), at("v"), eArr(literalOr(cands[0], "v"), at("s"), eInt(1)))
	case 5:
		e = eBin(op, literalOr(cands[0], "s"), at("r"))
	case 6:
		e = eBin(op, at("s"), eBin(pick(t, []string{"||", "&&"}), at("r"), eStr(pick(t, pats))))
	}
	if chance(t, 1, 4) {
		e = eBin(pick(t, []string{"&&", "||", "=="}), e, eBin(op, at("s"), eRegex(pick(t, pats))))
	}
	if chance(t, 1, 6) {
		e = eNot(e)
	}
	return ProbeCase{Text(style(t).exprText(e)), docText(cands)}
}

func literalOr(cand any, key string) *ref.Expr {
	if m, ok := cand.(map[string]any); ok {
		if v, ok := m[key]; ok {
			if e := literal(v); e != nil {
				return e
			}
		}
	}
	return eStr("a")
}

func matchSweep(tier string, emit func(ProbeCase)) {
	var all []any
	for _, s := range strPool {
		all = append(all, map[string]any{"s": s})
	}
	doc := docText(all)
	pats := append([]string{}, rePool...)
	pats = append(pats, "/", "a/b", "\\/", "\\\\", "[/]", "a|", "(?:ab)+", "\\x61", "\\Aa", "c\\z", "\\Q.\\E", "\\pL+", "[[:alpha:]]", "a??", "\\\"", "'", "(?P<n>a)", "\\W", "b\\b")
	for _, r := range pats {
		for _, op := range []string{"=~", "~"} {
			emit(ProbeCase{Text("@.s " + op + " " + regexText(r)), doc})
			emit(ProbeCase{Text("@.s" + op + plainExpr(eStr(r))), doc})
			emit(ProbeCase{Text("!(@.s" + op + regexText(r) + ")"), doc})
		}
		// the pattern in the document
		var l []any
		for i, s := range strPool {
			l = append(l, map[string]any{"s": s, "r": r, "q": pats[i%len(pats)]})
		}
		emit(ProbeCase{"@.s=~@.r", docText(l)})
		emit(ProbeCase{"@.s=~@.q", docText(l)})
		emit(ProbeCase{Text("@.s=~@.q || @.s=~" + regexText(r)), docText(l)})
		emit(ProbeCase{Text("@.s=~" + regexText(r) + " && @.s=~" + regexText(pats[(len(r)*7)%len(pats)])), docText(l)})
	}
	for _, v := range operandPool {
		for _, l := range operandPool {
			for _, op := range []string{"in", "nin"} {
				emit(ProbeCase{Text("@.a " + op + " @.b"), pairDoc(v, l)})
				if l != "" {
					emit(ProbeCase{Text("@.a " + op + " [@.b,7]"), pairDoc(v, l)})
					for _, f := range []string{"[3,@.b]", "[@.b]", "[@.b,@.b]", "[[@.b]]", "[[@.b,@.a]]", "[@.b,[@.a]]", "[[3,@.a],@.b]", "[[@.a],[@.a,@.b]]"} {
						emit(ProbeCase{Text("@.a " + op + " " + f), pairDoc(v, l)})
					}
				}
			}
		}
	}
}

// C14

// genError puts failing operations anywhere in paths.
func genError(t *rapid.T) PathCase {
	doc := document(t, stdDoc)
	cfg := stdPath
	cfg.w = [8]int{4, 2, 2, 1, 1, 3, 8}
	cfg.errs = 6
	p := genPath(t, doc, cfg)
	return PathCase{Path: Text(style(t).path(p)), Doc: docText(doc)}
}

// genPlaced: an operation that fails for chosen candidates only.
func genPlaced(t *rapid.T) PathCase {
	g := &docGen{t: t, cfg: docCfg{depth: 2, budget: 15}}
	n := below(t, 7)
	if chance(t, 1, 12) {
		n = size(t, 8)
	}
	bad := map[int]bool{}
	for i := 0; i < below(t, 3); i++ {
		if n > 0 {
			bad[below(t, n)] = true
		}
	}
	kind := below(t, 7)
	l := []any{}
	for i := 0; i < n; i++ {
		m := map[string]any{"s": "abc", "r": "b", "l": []any{1.0, "a"}, "k": float64(i), "x": g.value(1)}
		if bad[i] {
			switch kind {
			case 0, 5, 6:
				m["s"] = pick(t, []any{1.0, true, nil, []any{}, map[string]any{}, []any{"abc"}})
			case 1:
				m["r"] = pick(t, []any{1.0, true, nil, []any{}, map[string]any{}})
			case 2:
				m["r"] = pick(t, []any{"[", "(", "*", "a{2,1}", "\\"})
			case 3, 4:
				m["l"] = pick(t, []any{1.0, true, nil, "abc", map[string]any{"a": 1.0}})
			}
		} else if chance(t, 1, 5) { // a missing operand is no error
			delete(m, pick(t, []string{"s", "r", "l"}))
		}
		l = append(l, m)
	}
	ops := []string{"@.s=~/b/", "@.s=~@.r", "@.s ~ @.r", "1 in @.l", "'z' nin @.l", "@.s =~ 'b'", "@.s=~/z/"}
	f := ops[kind]
	switch below(t, 9) {
	case 0:
		f = "!(" + f + ")"
	case 1:
		f = "@.k>" + fmt.Sprint(below(t, 4)) + "&&" + f
	case 2:
		f = f + "||@.k==1"
	case 3:
		f = "[" + f + "][0]"
	case 4:
		f = "length([" + f + ",1])>0"
	case 5:
		f = "(" + f + ")==true"
	case 6:
		f = f + "&&" + pick(t, ops)
	}
	var doc any = l
	path := "$[?(" + f + ")]"
	switch below(t, 8) {
	case 0:
		doc = map[string]any{"a": l, "b": []any{}, "c": 1.0}
		path = "$.a[?(" + f + ")]"
	case 1:
		doc = map[string]any{"a": []any{l}}
		path = "$..a[0][?(" + f + ")].k"
	case 2:
		path = "$..[?(" + f + ")]"
	case 3:
		path = "$[?(" + f + ")][?(@=~/a/)]"
	case 4: // errors beyond what is looked at
		path = fmt.Sprintf("$[:%d][?(@.k>=0)]", below(t, 4)) + "[?(true)]"
		path = strings.Replace(path, "[?(@.k>=0)]", "", 1)
		doc = []any{l, []any{}, l}
		path = "$[0][" + fmt.Sprintf("%d:%d", below(t, 3), below(t, 6)) + "].x"
		path = "$[0:2][?(" + f + ")]"
	case 5:
		doc = []any{l, 5.0, "s", []any{}}
		path = "$[" + fmt.Sprint(below(t, 5)) + "][?(" + f + ")]"
	case 6:
		doc = map[string]any{"a": l, "b": []any{}}
		path = "$[" + pick(t, []string{"'b','a'", "'a','b'", "'b'", "'zz'", "'b','b','zz'"}) + "][?(" + f + ")]"
	case 7:
		m := map[string]any{}
		for i, v := range l {
			m[fmt.Sprintf("m%d", i)] = v
		}
		doc = m
	}
	return PathCase{Text(path), docText(doc)}
}

func execError(c PathCase) Result {
	res, out := checkPath(c)
	if out.Status != ref.Error && out.Stats.Funcs == 0 && !strings.ContainsAny(string(c.Path), "~") && !strings.Contains(string(c.Path), "in") {
		res.Trivia = true
	}
	if out.Status == ref.OK {
		res.Labels = append(res.Labels, "no error due")
	}
	return res
}

func errorSweep(tier string, emit func(PathCase)) {
	bad := []string{"nosuch(1)", "nosuch()", "abs()", "abs(1,2)", "length()", "length(1,2)", "contains('a')", "contains('a','b','c')", "keys()", "tokenize('a')", "avg()", "sum(1,2)", "prod()", "to_number()", "ceil()", "floor(1,2)", "starts_with('a')", "ends_with('a','b','c')",
		"1 in 2", "1 nin 'abc'", "1 in {}"[:6], "1 in null", "1 in true", "1=~/a/", "null=~/a/", "true~/a/", "[1]=~/a/", "'a'=~1", "'a'=~null", "'a'=~true", "'a'=~[1]", "'a'=~'['", "'a'~'('", "'a'=~'a**'", "$=~/a/", "1 in $.none", "$.none in [1]", "$.none =~ /a/", "'a' =~ $.none", "$.none in $.none", "1 in 1.5"}
	ctx := []string{"$[?(%s)]", "$[(%s)]", "$..[?(%s)]", "$..[(%s)]", "$.*[?(%s)]", "$.none[?(%s)]", "$.none.x[(%s)]", "$[?(%s)].a", "$[?(1 && %s)]", "$[?(0 || %s)]", "$[?((%s)==null)]", "$[?(!(%s))]", "$[?([%s])]", "$[?(length(%s))]", "$[?(1+(%s))]", "$[?(-(%s))]", "$[?(@[%s])]", "$[?((%s).length)]", "$[?([[1],[%s]])]", "$[?(@.k==1)][?(%s)]", "$[0:0][?(%s)]", "$.*.*.*[?(%s)]", "$..zz[?(%s)]", "$[?(max(1,%s))]", "$[0][?(%s)]", "$[?((%s)+1)]", "$[?(1<(%s))]", "$[?((%s) in [1])]", "$.a[?(%s)]", "$.(%s)"}
	docs := []string{"[]", "{}", "5", `"s"`, "null", "[1]", `{"a":[],"b":5}`, `[{"k":1},2,"x"]`, `{"a":[[1]]}`, `[[],[]]`, `{"a":{"k":1}}`}
	for _, b := range bad {
		if b == "1 in {" {
			continue
		}
		for _, c := range ctx {
			for _, d := range docs {
				emit(PathCase{Text(fmt.Sprintf(c, b)), d})
			}
		}
	}
}

// nothing but null: ill-typed expressions that must not fail
func genNull(t *rapid.T) ProbeCase {
	cands := candidates(t)
	g := newExprGen(t, cands, cands)
	g.wild = 60
	g.re, g.in = false, false
	e := g.expr(wAny, 1+below(t, 4))
	return ProbeCase{Text(style(t).exprText(e)), docText(cands)}
}

func init() {
	register(&Check{
		ID:   "C03",
		Rule: "the expression takes at least two values over the environments; for chains, the value shows in a probe",
		Families: []*Family{
			sweep("operator chains", chainSweep, execProbe),
			scan("C03"),
			family("flat chains", 20000, 800000, genChain, execProbe),
			family("layouts", 8000, 400000, genTree, execTree),
		},
	})
	register(&Check{
		ID:   "C10",
		Rule: "the value shows in some probe of it, or raises an error among other candidates; for subscripts, something is selected",
		Families: []*Family{
			sweep("keys of every kind", keySweep, withSteps),
			sweep("every operand pair", opSweep([]string{"||", "&&", "<", "<=", ">", ">=", "+", "-", "*", "/", "%", "=="}, nil), execProbe),
			sweep("unary and selection", unarySweep, execProbe),
			sweep("texts of numbers", numberTextSweep("-@.s", "@.l[@.s]", "@.o[@.s]", "@.s<@.n", "@.s>='5'", "@.s*2", "$[0].l[@.s]"), execProbe),
			scan("C10"),
			family("flat chains", 10000, 400000, genChain, execProbe),
			family("expressions", 40000, 1500000, genProbe(3, nil), execProbe),
			family("integers", 10000, 400000, genProbe(3, func(t *rapid.T, g *exprGen) *ref.Expr {
				g.big = true
				return g.expr(wNum, 1+below(t, 4))
			}), execProbe),
			family("nearby integers", 10000, 300000, genNear([]string{"<", "<=", ">", ">=", "==", "-", "+", "/", "%"}, 3), execProbe),
			family("subscripts", 20000, 500000, genKey, execPathCase),
		},
	})
	register(&Check{
		ID:   "C11",
		Rule: "the reference defines the outcome (otherwise only the laws are checked)",
		Families: []*Family{
			sweep("numbers and their texts", numberPairs, execPair),
			sweep("every pair", pairSweep, execPair),
			sweep("texts of numbers", numberTextSweep("@.s==@.n", "@.s!=true", "@.s==[@.n]", "1.5==@.s", "@.s==50"), execProbe),
			scan("C11"),
			family("big structures", 15000, 500000, genLongPair, execPair),
			family("pairs", 50000, 2000000, genPair, execPair),
			sweep("operators", opSweep([]string{"==", "!="}, nil), execProbe),
			family("integers", 10000, 300000, genNear([]string{"==", "!="}, 7), execProbe),
		},
	})
	register(&Check{
		ID:   "C12",
		Rule: "the value shows in some probe of it, or raises an error among other candidates",
		Families: []*Family{
			sweep("every argument", fnSweep, execProbe),
			sweep("pairs of characters", charPairs, execProbe),
			sweep("texts of numbers", numberTextSweep("to_number(@.s)", "length(@.s)+floor(@.s)", "sum([@.n,@.s])", "contains(@.l,@.s)"), execProbe),
			scan("C12"),
			family("long arguments", 15000, 500000, genLongCall, execProbe),
			family("calls", 60000, 2000000, genFn, execProbe),
			family("nearby integers", 10000, 300000, genNear([]string{"=="}, 12), execProbe),
		},
	})
	register(&Check{
		ID:   "C13",
		Rule: "the value shows in some probe of it, or raises an error among other candidates",
		Families: []*Family{
			sweep("subjects and patterns", matchSweep, execProbe),
			scan("C13"),
			family("long operands", 12000, 400000, genLongMatch, execProbe),
			family("matches", 60000, 2000000, genMatch, execProbe),
		},
	})
	register(&Check{
		ID:   "C14",
		Rule: "the path has an operation that can fail",
		Families: []*Family{
			sweep("every failure everywhere", errorSweep, execError),
			scan("C14"),
			family("placed", 60000, 2000000, genPlaced, execError),
			family("errors in paths", 60000, 2000000, genError, execError),
			family("no error", 30000, 800000, genNull, execProbe),
		},
	})
}
