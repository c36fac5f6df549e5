package main

import (
	"fmt"
	"strings"

	"github.com/forsyth/jsonpath"
	"verif/pbt/ref"

	"pgregory.net/rapid"
)

// C19 continued: big paths and texts whose results the reference evaluator gives.

// a pseudo-random sequence, for parts of big cases
type sequence uint32

func (s *sequence) next(n int) int {
	*s = *s*1664525 + 1013904223
	return int(*s>>8) % n
}

// mixedSteps is a path of n steps of many kinds, and the document they lead through.
func mixedSteps(n int, filters bool) sized {
	kinds := []string{".a", "['b']", "[0]", ".0", "[-1]", "[1:2]", "[(0)]", "[*]", ".*", ".('c')", "[-1,7]", "['a','x']", "[::-1]", "[\"0\"]", ".length", "[1]", ".n5", "[3]"}
	if filters {
		kinds = append(kinds, "[?(@)]", "[?(@.a||@[0]||1)]", "[(0*0)]")
	}
	s := sequence(n)
	steps := make([]string, n)
	for i := range steps {
		steps[i] = kinds[s.next(len(kinds))]
	}
	var doc any = "leaf"
	for i := n - 1; i >= 0; i-- {
		switch steps[i] {
		case ".a", "['a','x']":
			doc = map[string]any{"a": doc, "b": 0.0}
		case "['b']":
			doc = map[string]any{"b": doc, "a": 0.0}
		case ".('c')":
			doc = map[string]any{"c": doc, "a": nil}
		case ".n5":
			doc = map[string]any{"n5": doc, "n": nil}
		case "[\"0\"]":
			doc = map[string]any{"0": doc, "1": false}
		case ".length":
			doc = map[string]any{"length": doc}
		case "[-1]", "[1:2]", "[-1,7]", "[1]":
			doc = []any{"no", doc}
		case "[0]", ".0":
			doc = []any{doc, "no"}
		case "[3]":
			doc = []any{"no", 1.0, nil, doc}
		default:
			doc = []any{doc}
		}
	}
	return sized{path: "$" + strings.Join(steps, ""), doc: doc, want: []any{"leaf"}}
}

// mixedSum is a chain of n additions and subtractions of small constants and
// members, some in parentheses.
func mixedSum(n int) sized {
	s := sequence(n * 3)
	var b strings.Builder
	b.WriteString("@.a")
	sum := int64(5)
	for i := 0; i < n; i++ {
		var text string
		var v int64
		switch s.next(6) {
		case 0:
			v = 5
			text = "@.a"
		case 1:
			v = int64(1<<22 - 2 + s.next(4))
			text = fmt.Sprint(v)
		case 2:
			k := int64(s.next(50))
			v = 3 - k
			text = fmt.Sprintf("(3-%d)", k)
		case 3:
			v = -7
			text = "-7"
		case 4:
			k := int64(s.next(9))
			v = k * 5
			text = fmt.Sprintf("%d*@.a", k)
		default:
			v = int64(s.next(1000))
			text = fmt.Sprint(v)
		}
		if s.next(2) == 0 {
			b.WriteString("+")
			sum += v
		} else {
			b.WriteString("-")
			sum -= v
		}
		b.WriteString(text)
	}
	doc := map[string]any{"a": 5.0, "sum": float64(sum)}
	return sized{path: "$[?(" + b.String() + "==@.sum)]", doc: []any{doc, map[string]any{"a": 5.0, "sum": float64(sum + 1)}}, want: []any{doc}}
}

func init() {
	sizeKinds = append(sizeKinds, []sizeKind{
		{"mixed steps", 1 << 17, 1 << 19, 1 << 16, func(n int) sized { return mixedSteps(n, false) }},
		{"mixed steps and filters", 1 << 16, 1 << 18, 1 << 15, func(n int) sized { return mixedSteps(n, true) }},
		{"mixed sum", 1 << 16, 1 << 19, 1 << 16, mixedSum},
		{"leading zeroes", 1 << 20, 1 << 22, 1 << 18, func(n int) sized {
			z := strings.Repeat("0", n)
			return sized{path: "$[" + z + "1,-" + z + "1][" + z + "2:" + z + "3][?(@==" + z + "10)]", doc: []any{0.0, []any{1.0, 2.0, []any{8.0, 10.0}}}, want: []any{10.0, 10.0}}
		}},
		{"digits of a real", 1 << 16, 1 << 18, 1 << 14, func(n int) sized {
			return sized{path: "$[?(@==0." + strings.Repeat("3", n+17) + "&&@==0." + strings.Repeat("3", n+17) + "e0&&@*1" + strings.Repeat("0", 22) + "." + strings.Repeat("0", n) + ">1)]", doc: []any{1.0 / 3, 0.3, 0.333}, want: []any{1.0 / 3}}
		}},
		{"a small sum many times", 1_000_100, 1 << 21, 1 << 15, func(n int) sized {
			return truth("length(["+join(n, ",", func(i int) string { return "1+@" })+"])=="+decimal(n), 1.0)
		}},
	}...)
	// a step from many values
	for _, c := range []struct {
		step string
		elem func(i int) any
	}{
		{".z", func(i int) any { return map[string]any{"z": float64(i)} }},
		{"..z", func(i int) any { return map[string]any{"z": float64(i)} }},
		{"[0]", func(i int) any { return []any{float64(i)} }},
		{"..[0]", func(i int) any { return []any{float64(i)} }},
		{"[*]", func(i int) any { return []any{float64(i)} }},
		{"..*", func(i int) any { return []any{float64(i)} }},
		{"[0:]", func(i int) any { return []any{float64(i)} }},
		{"['z',-1]", func(i int) any { return []any{float64(i)} }},
		{"[(0)]", func(i int) any { return []any{float64(i)} }},
		{"[?(@>=0)]", func(i int) any { return []any{float64(i)} }},
		{"..[?(@.z>=0)].z", func(i int) any { return map[string]any{"z": float64(i)} }},
	} {
		sizeKinds = append(sizeKinds, sizeKind{"many values, then " + c.step, 1 << 20, 1 << 21, 1<<20 + 1, func(n int) sized {
			l := make([]any, n)
			for i := range l {
				l[i] = c.elem(i)
			}
			return sized{path: "$[*]" + c.step, doc: l, want: iota_(n)}
		}})
	}
	for _, c := range [][2]string{
		{"==", "@.v==$[0].v"},
		{"!=", "!(@.v!=$[0].v)"},
		{"<", "@.v<$[1].v"},
		{">=", "!(@.v>=$[1].v)"},
		{"in", "@.v in [$[0].v,7]"},
		{"in an array", "[@.v] in [7,[$[0].v]]"},
		{"nin", "!(@.v nin [8,$[2].v])"},
		{"contains", "contains(@.v,$[2].v)"},
		{"contains all", "contains([0,@.v],$[2].v)"},
		{"starts_with", "starts_with(@.v,$[0].v)"},
		{"ends_with", "ends_with(@.v,$[0].v)"},
		{"equal objects", "@==$[2]"},
		{"equal arrays", "[@.v,0]==[$[2].v,0]"},
	} {
		name, cond := c[0], c[1]
		sizeKinds = append(sizeKinds, sizeKind{"all the same but in the middle, " + name, 1 << 18, 1 << 22, 1 << 18, func(n int) sized {
			n = max(n, 2)
			a, b := strings.Repeat("k", n/2), strings.Repeat("k", n-n/2)
			x, y := map[string]any{"v": a + "x" + b}, map[string]any{"v": a + "y" + b}
			want := []any{x, x}
			doc := []any{x, y, map[string]any{"v": a + "x" + b}}
			if name == "<" || name == ">=" {
				return sized{path: "$[?(" + cond + ")]", doc: append(doc, map[string]any{"v": a + "z" + b}), want: want}
			}
			return sized{path: "$[?(" + cond + ")]", doc: append(doc, map[string]any{"v": a + "xx" + b[1:]}), want: want}
		}})
	}
}

// InflateCase is a small path and document, each of whose strings is made long.
type InflateCase struct {
	Path  Text   `json:"path"`
	Doc   string `json:"doc"`
	Front int    `json:"front"`
	Back  int    `json:"back"`
	Fill  string `json:"fill"`
}

func genInflate(t *rapid.T) InflateCase {
	doc := document(t, docCfg{depth: 3, budget: 16})
	cfg := stdPath
	cfg.w = [8]int{5, 2, 3, 3, 2, 3, 8}
	size := func() int {
		if chance(t, 1, 3) {
			return 0
		}
		n := 1 << between(t, 3, 16)
		return n + between(t, -3, 3)
	}
	return InflateCase{Path: Text(style(t).path(genPath(t, doc, cfg))), Doc: docText(doc), Front: size(), Back: size(), Fill: pick(t, []string{"k", "1", "0", " ", "é", "日本", "😀", "ab", "a.", "'", "\\"})}
}

func inflateDoc(v any, f func(string) string) any {
	switch v := v.(type) {
	case string:
		return f(v)
	case []any:
		l := make([]any, len(v))
		for i, x := range v {
			l[i] = inflateDoc(x, f)
		}
		return l
	case map[string]any:
		m := make(map[string]any, len(v))
		for k, x := range v {
			m[f(k)] = inflateDoc(x, f)
		}
		return m
	}
	return v
}

func inflateExpr(e *ref.Expr, f func(string) string) *ref.Expr {
	c := *e
	c.Text = ""
	switch e.K {
	case ref.KStr:
		c.S = f(e.S)
	case ref.KDot:
		if s := f(e.S); identifier(s, false) {
			c.S = s
		} else {
			c.K, c.S = ref.KIndex, ""
			c.Kids = []*ref.Expr{e.Kids[0], eStr(e.S)}
			return inflateExpr(&c, f)
		}
	}
	c.Kids = nil
	for _, k := range e.Kids {
		c.Kids = append(c.Kids, inflateExpr(k, f))
	}
	return &c
}

func execInflate(c InflateCase) Result {
	rp, err := ref.ParsePath(string(c.Path))
	if err != nil {
		return Result{Skip: "invalid path"}
	}
	if strings.Contains(string(c.Path), "~") || strings.Contains(string(c.Path), "tokenize") {
		// strings may become patterns, and matching is slow
		c.Front, c.Back = min(c.Front, 300), min(c.Back, 300)
	}
	front, back := strings.Repeat(c.Fill, c.Front/len(c.Fill)), strings.Repeat(c.Fill, c.Back/len(c.Fill))
	f := func(s string) string { return front + s + back }
	q := &ref.Path{}
	for _, st := range rp.Steps {
		n := *st
		n.Sels = append([]ref.Sel{}, st.Sels...)
		for i := range n.Sels {
			if s := &n.Sels[i]; s.K == ref.SName {
				s.S, s.Text = f(s.S), ""
				if s.Bare && !identifier(s.S, true) {
					s.Bare, n.Bracket = false, true
				}
			}
		}
		if st.E != nil {
			n.E = inflateExpr(st.E, f)
		}
		q.Steps = append(q.Steps, &n)
	}
	text := plainPath(q)
	rp2, err := ref.ParsePath(text)
	if err != nil {
		harness("inflated %s: %v", c.Path, err)
	}
	doc := inflateDoc(parseDoc(c.Doc), f)
	out := ref.Eval(rp2, doc)
	desc := fmt.Sprintf("%s with %d bytes before and %d after each string (%q)", c.Path, len(front), len(back), c.Fill)
	p, err := jsonpath.Compile(text)
	if err != nil {
		return failf("%s: refused: %s", desc, clip(err.Error(), 300))
	}
	got, err := p.Eval(doc)
	res := judge(desc, c.Doc, out, got, err)
	if out.Tree == nil || out.Tree.Len() == 0 || len(front)+len(back) == 0 {
		res.Trivia = true
	}
	res.Labels = append(res.Labels, "strings "+magnitude(max(1, len(front)+len(back))))
	return res
}

// FragCase is a path with n parts, taken in some order from a few.
type FragCase struct {
	Kind  int    `json:"kind"`
	Frags []Text `json:"frags"`
	N     int    `json:"n"`
	Seed  uint32 `json:"seed"`
	Rest  Text   `json:"rest,omitempty"` // further steps
	Doc   string `json:"doc"`
}

const fragKinds = 6

func genFrags(t *rapid.T) FragCase {
	c := FragCase{Kind: below(t, fragKinds), Seed: uint32(below(t, 1<<20))}
	var doc any
	if bit.Draw(t, "") {
		doc = (&docGen{t: t, cfg: stdDoc}).table(3)
	} else {
		doc = document(t, stdDoc)
	}
	dots := candidatesOf(doc)
	r := &renderer{}
	n := 1 + below(t, 8)
	for i := 0; i < n; i++ {
		switch c.Kind {
		case 2, 3:
			g := &pathGen{t: t, doc: doc, cfg: stdPath, cur: []any{doc}}
			if c.Kind == 3 {
				g.cur = subvalues(doc, 20)
			}
			var s ref.Sel
			switch below(t, 3) {
			case 0:
				s = g.nameSel()
			case 1:
				s = g.intSel()
			default:
				s = g.sliceSel()
			}
			s.Text = ""
			text := plainPath(&ref.Path{Steps: []*ref.Step{{Bracket: true, Sels: []ref.Sel{s}}}})
			text = strings.TrimSpace(text[1:])
			c.Frags = append(c.Frags, Text(strings.TrimSuffix(strings.TrimPrefix(text, "["), "]")))
		case 4: // numbers
			e := pick(t, []*ref.Expr{eInt(int64(below(t, 100))), eInt(pick(t, []int64{1<<22 - 1, 1 << 22, 1<<23 + 1, 1 << 31, 1 << 40})), eBin("*", eInt(int64(below(t, 9))), eInt(int64(below(t, 9)))), eNeg(eInt(3)), eReal(0.25), eReal(2), eCall("length", eRoot()), eDot(eStr("abc"), "length"), eBool(true)})
			c.Frags = append(c.Frags, Text(r.exprText(e)))
		default:
			g := newExprGen(t, doc, dots)
			w := wBool
			if c.Kind > 0 {
				w = want(below(t, 5))
			}
			c.Frags = append(c.Frags, Text((&renderer{}).exprText(g.expr(w, below(t, 3)))))
		}
	}
	k := 1 << between(t, 0, 12)
	c.N = k + below(t, k)
	if chance(t, 1, 2) {
		cfg := stdPath
		cfg.steps = 2
		c.Rest = Text(plainPath(genPath(t, pick(t, subvalues(doc, 30)), cfg))[1:])
	}
	c.Doc = docText(doc)
	return c
}

func candidatesOf(doc any) []any {
	switch v := doc.(type) {
	case []any:
		return v
	case map[string]any:
		var l []any
		for _, k := range sortedKeys(v) {
			l = append(l, v[k])
		}
		return l
	}
	return nil
}

func (c FragCase) text() string {
	s := sequence(c.Seed)
	var b strings.Builder
	frag := func() string { return string(c.Frags[s.next(len(c.Frags))]) }
	list := func() {
		for i := 0; i < c.N; i++ {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(frag())
		}
	}
	b.WriteByte('$')
	switch c.Kind {
	case 0: // a condition
		b.WriteString("[?(")
		for i := 0; i < c.N; i++ {
			if i > 0 {
				b.WriteString([]string{"&&", "||", "==", "||!"}[s.next(4)])
			}
			b.WriteString("(" + frag() + ")")
		}
		b.WriteString(")]")
	case 1: // an element of an array
		b.WriteString("[?([")
		list()
		fmt.Fprintf(&b, "][%d])]", s.next(c.N+1)-1)
	case 2:
		b.WriteString("[")
		list()
		b.WriteString("]")
	case 3:
		b.WriteString("..[")
		list()
		b.WriteString("]")
	case 4: // a sum
		b.WriteString("[?((")
		for i := 0; i < c.N; i++ {
			if i > 0 {
				b.WriteString([]string{"+", "-", " - -", "+0*"}[s.next(4)])
			}
			b.WriteString(frag())
		}
		fmt.Fprintf(&b, ")%%%d<%d)]", 7, s.next(7))
	default: // nested
		b.WriteString("[?(")
		closing := make([]string, 0, c.N)
		for i := 0; i < c.N; i++ {
			switch s.next(5) {
			case 0:
				b.WriteString("!(")
				closing = append(closing, ")")
			case 1:
				b.WriteString("(" + frag() + ")||(")
				closing = append(closing, ")")
			case 2:
				b.WriteString("(" + frag() + ")&&(")
				closing = append(closing, ")")
			case 3:
				b.WriteString("[1,(")
				closing = append(closing, ")][1]")
			case 4:
				b.WriteString("(1==(")
				closing = append(closing, "))")
			}
		}
		b.WriteString(frag())
		for i := len(closing) - 1; i >= 0; i-- {
			b.WriteString(closing[i])
		}
		b.WriteString(")]")
	}
	b.WriteString(string(c.Rest))
	return b.String()
}

func execFrags(c FragCase) Result {
	if len(c.Frags) == 0 || c.N < 1 {
		return Result{Skip: "empty"}
	}
	text := c.text()
	rp, err := ref.ParsePath(text)
	if err != nil {
		return Result{Skip: "invalid path"}
	}
	doc := parseDoc(c.Doc)
	out := ref.Eval(rp, doc)
	desc := fmt.Sprintf("%s (%d parts, %d bytes)", clip(text, 1500), c.N, len(text))
	p, err := jsonpath.Compile(text)
	if err != nil {
		return failf("%s: refused: %s", desc, clip(err.Error(), 300))
	}
	got, err := p.Eval(doc)
	res := judge(desc, c.Doc, out, got, err)
	if c.N < 8 {
		res.Trivia = true
	}
	res.Labels = append(res.Labels, fmt.Sprintf("kind %d", c.Kind), "parts "+magnitude(c.N))
	return res
}
