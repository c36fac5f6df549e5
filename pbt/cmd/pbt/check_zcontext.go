package main

import "strings"

// Contexts: an expression of one or two operators in every place that an
// expression can have, by every kind of primary; and prefix operators, several
// at once, before every kind of primary and as either operand.

var ctxPrimaries = []string{"@", "@.l", "@.o", "@['l']", "@[\"o\"]", "(@.l)", "(@)", "[5,6,7]", "[@.l,@.m]", "keys(@.o)", "first(@.ll)", "'text'", "@.ll[0]", "@.o.p", "$[0].l", "$[1]", "@.f.l", "max(@.n,@.m)", "@.none"}

var ctxPlaces = []string{"P[E]", "P[E].length", "P[E][F]", "P[F][E]", "P[P[E]]", "P[[E][0]]", "P[(E)]", "P['p'][E]", "P.p[E]", "P[E].p", "P[E]+F", "F+P[E]", "F-P[E]-F", "-P[E]", "!P[E]",
	"length(E)", "abs(E)", "max(P,E)", "max(E,P)", "max(E,F,E)", "contains([P,E],F)", "contains([1],E)", "first([E])", "first(E)", "first([F])[E]", "to_number(E)", "keys(P[E])", "length(P[E])", "sum([F,E])", "max(P[E],F)", "min(E,F)[E]",
	"[E]", "[P,E]", "[E,P]", "[E,F,E]", "[[E],F]", "[P[E]]", "[E][0]", "[E,F][1]", "[F,E][E]", "[P][E]", "[P][0][E]",
	"(E)", "((E))", "-(E)", "!(E)", "(E)[F]", "(E).length", "(E)-F", "F-(E)", "F*(E)", "(E)*F", "F==(E)", "F in [E]", "(E) in [F,E]", "F nin [P[E]]", "1&&(E)", "0||(E)", "(E)&&F", "(E)||F", "('a' =~ 'a')==(E)"}

func ctxDoc() string {
	e := func(k float64) map[string]any {
		return map[string]any{
			"n": k, "m": k + 1, "z": 0.0, "s": "0" + decimal(int(k)), "t": true, "h": k + 0.5, "none2": nil,
			"l":  []any{k, 11.0, "12", []any{13.0}, map[string]any{"p": 14.0}},
			"o":  map[string]any{"p": []any{1.0, 2.0, 3.0}, "0": "zero", "1": "one", "2": []any{"t", "w"}, "3": 33.0, "true": "yes", "0.5": "half"},
			"f":  map[string]any{"l": []any{[]any{1.0}, []any{2.0, 3.0}, []any{}}},
			"ll": []any{[]any{5.0, 4.0, 3.0}, []any{2.0}}, "p": "pp", "0": "member", "1": []any{"a", "b"},
		}
	}
	return docText([]any{e(1), e(2)})
}

var ctxOps = []string{"||", "&&", "==", "!=", "<", "<=", ">", ">=", " in ", " nin ", " =~ ", "+", "-", "*", "/", "%"}

// ctxOperands gives operands for an operator's right: some need one kind
func ctxOperand(op string, i int) string {
	switch op {
	case " in ", " nin ":
		return []string{"[1,2]", "[@.n]", "[true,0]", "@.l"}[i%4]
	case " =~ ":
		return []string{"'1'", "/e/", "'^0'"}[i%3]
	}
	return []string{"@.n", "1", "@.m", "2", "0", "@.z", "3", "@.t", "@.s", "@.h"}[i%10]
}

func ctxLeft(i int) string {
	return []string{"1", "@.n", "0", "@.m", "2", "@.z", "@.s", "'one'", "3", "@.none2"}[i%10]
}

// ctxExprs lists every operator, and every two.
func ctxExprs() []string {
	var l []string
	for i, a := range ctxOps {
		for j := 0; j < 3; j++ {
			l = append(l, ctxLeft(i+j*3)+a+ctxOperand(a, i+j))
		}
		l = append(l, "0"+a+ctxOperand(a, 4), "-"+ctxLeft(i)+a+ctxOperand(a, i), "!"+ctxLeft(i)+a+ctxOperand(a, i))
	}
	for i, a := range ctxOps {
		for j, b := range ctxOps {
			l = append(l, ctxLeft(i+j)+a+ctxOperand(a, i*3+j)+b+ctxOperand(b, i+j*7))
			l = append(l, "3"+a+ctxOperand(a, 3)+b+ctxOperand(b, 1))
		}
	}
	return l
}

func contexts(every int) func(tier string, emit func(ProbeCase)) {
	return func(tier string, emit func(ProbeCase)) {
		doc, n := ctxDoc(), 0
		exprs := ctxExprs()
		if tier == "thorough" {
			every = 1
		}
		for i, p := range ctxPlaces {
			prims := ctxPrimaries
			if !strings.Contains(p, "P") {
				prims = prims[:1]
			}
			for j, prim := range prims {
				for k, e := range exprs {
					n++
					// every place has every expression with some primary, and
					// every primary has every place with some expressions
					if (k+i*5)%len(prims) != j && (n*2654435761>>7)%every != 0 {
						continue
					}
					f := []string{"1", "0", "2", "@.n", "@.z"}[(i+j+k)%5]
					emit(ProbeCase{Text(strings.NewReplacer("P", prim, "E", e, "F", f).Replace(p)), doc})
				}
			}
		}
	}
}

// prefixSweep puts prefix operators before everything, on either side of everything.
func prefixSweep(every int) func(tier string, emit func(ProbeCase)) {
	return func(tier string, emit func(ProbeCase)) {
		if tier == "thorough" {
			every = 1
		}
		var pre []string
		last := []string{""}
		for n := 0; n < 5; n++ {
			var next []string
			for _, p := range last {
				next = append(next, p+"-", p+"!")
			}
			pre, last = append(pre, next...), next
		}
		pre = append(pre, "- -", "! !", "- ! -", "-(-", "!(!", strings.Repeat("-", 7), strings.Repeat("-", 8), strings.Repeat("!", 9), strings.Repeat("-!", 5))
		prims := []string{"@", "(@)", "@.n", "@[0]", "5", "0", "1.5", "0.0", "'5'", "'05'", "'x'", "''", "true", "false", "null", "[1]", "[]", "@.s", "@.none", "length(@)", "abs(@)", "(1-2)", "(@+0)", "$[0]"}
		values := []any{5.0, -5.0, 0.0, 0.5, "5", "05", " 5", "-5", "+5", "5.0", "", "x", "0", "-0", true, false, nil, []any{}, []any{5.0}, map[string]any{}, map[string]any{"n": 5.0, "s": "05"}, map[string]any{"n": "-07", "s": ""}, map[string]any{"n": true, "s": "true"}, 1e15, -1e15, "1e3", 2.0}
		doc := docText(values)
		close := func(p string) string {
			if strings.Contains(p, "(") {
				return ")"
			}
			return ""
		}
		n := 0
		for i, p := range pre {
			for j, v := range prims {
				t := p + v + close(p)
				emit(ProbeCase{Text(t), doc})
				for k, op := range ctxOps {
					n++
					if n%every != 0 {
						continue
					}
					if op != " in " && op != " nin " && op != " =~ " {
						emit(ProbeCase{Text(ctxLeft(i+j+k) + op + t), doc})
						emit(ProbeCase{Text(t + op + pre[(i*7+j+k)%len(pre)] + "3" + close(pre[(i*7+j+k)%len(pre)])), doc})
					}
					emit(ProbeCase{Text(t + op + ctxOperand(op, i+j+k)), doc})
				}
			}
		}
	}
}

func init() {
	add := func(id string, f ...*Family) { checks[id].Families = append(f, checks[id].Families...) }
	add("C03", sweep("contexts", contexts(9), execProbe), sweep("prefix operators", prefixSweep(2), execProbe))
	add("C10", sweep("contexts", contexts(60), execProbe), sweep("prefix operators", prefixSweep(6), execProbe))
	add("C14", sweep("contexts", contexts(120), execProbe))
	const q = 1 << 13
	// @ far into an expression, below many operands, for kept and other candidates
	far := func(name string, text func(n int) string) sizeKind {
		return sizeKind{name, 1 << 16, 1 << 16, q, func(n int) sized {
			return sized{path: "$[?(" + text(n) + ")]", doc: []any{1.0, 5.0, 2.0, 7.0, 3.0, 3.0, -1.0, 4.0, 2.0, 9.0}, want: []any{5.0, 7.0, 3.0, 3.0, 4.0, 9.0}}
		}}
	}
	l := []sizeKind{
		far("last of a literal", func(n int) string {
			return "[" + strings.Repeat("0,", n) + "@][" + decimal(n) + "]>2"
		}),
		far("innermost sum", func(n int) string { return strings.Repeat("0+(", n) + "@" + strings.Repeat(")", n) + ">2" }),
		far("last argument", func(n int) string { return "max(" + strings.Repeat("-9,", n) + "@)>2" }),
		far("last of a sum", func(n int) string { return strings.Repeat("0+", n) + "@>2" }),
		far("compared last", func(n int) string { return "2<" + strings.Repeat("1*(", n) + "@" + strings.Repeat(")", n) }),
		far("in a list", func(n int) string {
			return "@ in [" + strings.Repeat("0,", n) + "3,4,5,7,9]"
		}),
		far("twice in a literal", func(n int) string {
			return "[@" + strings.Repeat(",0", n) + ",@]==[@" + strings.Repeat(",0", n) + ",@]&&[" + strings.Repeat("1,", n) + "@>2][" + decimal(n) + "]"
		}),
		far("after operands", func(n int) string {
			return "sum([" + strings.Repeat("@,-@,", n) + "@])>2"
		}),
	}
	addScans("C08", l)
	addScans("C10", l)
}

// leakSizes has kinds of other properties, at sizes about powers, and failures among many.
func leakSizes(tier string, emit func(SizeCase)) {
	limit := 1 << 12
	if tier == "thorough" {
		limit = 1 << 16
	}
	for _, id := range []string{"C05", "C06", "C07", "C08", "C09", "C10", "C13", "C17"} {
		for i, k := range scans[id] {
			for b := 1; 1<<b <= min(limit, k.quick); b++ {
				for d := -1; d <= 1; d++ {
					if tier == "thorough" || id == "C17" || d == 1 || (i+b)%4 == d+1 {
						emit(SizeCase{k.name, 1<<b + d})
					}
				}
			}
			for _, n := range []int{5, 10, 20, 40, 100, 1000, 2000, 5000, 10000} {
				if n <= limit*2 && n <= k.quick && (id == "C17" || n >= 1000) {
					emit(SizeCase{k.name, n})
				}
			}
		}
	}
}

func init() {
	const q = 1 << 14
	// a failure at one candidate of n, reached in several ways
	for _, at := range []struct {
		name string
		at   func(n int) int
	}{{"first", func(int) int { return 0 }}, {"middle", func(n int) int { return n / 2 }}, {"last", func(n int) int { return n - 1 }}, {"no", func(int) int { return -1 }}} {
		mk := func(n int) []any {
			l, _ := items(n, func(i int) any { return map[string]any{"s": "abc", "l": []any{1.0}} })
			if i := at.at(n); i >= 0 {
				l[i] = map[string]any{"s": 5.0, "l": 5.0}
			}
			return l
		}
		object := func(l []any) map[string]any {
			_, m := items(len(l), func(i int) any { return l[i] })
			return m
		}
		kind := func(name, path string, doc func(l []any) any) {
			addScans("C17", []sizeKind{{name + ", " + at.name + " fails", q, q, q, func(n int) sized {
				s := sized{path: path, doc: doc(mk(n)), fails: at.at(n) >= 0}
				s.eval = func([]any) string { return "" }
				return s
			}}})
		}
		for _, op := range []string{"@.s=~/b/", "1 in @.l"} {
			kind("array "+op, "$[?("+op+")]", func(l []any) any { return l })
			kind("object "+op, "$.a[?("+op+")]", func(l []any) any { return map[string]any{"a": object(l)} })
			kind("containers "+op, "$..m[?("+op+")].s", func(l []any) any { return map[string]any{"a": []any{map[string]any{"m": l}, 1.0}} })
			kind("two in turn "+op, "$.*[?("+op+")]", func(l []any) any { return []any{mk(1)[:0], l, l} })
			kind("kept by one "+op, "$[?(@)].*[?("+op+")]", func(l []any) any { return []any{[]any{l, l}, 1.0} })
			kind("each its own "+op, "$[?(@)][?("+op+")]", func(l []any) any {
				w := make([]any, len(l))
				for i := range l {
					w[i] = l[i : i+1]
				}
				return w
			})
			kind("computed "+op, "$..[("+strings.ReplaceAll(op, "@", "@[0]")+")]", func(l []any) any {
				w := make([]any, len(l))
				for i := range l {
					w[i] = l[i : i+1]
				}
				return map[string]any{"a": []any{w}}
			})
		}
	}
}
