package main

import (
	"fmt"
	"sort"
	"strings"

	"verif/pbt/ref"
)

// Operands of some size with others of every kind, for every operator and
// function (C03, C10, C12, C13, C14, C17), and functions with any number of
// arguments (C14).

// bigValues are of the given size; smallValues are of every kind.
func bigValues(n int) []any {
	l, m := items(n, func(i int) any { return float64(i) })
	texts, _ := items(n, func(i int) any { return "s" + decimal(i) })
	return []any{strings.Repeat("a", n), strings.Repeat("(", n), strings.Repeat("é", n), strings.Repeat("1", n), l, texts, m, deepArr(min(n, 400), "x"), deepObj(min(n, 400), 1.0)}
}

var smallValues = []any{nil, 5.0, -1.5, "", "a", "(", true, false, []any{}, []any{"a", "b"}, map[string]any{}, map[string]any{"k0": 1.0}}

var bigForms = []string{
	"@.a==@.b", "@.a!=@.b", "@.a<@.b", "@.a>=@.b", "@.a in @.b", "@.a nin @.b", "@.a=~@.b", "@.a~@.b", "@.a=~/^(a|1)*$/||@.b", "@.a+@.b", "@.a-@.b", "@.a*@.b", "@.a/@.b", "@.a%@.b", "@.a&&@.b", "@.a||@.b", "!@.a==!@.b", "@.a[@.b]", "@.a.b==@.b.length", "[@.a,@.b]", "[@.a]==[@.b]", "@.a in [@.b,@.a]",
	"contains(@.a,@.b)", "starts_with(@.a,@.b)", "ends_with(@.a,@.b)", "tokenize(@.a,@.b)", "length(@.a)", "max(@.a,@.b)", "min(@.a,@.b)", "sum(@.a)", "prod(@.a)", "avg(@.a)", "abs(@.a)", "ceil(@.a)", "floor(@.a)", "length(keys(@.a))", "to_number(@.a)", "nosuch(@.a,@.b)", "length(@.a,@.b)",
}

func bigPairs(tier string, emit func(i int, form, doc string)) {
	sizes := []int{20, 70, 130, 200, 300}
	if tier == "thorough" {
		sizes = []int{40, 70, 130, 260, 520, 1030, 5000}
	}
	i := 0
	for _, n := range sizes {
		big := bigValues(n)
		pair := func(a, b any) {
			doc := docText([]any{map[string]any{"a": a, "b": b}})
			for _, f := range bigForms {
				i++
				emit(i, f, doc)
			}
		}
		for _, x := range big {
			for _, y := range smallValues {
				pair(x, y)
				pair(y, x)
			}
			for _, y := range big {
				pair(x, y)
			}
		}
	}
}

func bigSweep(every int, uses func(form string) bool) func(tier string, emit func(ProbeCase)) {
	return func(tier string, emit func(ProbeCase)) {
		if tier == "thorough" {
			every = 1
		}
		n := 0
		bigPairs(tier, func(i int, form, doc string) {
			if uses(form) {
				if n++; n%every == 0 {
					emit(ProbeCase{Text(form), doc})
				}
			}
		})
	}
}

func init() {
	add := func(id string, f ...*Family) { checks[id].Families = append(f, checks[id].Families...) }
	having := func(l ...string) func(string) bool {
		return func(form string) bool {
			for _, s := range l {
				if strings.Contains(form, s) {
					return true
				}
			}
			return false
		}
	}
	calls := func(form string) bool { return form[0] != '@' && form[0] != '!' && form[0] != '[' }
	add("C10", sweep("sized operands", bigSweep(2, func(f string) bool { return !calls(f) }), execProbe))
	add("C12", sweep("sized operands", bigSweep(1, calls), execProbe))
	add("C13", sweep("sized operands", bigSweep(1, having(" in ", " nin ", "=~", "~")), execProbe))
	add("C14", sweep("sized operands", bigSweep(1, having("nosuch", "@.a,@.b)", " in ", "~")), execProbe))
	add("C17", sweep("sized operands", func(tier string, emit func(LeakCase)) {
		bigPairs(tier, func(i int, form, doc string) {
			if tier == "thorough" || i%2 == 0 {
				emit(LeakCase{Path: Text("$[?(" + form + ")]"), Doc: doc, Times: 2})
			}
			if i%7 == 0 {
				emit(LeakCase{Path: Text("$..[(" + form + ")]"), Doc: doc, Times: 2})
			}
		})
	}, execLeak))

	var kinds []sizeKind
	names := []string{"nosuch"}
	for f := range ref.Functions() {
		names = append(names, f)
	}
	sort.Strings(names)
	for _, f := range names {
		want, known := ref.Functions()[f]
		if known && want < 0 {
			continue
		}
		kinds = append(kinds, sizeKind{"arguments of " + f, 1 << 16, 1 << 17, 1 << 10, func(n int) sized {
			s := sized{path: fmt.Sprintf("$[?(%s(%s))]", f, join(n, ",", func(i int) string { return []string{"@", "'a'", "1", "@"}[i%4] })), doc: []any{"x"}, fails: true}
			if known && n == want {
				s.fails = false
				s.eval = func([]any) string { return "" }
			}
			return s
		}})
	}
	addScans("C14", kinds)
}
