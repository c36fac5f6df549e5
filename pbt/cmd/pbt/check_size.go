package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/forsyth/jsonpath"
	"verif/pbt/ref"

	"pgregory.net/rapid"
)

// C19: sizes. Each kind makes a path and a document of size n whose results
// are known by construction, not by evaluation.

// SizeCase is a size of a kind.
type SizeCase struct {
	Kind string `json:"kind"`
	N    int    `json:"n"`
}

type sized struct {
	path string
	doc  any
	want []any
	eval func(got []any) string // in place of want

	fails   bool // Eval fails
	mayFail bool
}

type sizeKind struct {
	name  string
	must  int // sizes that must be accepted
	max   int // largest size used
	quick int // largest size used by the quick tier
	make  func(n int) sized
}

func deepObj(n int, leaf any) any {
	for i := 0; i < n; i++ {
		leaf = map[string]any{"a": leaf}
	}
	return leaf
}

func deepArr(n int, leaf any) any {
	for i := 0; i < n; i++ {
		leaf = []any{leaf}
	}
	return leaf
}

func iota_(n int) []any {
	l := make([]any, n)
	for i := range l {
		l[i] = float64(i)
	}
	return l
}

// join writes f(0), f(1), ... f(n-1) with separators.
func join(n int, sep string, f func(i int) string) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(sep)
		}
		b.WriteString(f(i))
	}
	return b.String()
}

func decimal(i int) string { return strconv.Itoa(i) }

func same(s string) func(int) string { return func(int) string { return s } }

// truth is a path that selects the candidate if the expression is true.
func truth(expr string, doc any) sized {
	return sized{path: "$[?(" + expr + ")]", doc: []any{doc}, want: []any{doc}}
}

const maxLevels = 60000

var sizeKinds = []sizeKind{
	{"steps .a", 1 << 17, 1 << 20, 1 << 17, func(n int) sized {
		return sized{path: "$" + strings.Repeat(".a", n), doc: deepObj(n, "leaf"), want: []any{"leaf"}}
	}},
	{"steps ['a']", 1 << 17, 1 << 20, 1 << 16, func(n int) sized {
		return sized{path: "$" + strings.Repeat("['a']", n), doc: deepObj(n, 1.0), want: []any{1.0}}
	}},
	{"steps [0]", 1 << 17, 1 << 20, 1 << 16, func(n int) sized {
		return sized{path: "$" + strings.Repeat("[0]", n), doc: deepArr(n, 1.0), want: []any{1.0}}
	}},
	{"steps [*]", 1 << 17, 1 << 20, 1 << 16, func(n int) sized {
		return sized{path: "$" + strings.Repeat("[*]", n), doc: deepArr(n, 1.0), want: []any{1.0}}
	}},
	{"steps [-1:]", 1 << 17, 1 << 19, 1 << 16, func(n int) sized {
		return sized{path: "$" + strings.Repeat("[-1:]", n), doc: deepArr(n, 1.0), want: []any{1.0}}
	}},
	{"steps [(0)]", 1 << 17, 1 << 19, 1 << 16, func(n int) sized {
		return sized{path: "$" + strings.Repeat("[(0)]", n), doc: deepArr(n, 1.0), want: []any{1.0}}
	}},
	{"steps [?(@)]", 1 << 16, 1 << 18, 1 << 16, func(n int) sized {
		return sized{path: "$" + strings.Repeat("[?(@)]", n), doc: deepArr(n, 1.0), want: []any{1.0}}
	}},
	{"steps all missing but the first", 1 << 16, 1 << 20, 1 << 16, func(n int) sized {
		return sized{path: "$" + strings.Repeat(".a", n), doc: map[string]any{"a": 1.0}, want: map[bool][]any{true: {1.0}, false: {}}[n == 1]}
	}},
	{"union of indices", 1 << 17, 1 << 21, 1 << 17, func(n int) sized {
		return sized{path: "$[" + join(n, ",", decimal) + "]", doc: iota_(n), want: iota_(n)}
	}},
	{"union of negative indices", 1 << 17, 1 << 20, 1 << 16, func(n int) sized {
		return sized{path: "$[" + join(n, ",", func(i int) string { return decimal(i - n) }) + "]", doc: iota_(n), want: iota_(n)}
	}},
	{"union of names", 1 << 17, 1 << 20, 1 << 17, func(n int) sized {
		m := map[string]any{}
		for i := 0; i < n; i++ {
			m["k"+decimal(i)] = float64(i)
		}
		return sized{path: "$[" + join(n, ",", func(i int) string { return "'k" + decimal(i) + "'" }) + "]", doc: m, want: iota_(n)}
	}},
	{"union of slices", 1 << 16, 1 << 20, 1 << 16, func(n int) sized {
		return sized{path: "$[" + join(n, ",", func(i int) string { return decimal(i) + ":" + decimal(i+1) }) + "]", doc: iota_(n), want: iota_(n)}
	}},
	{"union after ..", 1 << 16, 1 << 20, 1 << 16, func(n int) sized {
		return sized{path: "$..[" + join(n, ",", decimal) + "]", doc: map[string]any{"x": iota_(n)}, want: iota_(n)}
	}},
	{"array literal, in", 1 << 17, 1 << 21, 1 << 17, func(n int) sized {
		a := "[" + join(n, ",", decimal) + "]"
		return sized{path: "$[?(@ in " + a + ")]", doc: []any{float64(n), float64(n - 1), 0.0, -1.0}, want: map[bool][]any{true: {0.0, 0.0}, false: {float64(n - 1), 0.0}}[n == 1]}
	}},
	{"array literal, ==", 1 << 17, 1 << 21, 1 << 17, func(n int) sized {
		return sized{path: "$[?(@==[" + join(n, ",", decimal) + "])]", doc: []any{append([]any{"no"}, iota_(n)...), iota_(n), append(iota_(n), 5.0)}, want: []any{iota_(n)}}
	}},
	{"array literal, last", 1 << 17, 1 << 21, 1 << 17, func(n int) sized {
		return sized{path: "$[([" + join(n, ",", func(i int) string { return "'k" + decimal(i%1000) + "'" }) + "][-1])]", doc: map[string]any{"k" + decimal((n-1)%1000): 1.0}, want: []any{1.0}}
	}},
	{"array literal, each", 1 << 16, 1 << 19, 1 << 15, func(n int) sized {
		return sized{path: "$[?([" + join(n, ",", func(i int) string { return decimal(i * 3) }) + "][@]==@*3)]", doc: []any{0.0, float64(n - 1), float64(n / 2)}, want: []any{0.0, float64(n - 1), float64(n / 2)}}
	}},
	{"sum of ones", 1 << 17, 1 << 20, 1 << 17, func(n int) sized {
		return truth(join(n, "+", same("1"))+"=="+decimal(n), 1.0)
	}},
	{"alternate signs", 1 << 16, 1 << 19, 1 << 15, func(n int) sized {
		return truth("0"+join(n, "", func(i int) string { return [2]string{"+2", "-1"}[i%2] })+"=="+decimal(2*((n+1)/2)-n/2), 1.0)
	}},
	{"disjunction", 1 << 17, 1 << 20, 1 << 16, func(n int) sized {
		return sized{path: "$[?(" + join(n, "||", func(i int) string { return "@==" + decimal(i) }) + ")]", doc: []any{float64(n), float64(n - 1), "x", 0.0}, want: map[bool][]any{true: {0.0, 0.0}, false: {float64(n - 1), 0.0}}[n == 1]}
	}},
	{"conjunction", 1 << 17, 1 << 20, 1 << 16, func(n int) sized {
		return sized{path: "$[?(" + join(n, "&&", func(i int) string { return "@!=" + decimal(i) }) + ")]", doc: []any{float64(n), float64(n - 1), "x", 0.0}, want: []any{float64(n), "x"}}
	}},
	{"right-nested sum", maxLevels, 1 << 18, maxLevels, func(n int) sized {
		return truth(strings.Repeat("1+(", n)+"1"+strings.Repeat(")", n)+"=="+decimal(n+1), 1.0)
	}},
	{"parentheses", maxLevels, 1 << 18, maxLevels, func(n int) sized {
		return truth(strings.Repeat("(", n)+"@==7"+strings.Repeat(")", n), 7.0)
	}},
	{"nested array literals", maxLevels, 1 << 18, maxLevels, func(n int) sized {
		return truth("@=="+strings.Repeat("[", n)+"7"+strings.Repeat("]", n), deepArr(n, 7.0))
	}},
	{"negations", maxLevels, 1 << 18, maxLevels, func(n int) sized {
		s := truth(strings.Repeat("!", n)+"@", true)
		if n%2 == 1 {
			s.want = []any{}
		}
		return s
	}},
	{"minus signs", maxLevels, 1 << 18, maxLevels, func(n int) sized {
		return truth(strings.Repeat("- ", n)+"@=="+map[int]string{0: "5", 1: "-5"}[n%2], 5.0)
	}},
	{"nested calls", maxLevels, 1 << 18, maxLevels, func(n int) sized {
		return truth(strings.Repeat("abs(", n)+"@"+strings.Repeat(")", n)+"==3", -3.0)
	}},
	{"indices in an expression", maxLevels, 1 << 19, maxLevels, func(n int) sized {
		return truth("@"+strings.Repeat("[0]", n)+"==7", deepArr(n, 7.0))
	}},
	{"members in an expression", maxLevels, 1 << 19, maxLevels, func(n int) sized {
		return truth("@"+strings.Repeat(".a", n)+"==7", deepObj(n, 7.0))
	}},
	{"nested indices", maxLevels, 1 << 18, maxLevels, func(n int) sized {
		return truth(strings.Repeat("$[0][", n)+"0"+strings.Repeat("]", n)+"==0", []any{0.0, 1.0})
	}},
	{"call arguments", 1 << 17, 1 << 20, 1 << 17, func(n int) sized {
		return truth("max(0,"+join(n, ",", func(i int) string { return decimal((i*7919)%n + 1) })+")==@", float64(func() int {
			m := 0
			for i := 0; i < n; i++ {
				m = max(m, (i*7919)%n+1)
			}
			return m
		}()))
	}},
	{"large integers", 1 << 17, 1 << 20, 1 << 16, func(n int) sized {
		f := func(i int) string { return decimal(1<<40 + i*3) }
		return sized{path: "$[?([" + join(n, ",", f) + "][@.i]==@.v)]", doc: []any{
			map[string]any{"i": float64(n - 1), "v": float64(1<<40 + (n-1)*3)},
			map[string]any{"i": float64(n - 1), "v": float64(1<<40 + (n-2)*3)},
			map[string]any{"i": 0.0, "v": float64(1 << 40)},
			map[string]any{"i": float64(n / 2), "v": float64(1<<40 + n/2*3)},
		}, eval: keepers("i", float64(n-1), 0.0, float64(n/2))}
	}},
	{"reals", 1 << 17, 1 << 20, 1 << 16, func(n int) sized {
		f := func(i int) string { return decimal(i) + ".5" }
		return sized{path: "$[?([" + join(n, ",", f) + "][@.i]==@.v)]", doc: []any{
			map[string]any{"i": float64(n - 1), "v": float64(n-1) + .5},
			map[string]any{"i": float64(n - 1), "v": float64(n) + .5},
			map[string]any{"i": 0.0, "v": .5},
			map[string]any{"i": float64(n / 2), "v": float64(n/2) + .5},
		}, eval: keepers("i", float64(n-1), 0.0, float64(n/2))}
	}},
	{"strings", 1 << 17, 1 << 20, 1 << 16, func(n int) sized {
		f := func(i int) string { return "'s" + decimal(i) + "'" }
		return sized{path: "$[?([" + join(n, ",", f) + "][@.i]==@.v)]", doc: []any{
			map[string]any{"i": float64(n - 1), "v": "s" + decimal(n-1)},
			map[string]any{"i": float64(n - 1), "v": "s" + decimal(n)},
			map[string]any{"i": 0.0, "v": "s0"},
			map[string]any{"i": float64(n / 2), "v": "s" + decimal(n/2)},
		}, eval: keepers("i", float64(n-1), 0.0, float64(n/2))}
	}},
	{"every string", 1 << 17, 1 << 20, 1 << 18, func(n int) sized {
		l := make([]any, n)
		for i := range l {
			l[i] = "s" + scatter(i)
		}
		return sized{path: "$[?(@.l==[" + join(n, ",", func(i int) string { return "'s" + scatter(i) + "'" }) + "])].n", doc: withEach(l), want: []any{0.0}}
	}},
	{"every real", 1 << 17, 1 << 20, 1 << 18, func(n int) sized {
		l := make([]any, n)
		for i := range l {
			l[i] = float64(i*7919%(1<<22)) + float64(1+i%255)/256
		}
		return sized{path: "$[?(@.l==[" + join(n, ",", func(i int) string { return strconv.FormatFloat(l[i].(float64), 'f', -1, 64) }) + "])].n", doc: withEach(l), want: []any{0.0}}
	}},
	{"every integer", 1 << 17, 1 << 20, 1 << 18, func(n int) sized {
		l := make([]any, n)
		for i := range l {
			l[i] = float64(int64(mix(uint64(i))>>13)) - float64(1<<50)
		}
		return sized{path: "$[?(@.l==[" + join(n, ",", func(i int) string { return strconv.FormatFloat(l[i].(float64), 'f', -1, 64) }) + "])].n", doc: withEach(l), want: []any{0.0}}
	}},
	{"every name", 1 << 17, 1 << 20, 1 << 18, func(n int) sized {
		m := map[string]any{}
		for i := 0; i < n; i++ {
			m["n"+scatter(i)] = float64(i)
		}
		return sized{path: "$[" + join(n, ",", func(i int) string { return "n" + scatter(i) }) + "]", doc: m, want: iota_(n)}
	}},
	{"every name in a filter", 1 << 17, 1 << 19, 1 << 17, func(n int) sized {
		m := map[string]any{}
		l := make([]any, n)
		for i := 0; i < n; i++ {
			m["f"+scatter(i)] = float64(i)
			l[i] = float64(i)
		}
		return sized{path: "$[?([" + join(n, ",", func(i int) string { return "$[0].m.f" + scatter(i) }) + "]==@.l)].n", doc: []any{map[string]any{"m": m, "l": l, "n": 1.0}, map[string]any{"l": []any{}}}, want: []any{1.0}}
	}},
	{"mixed constants", 1 << 16, 1 << 20, 1 << 15, func(n int) sized {
		f := func(i int) string {
			return [4]string{"'" + decimal(i) + "x'", decimal(i) + ".25", decimal(1<<23 + i), decimal(i)}[i%4]
		}
		v := func(i int) any {
			return [4]any{decimal(i) + "x", float64(i) + .25, float64(1<<23 + i), float64(i)}[i%4]
		}
		l := []any{}
		k := []any{}
		for _, i := range []int{n - 1, 0, n / 2, n / 3, n - 2, n - 3, n - 4} {
			if i >= 0 {
				l = append(l, map[string]any{"i": float64(i), "v": v(i)}, map[string]any{"i": float64(i), "v": "other"})
				k = append(k, float64(i))
			}
		}
		return sized{path: "$[?([" + join(n, ",", f) + "][@.i]==@.v)]", doc: l, eval: keepers("i", k...)}
	}},
	{"regular expressions", 3000, 10000, 3000, func(n int) sized {
		return sized{path: "$[?(" + join(n, "||", func(i int) string { return "@=~/^x" + decimal(i) + "$/" }) + ")]", doc: []any{"x" + decimal(n), "x" + decimal(n-1), "y", "x0"}, want: map[bool][]any{true: {"x0", "x0"}, false: {"x" + decimal(n-1), "x0"}}[n == 1]}
	}},
	{"filters in succession", 1 << 15, 1 << 17, 1 << 14, func(n int) sized {
		return sized{path: "$" + join(n, "", func(i int) string { return "[?(@[" + decimal(i%2) + "]==" + decimal(i) + "||@[2])][2:3]" }), doc: alternate(n), want: []any{"end"}}
	}},
	{"wide array", 1 << 20, 1 << 21, 1<<20 + 1, func(n int) sized {
		a := iota_(n)
		return sized{path: "$[*]", doc: a, want: a}
	}},
	{"wide array by index", 1 << 20, 1 << 22, 1 << 20, func(n int) sized {
		return sized{path: fmt.Sprintf("$[%d,-1,-%d,%d,-%d,0]", n-1, n, n, n+1), doc: iota_(n), want: []any{float64(n - 1), float64(n - 1), 0.0, 0.0}}
	}},
	{"wide array by slice", 1 << 20, 1 << 21, 1<<20 + 1, func(n int) sized {
		return sized{path: fmt.Sprintf("$[::%d,-1:0:-%d,%d::-%d]", max(n-1, 1), max(n-1, 1), n/2, n), doc: iota_(n), want: func() []any {
			w := []any{}
			for i := 0; i < n; i += max(n-1, 1) {
				w = append(w, float64(i))
			}
			for i := n - 1; i > 0; i -= max(n-1, 1) {
				w = append(w, float64(i))
			}
			return append(w, float64(n/2))
		}()}
	}},
	{"wide array reversed", 1 << 20, 1 << 21, 1<<20 + 1, func(n int) sized {
		w := make([]any, n)
		for i := range w {
			w[i] = float64(n - 1 - i)
		}
		return sized{path: "$[::-1]", doc: iota_(n), want: w}
	}},
	{"wide array by filter", 1 << 20, 1 << 21, 1<<20 + 1, func(n int) sized {
		return sized{path: fmt.Sprintf("$[?(@==%d||@==0)]", n-1), doc: iota_(n), want: map[bool][]any{true: {0.0}, false: {0.0, float64(n - 1)}}[n == 1]}
	}},
	{"wide object by name", 1 << 20, 1 << 20, 1<<19 + 1, func(n int) sized {
		m := map[string]any{}
		for i := 0; i < n; i++ {
			m[decimal(i)] = float64(i)
		}
		return sized{path: fmt.Sprintf("$['%d',0,%d,'%d']", n-1, n-1, n), doc: m, want: []any{float64(n - 1), 0.0, float64(n - 1)}}
	}},
	{"wide object, all", 1 << 20, 1 << 20, 1<<19 + 1, func(n int) sized {
		m := map[string]any{}
		for i := 0; i < n; i++ {
			m[decimal(i)] = float64(i)
		}
		return sized{path: "$.*", doc: m, eval: func(got []any) string { return permutation(got, n) }}
	}},
	{"wide object, filter", 1 << 17, 1 << 19, 1 << 16, func(n int) sized {
		m := map[string]any{}
		for i := 0; i < n; i++ {
			m[decimal(i)] = float64(i)
		}
		return sized{path: "$[?(@>=0)]", doc: m, eval: func(got []any) string { return permutation(got, n) }}
	}},
	{"wide object, keys", 1 << 17, 1 << 19, 1 << 16, func(n int) sized {
		m := map[string]any{}
		for i := 0; i < n; i++ {
			m[decimal(i)] = float64(i)
		}
		return truth(fmt.Sprintf("length(keys(@))==%d && @.length==%d && length(@)==%d", n, n, n), m)
	}},
	{"deep object ..", 1 << 17, 1 << 19, 1 << 16, func(n int) sized {
		return sized{path: "$..z", doc: deepObj(n, map[string]any{"z": 1.0}), want: []any{1.0}}
	}},
	{"deep array ..", 1 << 17, 1 << 19, 1 << 16, func(n int) sized {
		return sized{path: "$..[1]", doc: deepArr(n, []any{1.0, 2.0}), want: []any{2.0}}
	}},
	{"deep array ..*", 1 << 15, 1 << 18, 1 << 15, func(n int) sized {
		return sized{path: "$..*", doc: deepArr(n, 1.0), eval: func(got []any) string {
			if len(got) != n {
				return fmt.Sprintf("%d results, not %d", len(got), n)
			}
			for i, v := range got {
				d := 0
				for {
					a, ok := v.([]any)
					if !ok {
						break
					}
					v = a[0]
					d++
					if d > 3 && i > 3 && i < n-5 {
						break // enough
					}
				}
				if d != min(n-1-i, 4) && (i <= 3 || i >= n-5) && d != n-1-i {
					return fmt.Sprintf("result %d has %d levels", i, d)
				}
			}
			return ""
		}}
	}},
	{"deep ..[?]", 1 << 16, 1 << 18, 1 << 15, func(n int) sized {
		z := map[string]any{"z": 1.0}
		return sized{path: "$..[?(@.z==1)].z", doc: deepObj(n, z), want: []any{1.0}}
	}},
	{"wide ..", 1 << 20, 1 << 21, 1<<20 + 1, func(n int) sized {
		l := make([]any, n)
		for i := range l {
			l[i] = map[string]any{"z": float64(i)}
		}
		return sized{path: "$..z", doc: l, want: iota_(n)}
	}},
	{"deep equality", 1 << 17, 1 << 19, 1 << 16, func(n int) sized {
		one, two := map[string]any{"z": 1.0}, map[string]any{"z": 2.0}
		return sized{path: "$[?(@==$[1])]", doc: []any{deepArr(n, one), deepArr(n, two), deepObj(n, one), deepArr(n, two), deepArr(n+1, two), deepArr(n-1, two)}, eval: func(got []any) string {
			if len(got) != 2 {
				return fmt.Sprintf("%d results, not 2", len(got))
			}
			return ""
		}}
	}},
	{"wide equality", 1 << 20, 1 << 21, 1<<20 + 1, func(n int) sized {
		a, b := iota_(n+1), iota_(n+1)
		b[n] = "x"
		return sized{path: "$[?(@==$[0])]", doc: []any{a, b, a[:n], iota_(n + 1)}, want: []any{a, a}}
	}},
	{"long key", 1 << 22, 1 << 24, 1 << 20, func(n int) sized {
		k := strings.Repeat("k", n)
		return sized{path: "$['" + k + "'," + k + "x,\"" + k + "\"]", doc: map[string]any{k: 1.0, k + "x": 2.0, k[1:]: 3.0}, want: []any{1.0, 2.0, 1.0}}
	}},
	{"long bare name", 1 << 22, 1 << 24, 1 << 20, func(n int) sized {
		k := strings.Repeat("k", n)
		return sized{path: "$." + k + "x", doc: map[string]any{k: 1.0, k + "x": 2.0, k[1:]: 3.0}, want: []any{2.0}}
	}},
	{"long string", 1 << 22, 1 << 24, 1 << 20, func(n int) sized {
		k := strings.Repeat("é", n)
		return sized{path: "$[?(@=='" + k + "' && length(@)==" + decimal(n) + " && @.length==" + decimal(n) + ")]", doc: []any{k, k + "e", k[2:]}, want: []any{k}}
	}},
	{"long escaped string", 1 << 20, 1 << 22, 1 << 18, func(n int) sized {
		k := strings.Repeat("é😀", n)
		return sized{path: "$[?(@=='" + strings.Repeat(`\u00e9\uD83D\ude00`, n) + "')]", doc: []any{k, k + "e", k[2:]}, want: []any{k}}
	}},
	{"long subject", 1 << 22, 1 << 24, 1 << 19, func(n int) sized {
		k := strings.Repeat("k", n)
		return sized{path: "$[?(@=~/kz$/)]", doc: []any{k, k + "z", k + "zk"}, want: []any{k + "z"}}
	}},
	{"long pattern", 1 << 12, 1 << 16, 1 << 12, func(n int) sized {
		k := strings.Repeat("k", n)
		return sized{path: "$[?(@=~/^" + k + "$/)]", doc: []any{k, k + "z", k[1:]}, want: []any{k}}
	}},
	{"tokens", 1 << 18, 1 << 20, 1 << 16, func(n int) sized {
		return truth("length(tokenize(@,','))=="+decimal(n)+" && tokenize(@,',')["+decimal(n-1)+"]=='"+decimal(n-1)+"'", join(n, ",", decimal))
	}},
	{"aggregate of many", 1 << 20, 1 << 21, 1<<20 + 1, func(n int) sized {
		return truth(fmt.Sprintf("sum(@)==%d && max(@)==%d && min(@)==0 && avg(@)*2==%d && length(@)==%d", n*(n-1)/2, n-1, n-1, n), iota_(n))
	}},
	{"many results", 1 << 22, 1 << 22, 1<<21 + 1, func(n int) sized {
		a := make([]any, 1024)
		for i := range a {
			a[i] = float64(i)
		}
		var doc, want []any
		for left := n; left > 0; left -= len(a) {
			doc = append(doc, a[:min(left, len(a))])
			want = append(want, a[:min(left, len(a))]...)
		}
		return sized{path: "$[*][*]", doc: doc, want: want}
	}},
	{"many visits", 1 << 22, 1 << 22, 1<<21 + 1, func(n int) sized {
		a := make([]any, 1024)
		for i := range a {
			a[i] = map[string]any{"z": float64(i)}
		}
		var doc, want []any
		for left := n; left > 0; left -= len(a) {
			doc = append(doc, a[:min(left, len(a))])
			for i := 0; i < min(left, len(a)); i++ {
				want = append(want, float64(i))
			}
		}
		return sized{path: "$..z", doc: doc, want: want}
	}},
	{"many candidates", 1 << 22, 1 << 22, 1<<21 + 1, func(n int) sized {
		a := iota_(1024)
		var doc []any
		for left := n; left > 0; left -= len(a) {
			doc = append(doc, a[:min(left, len(a))])
		}
		return sized{path: "$[*][?(@%512==3||@==" + decimal((n-1)%1024) + ")]", doc: doc, eval: func(got []any) string {
			w := []any{}
			for i := 0; i < n; i++ {
				if i%512 == 3 || i%1024 == (n-1)%1024 {
					w = append(w, float64(i%1024))
				}
			}
			if !equalLists(got, w) {
				return fmt.Sprintf("%d results, not %d", len(got), len(w))
			}
			return ""
		}}
	}},
	{"member of a wide array", 1 << 20, 1 << 21, 1<<20 + 1, func(n int) sized {
		return truth(fmt.Sprintf("%d in @ && %d nin @ && @[%d]==%d && @[-1]==%d", n-1, n, n-1, n-1, n-1), iota_(n))
	}},
	{"white space", 1 << 20, 1 << 23, 1 << 18, func(n int) sized {
		w := strings.Repeat(" \t\n\r", n/4+1)
		return sized{path: "$" + w + "[" + w + "?(" + w + "@" + w + "==" + w + "1" + w + ")" + w + "]", doc: []any{1.0, 2.0}, want: []any{1.0}}
	}},
	// the size of the program
	{"filter after a union", 1 << 20, 1<<22 + 20, 1<<22 + 20, func(n int) sized {
		// one order for each element
		return sized{path: "$[0" + strings.Repeat(",1", n) + "][?(@.a==1)].b", doc: []any{[]any{map[string]any{"a": 2.0, "b": 3.0}, map[string]any{"a": 1.0, "b": 4.0}, map[string]any{"a": 1.0, "b": 5.0}}}, want: []any{4.0, 5.0}}
	}},
	{"filter around a big expression", 1 << 20, 1<<22 + 20, 1<<22 + 20, func(n int) sized {
		return sized{path: "$[?(@.a==[0" + strings.Repeat(",1", n) + "][0])].b", doc: []any{map[string]any{"a": 0.0, "b": 3.0}, map[string]any{"a": 1.0, "b": 4.0}, map[string]any{"a": 0.0, "b": 5.0}}, want: []any{3.0, 5.0}}
	}},
	{".. around a big union", 1 << 20, 1<<22 + 20, 1 << 20, func(n int) sized {
		return sized{path: "$..['b'" + strings.Repeat(",1", n) + "].c", doc: []any{map[string]any{"b": map[string]any{"c": 3.0}}}, want: []any{3.0}}
	}},
	{"small steps and a filter", 1 << 18, 1<<22 + 20, 1 << 18, func(n int) sized {
		return sized{path: "$[0]" + strings.Repeat("[(0)]", n) + "[?(@.a==1)].b", doc: []any{deepArr(n, []any{map[string]any{"a": 2.0, "b": 3.0}, map[string]any{"a": 1.0, "b": 4.0}})}, want: []any{4.0}}
	}},
}

// keepers expects results to be objects with the given values of a member.
func keepers(k string, want ...any) func(got []any) string {
	return func(got []any) string {
		var l []any
		for _, v := range got {
			m, ok := v.(map[string]any)
			if !ok || m["v"] == "other" {
				return "wrong result " + ref.Canon(v)
			}
			l = append(l, m[k])
		}
		if ref.Canon(l) != ref.Canon(want) {
			return fmt.Sprintf("the candidates %s, not %s", ref.Canon(l), ref.Canon(want))
		}
		return ""
	}
}

func permutation(got []any, n int) string {
	if len(got) != n {
		return fmt.Sprintf("%d results, not %d", len(got), n)
	}
	seen := make([]bool, n)
	for _, v := range got {
		f, ok := v.(float64)
		if !ok || f < 0 || int(f) >= n || seen[int(f)] {
			return "wrong or repeated result " + ref.Canon(v)
		}
		seen[int(f)] = true
	}
	return ""
}

// alternate is the document for filters in succession: each level is an array
// of one candidate, whose third element is the next level.
func alternate(n int) any {
	var v any = "end"
	for i := n - 1; i >= 0; i-- {
		c := []any{"x", "y", v}
		c[i%2] = float64(i)
		v = []any{c}
	}
	return v
}

// mix scatters numbers.
func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	return x ^ x>>31
}

// scatter has distinct texts with nothing in common.
func scatter(i int) string {
	return strconv.FormatUint(mix(uint64(i)), 36) + strconv.Itoa(i%10)
}

// withEach has the list, and some in which one element is another.
func withEach(l []any) any {
	docs := []any{map[string]any{"l": l, "n": 0.0}}
	for i, at := range []int{0, len(l) - 1, len(l) / 2} {
		c := append([]any{}, l...)
		c[at] = "another"
		docs = append(docs, map[string]any{"l": c, "n": float64(i + 1)})
	}
	return docs
}

func sizeKindOf(name string) *sizeKind {
	for i := range sizeKinds {
		if sizeKinds[i].name == name {
			return &sizeKinds[i]
		}
	}
	for _, l := range scans {
		for i := range l {
			if l[i].name == name {
				return &l[i]
			}
		}
	}
	return nil
}

func execSize(c SizeCase) Result {
	k := sizeKindOf(c.Kind)
	if k == nil {
		harness("no kind %q", c.Kind)
	}
	s := k.make(c.N)
	labels := []string{"kind " + c.Kind, "size " + magnitude(c.N)}
	p, err := jsonpath.Compile(s.path)
	if err != nil {
		if p != nil {
			return failf("%s of size %d: Compile returns both a path and an error", c.Kind, c.N)
		}
		if c.N <= k.must {
			return failf("%s of size %d: refused: %s (%s)", c.Kind, c.N, clip(err.Error(), 300), clip(s.path, 200))
		}
		return Result{Labels: append(labels, "refused")}
	}
	if p.String() != s.path {
		return failf("%s of size %d: reports another source text", c.Kind, c.N)
	}
	got, err := p.Eval(s.doc)
	if s.fails && err == nil {
		return failf("%s of size %d: should fail, but has %d results (%s)", c.Kind, c.N, len(got), clip(s.path, 200))
	}
	if err != nil && got != nil {
		return failf("%s of size %d: both results and an error (%s)", c.Kind, c.N, clip(s.path, 200))
	}
	if err != nil && (s.fails || s.mayFail) {
		return Result{Trivia: c.N < 8, Labels: append(labels, "fails")}
	}
	if err != nil {
		return failf("%s of size %d: fails: %s (%s)", c.Kind, c.N, clip(err.Error(), 300), clip(s.path, 200))
	}
	if s.eval != nil {
		if msg := s.eval(got); msg != "" {
			return failf("%s of size %d: %s (%s)", c.Kind, c.N, clip(msg, 500), clip(s.path, 200))
		}
	} else if !equalLists(got, s.want) {
		return failf("%s of size %d: %d results %s, not %d, %s (%s)", c.Kind, c.N, len(got), clip(ref.Canon(got), 300), len(s.want), clip(ref.Canon(s.want), 300), clip(s.path, 200))
	}
	return Result{Trivia: c.N < 8, Labels: labels}
}

func equalLists(a, b []any) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		x, xok := a[i].(float64)
		y, yok := b[i].(float64)
		if xok && yok {
			if x != y {
				return false
			}
			continue
		}
		if ref.Canon(a[i]) != ref.Canon(b[i]) {
			return false
		}
	}
	return true
}

func magnitude(n int) string {
	m := 1
	for m*10 <= n {
		m *= 10
	}
	return fmt.Sprintf("%d-", m)
}

func sizeSweep(tier string, emit func(SizeCase)) {
	for _, k := range sizeKinds {
		limit := k.quick
		if tier == "thorough" {
			limit = k.max
		}
		seen := map[int]bool{}
		add := func(n int) {
			if n >= 1 && n <= limit && !seen[n] {
				seen[n] = true
				emit(SizeCase{k.name, n})
			}
		}
		for n := 1; n < 12; n++ {
			add(n)
		}
		for b := 4; b < 23; b++ {
			ds := []int{-2, -1, 0, 1, 2}
			if b > 15 && tier != "thorough" {
				ds = []int{0}
				if b == 16 || b == 22 {
					ds = []int{-1, 1}
				}
			}
			if b > 20 && tier == "quick" && b != 22 {
				continue
			}
			for _, d := range ds {
				add(1<<b + d)
			}
		}
		if strings.HasPrefix(k.name, "filter a") && limit > 1<<22 {
			// about the limit of the encoding
			ds := []int{-14, -9, -8, -6, -4}
			if tier == "thorough" {
				ds = nil
				for d := -20; d < 20; d++ {
					ds = append(ds, d)
				}
			}
			for _, d := range ds {
				add(1<<22 + d)
			}
		}
		for _, n := range []int{100, 1000, 10000, 100000, 255 * 3, 40000, maxLevels} {
			add(n)
		}
		add(limit)
		// about and beyond the levels and the operations of an expression that any
		// limit might allow
		for _, n := range more[k.name] {
			if !seen[n] && (tier == "thorough" || n < 1<<21) {
				seen[n] = true
				emit(SizeCase{k.name, n})
			}
		}
	}
}

var more = map[string][]int{
	"sum of ones":            {999_999, 1_000_000, 1_000_001, 1_000_050, 4_200_000},
	"a small sum many times": {1_000_100, 2_000_100},
}

func genSize(t *rapid.T) SizeCase {
	k := sizeKinds[below(t, len(sizeKinds))]
	n := 1
	for i := below(t, 15); i > 0; i-- {
		n *= 2
	}
	n += below(t, n)
	return SizeCase{k.name, min(n, k.quick)}
}

// PadCase is a small path evaluated in a big context that changes nothing.
type PadCase struct {
	Path Text   `json:"path"` // without $ in its expressions
	Doc  string `json:"doc"`
	Pads []Pad  `json:"pads"`
}

// Pad is a kind of context.
type Pad struct {
	K string `json:"k"`
	N int    `json:"n"`
}

var padKinds = []string{"steps", "indices", "names", "integers", "slices", "empty filters", "true", "constants", "wide", "deep", "space", "filters"}

func genPad(t *rapid.T) PadCase {
	doc := document(t, stdDoc)
	cfg := stdPath
	cfg.noRoot = true
	cfg.steps = 4
	cfg.w = [8]int{4, 2, 3, 4, 3, 3, 7}
	cfg.errs = 1
	p := genPath(t, doc, cfg)
	for i := range p.Steps {
		if p.Steps[i].E != nil {
			dropRoot(p.Steps[i].E)
		}
	}
	c := PadCase{Path: Text(plainPath(p)), Doc: docText(doc)}
	for i, n := 0, between(t, 1, 3); i < n; i++ {
		c.Pads = append(c.Pads, Pad{K: pick(t, padKinds), N: padSize(t)})
	}
	return c
}

func padSize(t *rapid.T) int {
	switch weighted(t, 4, 4, 1) {
	case 0:
		return below(t, 40)
	case 1:
		n := 1 << between(t, 5, 13)
		return n + between(t, -12, 3)
	}
	n := 1 << between(t, 14, 17)
	return n + between(t, -12, 3)
}

// pad builds the big path and document from the small ones.
func (c PadCase) build() (string, any) {
	rest := string(c.Path)[1:]
	doc := parseDoc(c.Doc)
	for i, p := range c.Pads {
		n := p.N
		switch p.K {
		case "steps":
			n = min(n, 20000)
			rest = strings.Repeat(".w", n) + rest
			for j := 0; j < n; j++ {
				doc = map[string]any{"w": doc}
			}
		case "indices":
			rest = "[0" + join(n, "", func(j int) string { return "," + decimal(j+1) }) + "]" + rest
			doc = []any{doc}
		case "names":
			rest = "['w'" + join(n, "", func(j int) string { return ",'n" + decimal(j) + "'" }) + "]" + rest
			doc = map[string]any{"w": doc}
		case "integers":
			rest = "[" + join(n, "", func(j int) string { return decimal(1<<30+j) + "," }) + "'w']" + rest
			doc = map[string]any{"w": doc}
		case "slices":
			rest = "[" + join(n, "", func(j int) string { return decimal(j+1) + "::2," }) + "0:1]" + rest
			doc = []any{doc}
		case "empty filters":
			n = min(n, 2000)
			rest = strings.Repeat("[?(1)]", n) + rest
			for j := 0; j < n; j++ {
				doc = []any{doc}
			}
		case "true":
			rest = "[?(true" + strings.Repeat("&&1", n) + ")]" + rest
			doc = []any{doc}
		case "constants":
			rest = "[?(1 in ['p" + decimal(i) + "'" + join(n, "", func(j int) string { return "," + decimal(j) + ".5" }) + "]||@||1)]" + rest
			doc = []any{doc}
		case "wide":
			rest = "['w']" + rest
			m := map[string]any{"w": doc}
			for j := 0; j < n; j++ {
				m[decimal(j)] = false
			}
			doc = m
		case "deep":
			rest = "['w']" + rest
			doc = map[string]any{"w": doc, "x": deepObj(n, nil)}
		case "space":
			rest = strings.Repeat(" ", n) + rest
		case "filters":
			n = min(n, 300)
			rest = strings.Repeat("[?(@.length>=0||true)]", n) + rest
			for j := 0; j < n; j++ {
				doc = []any{doc}
			}
		}
	}
	return "$" + rest, doc
}

func execPad(c PadCase) Result {
	rp, err := ref.ParsePath(string(c.Path))
	if err != nil {
		return Result{Skip: "invalid path"}
	}
	out := ref.Eval(rp, parseDoc(c.Doc))
	text, doc := c.build()
	desc := fmt.Sprintf("%s padded to %d bytes (%s)", c.Path, len(text), clip(text, 100))
	p, err := jsonpath.Compile(text)
	if err != nil {
		return failf("%s: refused: %s", desc, clip(err.Error(), 300))
	}
	got, err := p.Eval(doc)
	res := judge(desc, c.Doc, out, got, err)
	if out.Tree == nil || out.Tree.Len() == 0 {
		res.Trivia = true
	}
	for _, p := range c.Pads {
		res.Labels = append(res.Labels, "pad "+p.K, "size "+magnitude(p.N))
	}
	return res
}

func init() {
	register(&Check{
		ID:   "C19",
		Rule: "the size is 8 or more, or the padded path selects something",
		Families: []*Family{
			sweep("sizes", sizeSweep, execSize),
			family("random sizes", 3000, 60000, genSize, execSize),
			family("padded paths", 8000, 300000, genPad, execPad),
			family("long strings", 4000, 150000, genInflate, execInflate),
			family("many parts", 4000, 150000, genFrags, execFrags),
		},
	})
}
