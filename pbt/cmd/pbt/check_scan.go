package main

import (
	"fmt"
	"sort"
	"strings"

	"verif/pbt/ref"
)

// Scans: small paths on documents (and some long paths) of every size to a few
// hundred, and of sizes about those at which something might change, with
// results known by construction.

// anyOrder expects results in any order.
func anyOrder(want []any) func(got []any) string {
	key := func(l []any) []string {
		k := make([]string, len(l))
		for i, v := range l {
			k[i] = ref.Canon(v)
		}
		sort.Strings(k)
		return k
	}
	return func(got []any) string {
		if len(got) != len(want) {
			return fmt.Sprintf("%d results, not %d", len(got), len(want))
		}
		g, w := key(got), key(want)
		for i := range g {
			if g[i] != w[i] {
				return fmt.Sprintf("results have %s, not %s", clip(g[i], 100), clip(w[i], 100))
			}
		}
		return ""
	}
}

// items makes an array and an object of the same n values.
func items(n int, f func(i int) any) ([]any, map[string]any) {
	l, m := make([]any, n), make(map[string]any, n)
	for i := range l {
		l[i] = f(i)
		m["k"+decimal(i)] = l[i]
	}
	return l, m
}

func choose(n int, keep func(i int) bool, f func(i int) any) []any {
	w := []any{}
	for i := 0; i < n; i++ {
		if keep(i) {
			w = append(w, f(i))
		}
	}
	return w
}

const big = 1 << 20

// both makes a kind of an array and one of an object from a function that has a
// prefix of a path, a document, and says whether the order shows.
func both(name string, quick int, f func(n int, i func(int) any) (rest string, want []any), elem func(n, i int) any) []sizeKind {
	mk := func(pre string, wrap func(l []any, m map[string]any) any, ordered bool) func(n int) sized {
		return func(n int) sized {
			at := func(i int) any { return elem(n, i) }
			l, m := items(n, at)
			rest, want := f(n, at)
			s := sized{path: pre + rest, doc: wrap(l, m), want: want}
			if !ordered {
				s.eval = anyOrder(want)
			}
			return s
		}
	}
	return []sizeKind{
		{name + " of an array", big, big, quick, mk("$", func(l []any, m map[string]any) any { return l }, true)},
		{name + " of a member array", big, big, quick / 2, mk("$.a.b", func(l []any, m map[string]any) any {
			return map[string]any{"a": map[string]any{"b": l, "c": []any{}}}
		}, true)},
		{name + " of an object", big, big, quick, mk("$", func(l []any, m map[string]any) any { return m }, false)},
		{name + " of a member object", big, big, quick / 2, mk("$[1]", func(l []any, m map[string]any) any { return []any{nil, m} }, false)},
	}
}

func number(n, i int) any { return float64(i) }

func record(n, i int) any {
	if i%3 == 1 {
		return map[string]any{"w": float64(i)}
	}
	return map[string]any{"v": float64(i), "s": "s" + decimal(i)}
}

var scans = map[string][]sizeKind{}

func addScans(check string, l ...[]sizeKind) {
	for _, ks := range l {
		for _, k := range ks {
			k.name = check + " " + k.name
			scans[check] = append(scans[check], k)
		}
	}
}

func init() {
	const q = 1 << 14
	addScans("C03", []sizeKind{
		{"subtractions", big, big, q, func(n int) sized { return truth("@"+strings.Repeat("-1", n)+"==-"+decimal(n), 0.0) }},
		{"products in differences", big, big, q, func(n int) sized {
			return truth("@"+strings.Repeat("-1*2", n)+"==-"+decimal(2*n), 0.0)
		}},
		{"quotients and products", big, big, q, func(n int) sized { return truth("@"+strings.Repeat("/2*2", n)+"==8", 8.0) }},
		{"remainders", big, big, q, func(n int) sized {
			v := int64(1)
			for i := 0; i < n; i++ {
				v = v % 7 * 3 % 1000
			}
			return truth("1"+strings.Repeat("%7*3%1000", n)+"=="+fmt.Sprint(v), 8.0)
		}},
		{"or of ands", big, big, q, func(n int) sized {
			return truth(strings.Repeat("0&&@||", n)+"@&&1&&2", 8.0)
		}},
		{"or of ands, false", big, big, q, func(n int) sized {
			s := truth(strings.Repeat("@&&0||", n)+"@&&0", 8.0)
			s.want = []any{}
			return s
		}},
		{"comparisons", big, big, q, func(n int) sized {
			v := true
			text := "1<2" + join(n, "", func(i int) string {
				r := i%5 < 2
				eq := i%3 != 0
				v = (v == r) == eq
				return map[bool]string{true: "==", false: "!="}[eq] + map[bool]string{true: "1<@", false: "@<1"}[r]
			})
			if !v {
				text = "!(" + text + ")"
			}
			return truth(text, 2.0)
		}},
		{"mixed levels", big, big, q, func(n int) sized {
			// every level of precedence in turn
			return truth(strings.Repeat("1+2*3==7&&2*3-1>=5&&1-2-3==-4&&0||", n)+"8/2/2==2", 1.0)
		}},
		{"negated operands", big, big, q, func(n int) sized {
			return truth("0"+strings.Repeat("- -1*-2", n)+"==-"+decimal(2*n), 1.0)
		}},
	})
	addScans("C05",
		both("wildcard", 1<<15, func(n int, i func(int) any) (string, []any) {
			return "[*]", choose(n, func(int) bool { return true }, i)
		}, number),
		both("wildcard and member", 1<<15, func(n int, i func(int) any) (string, []any) {
			return ".*.v", choose(n, func(i int) bool { return i%3 != 1 }, func(i int) any { return float64(i) })
		}, record),
		both("wildcard and union", 1<<14, func(n int, i func(int) any) (string, []any) {
			w := []any{}
			for i := 0; i < n; i++ {
				w = append(w, float64(i+1), float64(i), float64(i+1))
			}
			return "[*][1,0,-1]", w
		}, func(n, i int) any { return []any{float64(i), float64(i + 1)} }),
		[]sizeKind{
			{"elements", big, big, 1 << 16, func(n int) sized {
				w := []any{float64(n - 1), 0.0, float64(n - 1), 0.0, float64(n / 2), float64(n - 1 - n/3)}
				return sized{path: fmt.Sprintf("$[-1,0,%d,-%d,%d,%d,-%d,-%d,99999999]", n-1, n, n/2, n, n+1, n/3+1), doc: iota_(n), want: w}
			}},
			{"every element, one at a time", 300, 300, 300, func(n int) sized {
				var w []any
				for i := 0; i < n; i++ {
					w = append(w, float64(i), float64(n-1-i))
				}
				return sized{path: "$[" + join(n, ",", func(i int) string { return fmt.Sprintf("%d,-%d", i, i+1) }) + "]", doc: iota_(n), want: w}
			}},
			{"names", big, big, 1 << 16, func(n int) sized {
				_, m := items(n, func(i int) any { return float64(i) })
				return sized{path: fmt.Sprintf("$['k%d',k0,'k%d',\"k%d\",'k','']", n-1, n/2, n), doc: m, want: []any{float64(n - 1), 0.0, float64(n / 2)}}
			}},
			{"every name, one at a time", 300, 300, 300, func(n int) sized {
				_, m := items(n, func(i int) any { return float64(i) })
				return sized{path: "$[" + join(n, ",", func(i int) string { return fmt.Sprintf("k%d", n-1-i) }) + "]", doc: m, want: choose(n, func(int) bool { return true }, func(i int) any { return float64(n - 1 - i) })}
			}},
			{"names of sizes", 1 << 18, 1 << 18, 1 << 14, func(n int) sized {
				k := strings.Repeat("n", n)
				return sized{path: "$." + k + "['" + k + "'][\"" + k + "\",'" + k[1:] + "']", doc: map[string]any{k: map[string]any{k: map[string]any{k: 1.0, k[1:]: 2.0, k + "n": 3.0}, k[1:]: 0.0}, k + "n": 0.0}, want: []any{1.0, 2.0}}
			}},
			{"computed element", big, big, 1 << 16, func(n int) sized {
				return sized{path: fmt.Sprintf("$[(%d-1)]", n), doc: iota_(n), want: []any{float64(n - 1)}}
			}},
			{"computed elements of many", big, big, 1 << 14, func(n int) sized {
				l, _ := items(n, func(i int) any { return []any{float64(i), float64(i + 1)} })
				return sized{path: "$[*][(2-1)]", doc: l, want: choose(n, func(int) bool { return true }, func(i int) any { return float64(i + 1) })}
			}},
			{"computed names of many", big, big, 1 << 14, func(n int) sized {
				l, _ := items(n, func(i int) any { return record(n, i) })
				return sized{path: "$[*][('v')]", doc: l, want: choose(n, func(i int) bool { return i%3 != 1 }, func(i int) any { return float64(i) })}
			}},
		})
	slice := func(name, text string, start, end, step func(n int) int) sizeKind {
		return sizeKind{name, big, big, 1 << 15, func(n int) sized {
			w := []any{}
			s, e, k := start(n), end(n), step(n)
			for i := s; k > 0 && i < e || k < 0 && i > e; i += k {
				if i >= 0 && i < n {
					w = append(w, float64(i))
				}
			}
			r := strings.NewReplacer("N", decimal(n), "H", decimal(n/2), "T", decimal(max(n/3, 1)))
			return sized{path: "$[" + r.Replace(text) + "]", doc: iota_(n), want: w}
		}}
	}
	k := func(v int) func(int) int { return func(int) int { return v } }
	less := func(v int) func(int) int { return func(n int) int { return max(n-v, -1) } }
	all, half := less(0), func(n int) int { return n / 2 }
	addScans("C06", []sizeKind{
		slice("all", ":", k(0), all, k(1)),
		slice("all by numbers", "0:N:1", k(0), all, k(1)),
		slice("reversed", "::-1", less(1), k(-1), k(-1)),
		slice("all but the ends", "1:-1", k(1), less(1), k(1)),
		slice("last three", "-3:", func(n int) int { return max(n-3, 0) }, all, k(1)),
		slice("first three", ":3", k(0), func(n int) int { return min(n, 3) }, k(1)),
		slice("odd ones", "1::2", k(1), all, k(2)),
		slice("thirds", "::T", k(0), all, func(n int) int { return max(n/3, 1) }),
		slice("second half", "H:", half, all, k(1)),
		slice("first half", ":H", k(0), half, k(1)),
		slice("by halves, back", "N:-N:-7", less(1), k(0), k(-7)),
		slice("past the end", "H:99999999999:3", half, all, k(3)),
		{"of many", big, big, 1 << 14, func(n int) sized {
			l, _ := items(n, func(i int) any { return []any{"x", float64(i), "y", float64(i + 1)} })
			w := []any{}
			for i := 0; i < n; i++ {
				w = append(w, float64(i), float64(i+1))
			}
			return sized{path: "$[*][1::2]", doc: l, want: w}
		}},
	})
	addScans("C07",
		[]sizeKind{
			{"members of many", big, big, 1 << 14, func(n int) sized {
				l, _ := items(n, func(i int) any { return record(n, i) })
				return sized{path: "$..v", doc: l, want: choose(n, func(i int) bool { return i%3 != 1 }, func(i int) any { return float64(i) })}
			}},
			{"members of many members", big, big, 1 << 14, func(n int) sized {
				_, m := items(n, func(i int) any { return record(n, i) })
				return sized{path: "$..['v']", doc: m, eval: anyOrder(choose(n, func(i int) bool { return i%3 != 1 }, func(i int) any { return float64(i) }))}
			}},
			{"elements of many", big, big, 1 << 14, func(n int) sized {
				l, _ := items(n, func(i int) any { return map[string]any{"a": []any{float64(i)}} })
				return sized{path: "$.l..[-1]", doc: map[string]any{"l": l}, eval: func(got []any) string {
					if len(got) != n+1 {
						return fmt.Sprintf("%d results, not %d", len(got), n+1)
					}
					for i, v := range got[1:] {
						if v != float64(i) {
							return fmt.Sprintf("result %d is %s", i+1, clip(ref.Canon(v), 100))
						}
					}
					return ""
				}}
			}},
			{"all of a wide array", big, big, 1 << 15, func(n int) sized {
				return sized{path: "$..*", doc: iota_(n), want: iota_(n)}
			}},
			{"levels of members", 1 << 17, 1 << 17, 1 << 13, func(n int) sized {
				var v any = "end"
				var w []any
				for i := n - 1; i >= 0; i-- {
					v = map[string]any{"i": float64(i), "v": v}
				}
				for i := 0; i < n; i++ {
					w = append(w, float64(i))
				}
				return sized{path: "$..i", doc: v, eval: anyOrder(w)}
			}},
			{"levels of arrays", 1 << 17, 1 << 17, 1 << 13, func(n int) sized {
				var v any = []any{}
				for i := n - 1; i >= 0; i-- {
					v = []any{float64(i), v}
				}
				return sized{path: "$..[0]", doc: v, eval: anyOrder(iota_(n))}
			}},
			{"from many", big, big, 1 << 13, func(n int) sized {
				l, _ := items(n, func(i int) any { return []any{map[string]any{"v": float64(i)}, 1.0} })
				return sized{path: "$[*]..v", doc: l, want: iota_(n)}
			}},
			{"containers of many", big, big, 1 << 13, func(n int) sized {
				l, _ := items(n, func(i int) any { return []any{float64(i)} })
				return sized{path: "$..[?(@[1]==null)][0]", doc: []any{l}, eval: func(got []any) string { return ends(got, n) }}
			}},
		})
	addScans("C08",
		both("numbers", 1<<16, func(n int, i func(int) any) (string, []any) {
			return "[?(@%7==3||@==" + decimal(n-1) + ")]", choose(n, func(i int) bool { return i%7 == 3 || i == n-1 }, i)
		}, number),
		both("members", 1<<16, func(n int, i func(int) any) (string, []any) {
			return "[?(@.v!=null)].v", choose(n, func(i int) bool { return i%3 != 1 }, func(i int) any { return float64(i) })
		}, record),
		both("all", 1<<16, func(n int, i func(int) any) (string, []any) {
			return "[?(@>=0)]", choose(n, func(i int) bool { return true }, i)
		}, number),
		both("existence", 1<<15, func(n int, i func(int) any) (string, []any) {
			return "[?(!@.v)].w", choose(n, func(i int) bool { return i%3 == 1 }, func(i int) any { return float64(i) })
		}, record),
		both("against the root", 1<<14, func(n int, i func(int) any) (string, []any) {
			return "[?(@.s=='s" + decimal(n-1) + "'||@.s=='s0')].v", choose(n, func(i int) bool { return i%3 != 1 && (i == 0 || i == n-1) }, func(i int) any { return float64(i) })
		}, record),
		[]sizeKind{
			{"of many arrays", big, big, 1 << 14, func(n int) sized {
				l, _ := items(n, func(i int) any { return []any{float64(i), "x", float64(i + 1)} })
				w := []any{}
				for i := 0; i < n; i++ {
					for j := i; j < i+2; j++ {
						if j%2 == 1 {
							w = append(w, float64(j))
						}
					}
				}
				return sized{path: "$[*][?(@%2==1)]", doc: l, want: w}
			}},
			{"of many objects", big, big, 1 << 14, func(n int) sized {
				l, _ := items(n, func(i int) any { return map[string]any{"a": float64(i), "b": "x"} })
				return sized{path: "$[*][?(@>=0)]", doc: l, want: iota_(n)}
			}},
			{"twice", big, big, 1 << 14, func(n int) sized {
				l, _ := items(n, func(i int) any { return []any{float64(i), float64(-i)} })
				return sized{path: "$[?(@[0]%2==0)][?(@>0)]", doc: l, want: choose(n, func(i int) bool { return i%2 == 0 && i > 0 }, func(i int) any { return float64(i) })}
			}},
			{"of visited containers", big, big, 1 << 14, func(n int) sized {
				l, _ := items(n, func(i int) any { return record(n, i) })
				return sized{path: "$..[?(@.v>=0)].v", doc: map[string]any{"l": l}, want: choose(n, func(i int) bool { return i%3 != 1 }, func(i int) any { return float64(i) })}
			}},
			{"by a long condition", 1 << 17, 1 << 17, 1 << 13, func(n int) sized {
				return sized{path: "$[?(" + strings.Repeat("@==-1||", n) + "@==2)]", doc: iota_(5), want: []any{2.0}}
			}},
			{"by a long string", 1 << 20, 1 << 20, 1 << 15, func(n int) sized {
				s := strings.Repeat("s", n)
				return sized{path: "$[?(@=='" + s + "')]", doc: []any{s, s + "s", s[1:], s[1:] + "t", "t" + s[1:], s, 1.0}, want: []any{s, s}}
			}},
			{"by length", big, big, 1 << 14, func(n int) sized {
				a, b, c := iota_(n), iota_(n+1), iota_(n-1)
				return sized{path: "$[?(@.length==" + decimal(n) + ")]", doc: []any{a, b, c, strings.Repeat("é", n), a}, want: []any{a, strings.Repeat("é", n), a}}
			}},
		})
	addScans("C09",
		both("one step at a time", 1<<14, func(n int, i func(int) any) (string, []any) {
			return "[*]['v','w']", choose(n, func(int) bool { return true }, func(i int) any { return float64(i) })
		}, record),
		[]sizeKind{
			{"union of two for each", big, big, 1 << 14, func(n int) sized {
				l, _ := items(n, func(i int) any { return []any{float64(2*i + 1), float64(2 * i)} })
				return sized{path: "$[*][1,0]", doc: l, want: iota_(2 * n)}
			}},
			{"three levels", 1000, 1000, 130, func(n int) sized {
				var l []any
				var w []any
				for i := 0; i < n; i++ {
					var m []any
					for j := 0; j < 3; j++ {
						m = append(m, []any{float64(i), float64(j)})
						w = append(w, float64(i), float64(j))
					}
					l = append(l, m)
				}
				return sized{path: "$[*][*][*]", doc: l, want: w}
			}},
			{"many to one", big, big, 1 << 14, func(n int) sized {
				l, _ := items(n, func(i int) any { return []any{} })
				l = append(l, []any{"x"})
				return sized{path: "$[*][*]", doc: l, want: []any{"x"}}
			}},
			{"one to many", 1 << 18, 1 << 18, 1 << 14, func(n int) sized {
				return sized{path: "$[0" + strings.Repeat(",0", n-1) + "][0]", doc: []any{[]any{"x"}}, want: choose(n, func(int) bool { return true }, func(int) any { return "x" })}
			}},
		})
	addScans("C10", []sizeKind{
		{"element", big, big, 1 << 15, func(n int) sized {
			return truth(fmt.Sprintf("@[%d]==%d&&@[-%d]==0&&@[0]==0&&@[-1]==%d&&@[%d]==null&&@[-%d]==null&&@.length==%d&&@[%d]==%d", n-1, n-1, n, n-1, n, n+1, n, n/2, n/2), iota_(n))
		}},
		{"member", big, big, 1 << 15, func(n int) sized {
			_, m := items(n, func(i int) any { return float64(i) })
			return truth(fmt.Sprintf("@.k%d==%d&&@['k%d']==%d&&@['k%d']==null&&@.k0==0&&@.length==%d", n-1, n-1, n/2, n/2, n, n), m)
		}},
		{"texts in order", 1 << 20, 1 << 20, 1 << 15, func(n int) sized {
			s := strings.Repeat("s", n)
			return truth("@.a<@.b&&@.a<@.c&&@.c<@.b&&!(@.b<=@.a)&&!(@.a>@.c)&&@.b>@.a&&@.a>=@.a&&@.a<=@.a&&!(@.a<@.a)", map[string]any{"a": s, "b": s[1:] + "t", "c": s + "a"})
		}},
		{"joined texts", 1 << 20, 1 << 20, 1 << 15, func(n int) sized {
			s := strings.Repeat("s", n)
			return truth("@.a=='"+s+"'&&@.a.length=="+decimal(n)+"&&!@.a.none&&(@.a&&1)==1&&(@.a||1)==@.a", map[string]any{"a": s})
		}},
		{"truth of arrays", big, big, 1 << 14, func(n int) sized {
			_, m := items(n, func(i int) any { return nil })
			return truth("@.a&&@.b&&!!@.a&&!(!@.b)", map[string]any{"a": iota_(n), "b": m})
		}},
		{"literal", 1 << 18, 1 << 18, 1 << 14, func(n int) sized {
			return truth(fmt.Sprintf("[%s][%d]==%d&&[%s].length==%d&&[%s][@]==7", join(n, ",", decimal), n-1, n-1, strings.TrimPrefix(strings.Repeat(",@", n), ","), n, join(n, ",", same("@"))+",7"), float64(n))
		}},
		{"arguments of a sum", 1 << 16, 1 << 16, 1 << 13, func(n int) sized {
			return truth(join(n, "+", func(i int) string { return "@[" + decimal(i) + "]" })+"=="+decimal(n*(n-1)/2), iota_(n))
		}},
		{"root for every candidate", big, big, 1 << 14, func(n int) sized {
			l := iota_(n)
			w := []any{}
			for i := 0; i < n; i++ {
				if n-1-i == i+n%2 || i == n/2 {
					w = append(w, float64(i))
				}
			}
			return sized{path: fmt.Sprintf("$[?($[%d-@]==@+%d||$[%d]==@)]", n-1, n%2, n/2), doc: l, want: w}
		}},
	})
	addScans("C11", []sizeKind{
		{"arrays", big, big, 1 << 15, func(n int) sized {
			a, b, c, d := iota_(n), iota_(n), iota_(n), iota_(n)
			b[n-1], c[n/2], d[0] = "x", nil, true
			return sized{path: "$[?(@==$[0])]", doc: []any{a, b, c, d, iota_(n), iota_(n + 1), iota_(n)[1:]}, want: []any{a, a}}
		}},
		{"objects", big, big, 1 << 14, func(n int) sized {
			mk := func(f func(m map[string]any)) map[string]any {
				_, m := items(n, func(i int) any { return float64(i) })
				f(m)
				return m
			}
			doc := []any{
				mk(func(m map[string]any) {}),
				mk(func(m map[string]any) { m["k"+decimal(n-1)] = "x" }),
				mk(func(m map[string]any) { m["k0"] = nil }),
				mk(func(m map[string]any) { delete(m, "k"+decimal(n/2)) }),
				mk(func(m map[string]any) { m["l"] = nil }),
				mk(func(m map[string]any) { delete(m, "k"+decimal(n/2)); m["l"] = float64(n / 2) }),
				mk(func(m map[string]any) {}),
			}
			return sized{path: "$[?(@==$[0])]", doc: doc, want: []any{doc[0], doc[0]}}
		}},
		{"texts", 1 << 20, 1 << 20, 1 << 15, func(n int) sized {
			s := strings.Repeat("é", n)
			return sized{path: "$[?(@==$[0])]", doc: []any{s, s + "é", s[2:], s[2:] + "e", "e" + s[2:], s, "e" + s[1:]}, want: []any{s, s}}
		}},
		{"levels", 1 << 16, 1 << 16, 1 << 13, func(n int) sized {
			z := map[string]any{"z": 1.0}
			a, b, c := deepArr(n, z), deepArr(n, 2.0), deepObj(n, 1.0)
			d := deepObj(n, nil)
			return sized{path: "$.l[?(@.v==$.a||@.v==$.c)].i", doc: map[string]any{"a": a, "c": c, "l": []any{
				map[string]any{"i": 0.0, "v": a}, map[string]any{"i": 1.0, "v": b}, map[string]any{"i": 2.0, "v": c}, map[string]any{"i": 3.0, "v": d},
				map[string]any{"i": 4.0, "v": deepArr(n, z)}, map[string]any{"i": 5.0, "v": deepArr(n+1, z)}, map[string]any{"i": 6.0, "v": deepObj(n, 1.0)}, map[string]any{"i": 7.0, "v": deepObj(n+1, 1.0)},
			}}, want: []any{0.0, 2.0, 4.0, 6.0}}
		}},
		{"arrays of arrays", big, big, 1 << 14, func(n int) sized {
			mk := func(k int) any {
				l, _ := items(n, func(i int) any {
					if i == k {
						return []any{"x"}
					}
					return []any{float64(i), map[string]any{"a": float64(i)}}
				})
				return l
			}
			return sized{path: "$[?(@!=$[1])]", doc: []any{mk(n - 1), mk(-1), mk(-1), mk(n / 2)}, eval: func(got []any) string {
				if len(got) != 2 || ref.Canon(got[0]) == ref.Canon(mk(-1)) || ref.Canon(got[1]) == ref.Canon(mk(-1)) {
					return fmt.Sprintf("%d results", len(got))
				}
				return ""
			}}
		}},
	})
	addScans("C12", []sizeKind{
		{"aggregates", big, big, 1 << 15, func(n int) sized {
			l := iota_(n)
			for i := range l { // the greatest and least in the middle
				l[i] = float64((i*7 + n/2*3) % n)
			}
			s := 0.0
			mx, mn := 0.0, float64(n)
			for _, v := range l {
				f := v.(float64)
				s += f
				mx, mn = max(mx, f), min(mn, f)
			}
			cond := fmt.Sprintf("sum(@)==%.0f&&max(@)==%.0f&&min(@)==%.0f&&length(@)==%d", s, mx, mn, n)
			if avg := int64(s) / int64(n); avg*int64(n) == int64(s) {
				cond += fmt.Sprintf("&&avg(@)==%d", avg)
			}
			return truth(cond, l)
		}},
		{"product", big, big, 1 << 14, func(n int) sized {
			l := choose(n, func(int) bool { return true }, func(i int) any {
				if i == n/2 {
					return 3.0
				}
				return 1.0 - 2*float64(i%2)
			})
			p := 1.0
			for _, v := range l {
				p *= v.(float64)
			}
			return truth(fmt.Sprintf("prod(@)==%.0f", p), l)
		}},
		{"texts", 1 << 20, 1 << 20, 1 << 15, func(n int) sized {
			s := strings.Repeat("é", n)
			return truth(fmt.Sprintf("length(@.s)==%d&&starts_with(@.s,@.t)&&ends_with(@.s,@.u)&&!starts_with(@.s,@.u)&&!ends_with(@.s,@.t)&&contains(@.s,'ab')&&!contains(@.s,'ba')&&contains(@.s,@.s)", 2*n+2), map[string]any{"s": s + "ab" + s, "t": s + "a", "u": "b" + s})
		}},
		{"members of arrays", big, big, 1 << 15, func(n int) sized {
			return truth(fmt.Sprintf("contains(@,%d)&&contains(@,0)&&!contains(@,%d)&&contains(@,%d)&&!contains(@,-1)", n-1, n, n/2), iota_(n))
		}},
		{"keys", big, big, 1 << 14, func(n int) sized {
			_, m := items(n, func(i int) any { return nil })
			return truth(fmt.Sprintf("length(keys(@))==%d&&contains(keys(@),'k%d')&&contains(keys(@),'k0')&&!contains(keys(@),'k%d')&&length(@)==%d", n, n-1, n, n), m)
		}},
		{"tokens", 1 << 18, 1 << 18, 1 << 14, func(n int) sized {
			return truth(fmt.Sprintf("length(tokenize(@,','))==%d&&tokenize(@,',')[%d]=='t%d'&&tokenize(@,',')[0]=='t0'&&tokenize(@,',')[-1]=='t%d'&&tokenize(@,',')[%d]=='t%d'", n, n-1, n-1, n-1, n/2, n/2), join(n, ",", func(i int) string { return "t" + decimal(i) }))
		}},
		{"arguments", 1 << 17, 1 << 17, 1 << 14, func(n int) sized {
			f := func(i int) string { return decimal((i*7 + n/2*3) % n) }
			if n%7 == 0 {
				f = func(i int) string { return decimal((i + n/2) % n) }
			}
			return truth(fmt.Sprintf("max(0,%s)==%d&&min(%d,%s)==0", join(n, ",", f), n-1, n, join(n, ",", f)), nil)
		}},
		{"calls", 1 << 17, 1 << 17, 1 << 13, func(n int) sized {
			return truth(join(n, "+", func(i int) string { return "abs(@-" + decimal(i) + ")" })+"=="+decimal(n*(n-1)/2), 0.0)
		}},
	})
	addScans("C13", []sizeKind{
		{"in an array", big, big, 1 << 15, func(n int) sized {
			return truth(fmt.Sprintf("%d in @&&0 in @&&%d nin @&&%d in @&&!(-1 in @)&&!(%d nin @)", n-1, n, n/2, n-1), iota_(n))
		}},
		{"in a literal", 1 << 17, 1 << 17, 1 << 14, func(n int) sized {
			return sized{path: "$[?(@ in [" + join(n, ",", func(i int) string { return "'t" + decimal(i) + "'" }) + "])]", doc: []any{"t" + decimal(n), "t" + decimal(n-1), "t", "t0", "t" + decimal(n/2), 0.0}, want: []any{"t" + decimal(n-1), "t0", "t" + decimal(n/2)}}
		}},
		{"array in an array", big, big, 1 << 14, func(n int) sized {
			l, _ := items(n, func(i int) any { return []any{float64(i), "x"} })
			return truth(fmt.Sprintf("[%d,'x'] in @&&[%d,'x'] nin @&&[%d] nin @", n-1, n, n-1), l)
		}},
		{"long subjects", 1 << 20, 1 << 20, 1 << 14, func(n int) sized {
			s := strings.Repeat("s", n)
			return sized{path: "$[?(@=~/^s+$/)]", doc: []any{s, s + "t", "t" + s, s[1:] + "ts", s}, want: []any{s, s}}
		}},
		{"ends of subjects", 1 << 20, 1 << 20, 1 << 14, func(n int) sized {
			s := strings.Repeat("é", n)
			return sized{path: "$[?(@=~'x$'&&@=~@)]", doc: []any{s, s + "x", "x" + s, s + "x"}, want: []any{s + "x", s + "x"}}
		}},
		{"counted subjects", 1000, 1000, 1000, func(n int) sized {
			s := strings.Repeat("s", n)
			return sized{path: "$[?(@=~/^s{" + decimal(n) + "}$/)]", doc: []any{s, s + "s", s[1:]}, want: []any{s}}
		}},
		{"long patterns", 4000, 4000, 1100, func(n int) sized {
			s := strings.Repeat("s", n)
			return sized{path: "$[?(@=~/^" + s + "$/||@=~'^" + s + "t$')]", doc: []any{s, s + "s", s[1:], s + "t", "s" + s + "t"}, want: []any{s, s + "t"}}
		}},
		{"many patterns", 2000, 2000, 600, func(n int) sized {
			l, _ := items(n, func(i int) any { return map[string]any{"s": "x" + decimal(i), "r": "^x" + decimal(i+i%2) + "$"} })
			return sized{path: "$[?(@.s=~@.r)].s", doc: l, want: choose(n, func(i int) bool { return i%2 == 0 }, func(i int) any { return "x" + decimal(i) })}
		}},
		{"patterns, each again", 2000, 2000, 600, func(n int) sized {
			l, _ := items(2*n, func(i int) any {
				return map[string]any{"s": "x" + decimal(i%n), "r": "^x" + decimal(i%n+i/n) + "$"}
			})
			return sized{path: "$[?(@.s=~@.r)].s", doc: l, want: choose(n, func(i int) bool { return true }, func(i int) any { return "x" + decimal(i) })}
		}},
		{"many subjects", big, big, 1 << 13, func(n int) sized {
			l, _ := items(n, func(i int) any { return "x" + decimal(i) })
			return sized{path: "$[?(@=~/^x.*[05]$/)]", doc: l, want: choose(n, func(i int) bool { return i%5 == 0 }, func(i int) any { return "x" + decimal(i) })}
		}},
	})
	// C14: the last of many fails
	fails := func(name, path string, bad any, elem func(i int) any) []sizeKind {
		var l []sizeKind
		for _, where := range []string{"last", "middle", "first"} {
			l = append(l, sizeKind{name + ", " + where, big, big, 1 << 14, func(n int) sized {
				doc, _ := items(n, elem)
				doc[map[string]int{"last": n - 1, "middle": n / 2, "first": 0}[where]] = bad
				return sized{path: path, doc: doc, fails: true}
			}})
		}
		l = append(l, sizeKind{name + ", none", big, big, 1 << 13, func(n int) sized {
			doc, _ := items(n, elem)
			return sized{path: path, doc: doc, eval: func([]any) string { return "" }}
		}})
		return l
	}
	text := func(i int) any { return "s" + decimal(i) }
	addScans("C14",
		fails("match", "$[?(@=~/5$/)]", 1.0, text),
		fails("match with none kept", "$[?(@=~/z/)]", nil, text),
		fails("member", "$[?(1 in @)]", "x", func(i int) any { return []any{float64(i)} }),
		fails("member after a step", "$[*][?(@=~/a/)]", []any{"a", 1.0}, func(i int) any { return []any{"a", "b"} }),
		fails("pattern", "$[?('a'=~@)]", "(", func(i int) any { return "b" }),
		fails("operand of or", "$[?(@=='s0'||@=~/5$/)]", true, text),
		fails("of objects", "$.*[?(@=~/5$/)]", map[string]any{"a": 1.0}, func(i int) any { return map[string]any{"a": "x"} }),
		[]sizeKind{
			{"of members", big, big, 1 << 13, func(n int) sized {
				_, m := items(n, text)
				m["k"+decimal(n-1)] = nil
				return sized{path: "$[?(@=~/5$/)]", doc: m, fails: true}
			}},
			{"computed step", big, big, 1 << 14, func(n int) sized {
				return sized{path: "$[*][(nosuch(1))]", doc: iota_(n), fails: true}
			}},
			{"computed step from containers", big, big, 1 << 14, func(n int) sized {
				l, _ := items(n, func(i int) any { return []any{1.0} })
				return sized{path: "$[*][(1 in 2)]", doc: l, fails: true}
			}},
			{"filter without candidates but one", big, big, 1 << 14, func(n int) sized {
				l, _ := items(n, func(i int) any { return []any{} })
				l[n-1] = []any{1.0}
				return sized{path: "$[*][?(length(@,1))]", doc: l, fails: true}
			}},
			{"after many results", big, big, 1 << 14, func(n int) sized {
				return sized{path: "$[?(@>=0&&[@][@==" + decimal(n-1) + "&&1||0]!=null||1 in 2)]", doc: iota_(n), fails: true}
			}},
			{"last operand", 1 << 16, 1 << 16, 1 << 13, func(n int) sized {
				return sized{path: "$[?(" + strings.Repeat("@==0||", n) + "nosuch(@))]", doc: []any{0.0, 1.0}, fails: true}
			}},
			{"last element", 1 << 16, 1 << 16, 1 << 13, func(n int) sized {
				return sized{path: "$[?([" + strings.Repeat("0,", n) + "abs()])]", doc: []any{0.0, 1.0}, fails: true}
			}},
			{"operand not reached", 1 << 16, 1 << 16, 1 << 13, func(n int) sized {
				return sized{path: "$[?(" + strings.Repeat("@==0||", n) + "1 in 2)]", doc: []any{0.0, 0.0}, eval: func([]any) string { return "" }, mayFail: true}
			}},
			{"visited", big, big, 1 << 13, func(n int) sized {
				l, _ := items(n, func(i int) any { return map[string]any{"a": "x"} })
				l[n-1] = map[string]any{"a": 1.0}
				return sized{path: "$..[?(@.a=~/z/)]", doc: map[string]any{"l": l}, fails: true}
			}},
			{"nothing fails", 1 << 16, 1 << 16, 1 << 12, func(n int) sized {
				return sized{path: "$[?(" + join(n, "+", func(i int) string { return []string{"'a'", "@", "null", "[1]", "$.x"}[i%5] + "*2" }) + "==null)]", doc: []any{0.0, 0.0}, eval: func([]any) string { return "" }}
			}},
		})
}

// ends expects the numbers in order, perhaps with others between.
func ends(got []any, n int) string {
	i := 0
	for _, v := range got {
		if v == float64(i) {
			i++
		}
	}
	if i < n {
		return fmt.Sprintf("%d of %d in %d results", i, n, len(got))
	}
	return ""
}

func scanSizes(tier string, limit int) []int {
	seen := map[int]bool{}
	var l []int
	add := func(n int) {
		if n >= 1 && n <= limit && !seen[n] {
			seen[n] = true
			l = append(l, n)
		}
	}
	dense := 140
	if tier == "thorough" {
		dense = 1100
	}
	for n := 1; n <= dense; n++ {
		add(n)
	}
	for b := 1; b <= 20; b++ {
		for d := -2; d <= 2; d++ {
			add(1<<b + d)
			if b < 14 || tier == "thorough" {
				add(3<<b + d)
			}
		}
	}
	for _, n := range []int{150, 200, 250, 300, 400, 500, 600, 700, 750, 800, 900, 999, 1000, 1001, 1100, 1200, 1500, 1999, 2000, 2001, 2500, 3000, 4000, 4999, 5000, 5001, 8000, 9999, 10000, 10001, 12000, 15000, 20000, 20001, 30000, 50000, 50001, 65000, 99999, 100000, 100001, 200000, 250000, 500000, 1000000, 5 * 1024, 10*1024 + 1, 7*1024 + 1} {
		add(n)
	}
	add(limit)
	return l
}

// scan makes the family of sizes of a check.
func scan(id string) *Family {
	return sweep("sizes", func(tier string, emit func(SizeCase)) {
		for _, k := range scans[id] {
			limit := k.quick
			if tier == "thorough" {
				limit = min(k.max, k.quick*16)
			}
			for _, n := range scanSizes(tier, limit) {
				emit(SizeCase{k.name, n})
			}
			for _, n := range []int{1<<16 - 1, 1 << 16, 1<<16 + 1, 100003} {
				if n > limit && n <= k.max && k.quick >= 1<<13 && k.name != "C13 ends of subjects" && k.name != "C13 in a literal" {
					emit(SizeCase{k.name, n})
				}
			}
		}
	}, execSize)
}

// charPairs has every two characters of ASCII, and some others, side by side.
func charPairs(tier string, emit func(ProbeCase)) {
	chars := []rune{}
	for c := rune(0); c < 128; c++ {
		chars = append(chars, c)
	}
	chars = append(chars, 0x80, 0x85, 0xa0, 0xad, 0xe9, 0x300, 0x301, 0x308, 0x30a, 0x130, 0x131, 0x1f1e6, 0x1f468, 0x200b, 0x200d, 0x2028, 0x2029, 0xfe0f, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff, 0x3000, 0xac00, 0x1100, 0x1161, 0xd7ff, 0xe000, 0x1f3fb, 0xdf, 0x17f, 0x212a)
	exprs := []string{"length(@.s)==@.n", "@.s.length", "contains(@.s,@.t)", "starts_with(@.t,@.a)", "ends_with(@.t,@.b)", "ends_with(@.t,@.a)", "contains(@.t,@.b)", "[@.a==@.b,@.t<@.b,@.a<@.t]", "length(tokenize(@.s,'b'))", "tokenize(@.t,'x')[0]==@.t", "@.t in [@.a,@.s,@.t]"}
	if tier != "thorough" {
		exprs = exprs[:7]
	}
	var l []any
	flush := func() {
		for _, e := range exprs {
			emit(ProbeCase{Text(e), docText(l)})
		}
		l = nil
	}
	for _, a := range chars {
		for _, b := range chars {
			l = append(l, map[string]any{"s": "a" + string(a) + string(b) + "b", "t": string(a) + string(b), "a": string(a), "b": string(b), "n": 4.0})
			if len(l) == 60 {
				flush()
			}
		}
	}
	flush()
}

// Texts with every construct.
var richTexts = []string{
	"$", "$.a", "$.a.b", "$..a", "$.*", "$..*", "$['a']", "$[\"a\"]", "$['a\\n\\u00e9\\'']", "$[0]", "$[-1]", "$[0,1]", "$['a','b']", "$[a,b]", "$[1:2]", "$[::-1]", "$[1:]", "$[:-1:2]", "$[*]", "$..[*]", "$..[0]", "$..['a',1:2]", "$ . a [ 0 ] .. b",
	"$.(1)", "$[(1)]", "$[(@.length-1)]", "$[(1):(2)]", "$..[(1)]", "$[?(@)]", "$..[?(@)]", "$[?(@.a)]", "$[?(@.a==1)]", "$[?(@.a == 'b')]", "$[?(@ =~ /a/)]", "$[?(@=~/a\\/b/)]", "$[?(@~'a')]", "$[?(@ in [1,2])]", "$[?(@ nin $.a)]", "$[?(@.a && @.b || !@.c)]", "$[?(1+2*3-4/5%6)]", "$[?(1<2)]", "$[?(1>=2)]", "$[?(-1)]", "$[?(- -1)]", "$[?(1.5e3)]", "$[?(1.0)]", "$[?('a')]", "$[?(\"a\\t\")]", "$[?([])]", "$[?([1,'a',[2]])]", "$[?(@[0])]", "$[?(@['a'])]", "$[?(@.a.b[0].c)]", "$[?($.a[0])]", "$[?(length(@))]", "$[?(max(1,2))]", "$[?(nosuch())]", "$[?(length(@).a[0])]", "$[?((1))]", "$[?(((@.a)+1)*2)]", "$[?(true)]", "$[?(false||null)]", "$[?(@.length>0)].a", "$.a-b", "$.été", "$.1", "$.-1", "$.a[?(@.x=='y')].b[1:2]", "$.'a'", "$.\"a\"",
	"$..book[?(@.price<10 && @.category=~/fic.*/)].title",
}

var intruders = []string{"===", "!==", "//", "/*", "*/", "=>", "??", "?.", "**", "and", "or", "not", "?:", "0x1", "<>", "<<", ">>", "^", "`", "...", "~~", "=~=", "!~", ":=", "+=", "++", "--", "&", "|", "'", "\"", "''", "\"\"", "@@", "$$", "@.", "$.", "()", "[]", "{}", "[[", "]]", "((", "))", ",,", "::", ":::", "/a/", "1", "-1", "1.5", "a", "é", " in ", " nin ", "=~", "==", "||", "&&", "!", "\\", "\\u0061", "\n", "\t", "\r", "\x00", "\u00a0", "\ufeff", "true", "null", "%", "#", ";", "_", "\xff", " ", "i", "m", "g", "s", "u", "e5", "E", "n", "L", "."}

// positionSweep puts every character, and some words, everywhere in texts of
// every construct, and takes out every part.
func positionSweep(tier string, emit func(SyntaxCase)) {
	put := func(s string) { emit(SyntaxCase{Text(s), false, false}) }
	for _, s := range richTexts {
		r := []rune(s)
		for i := 0; i <= len(r); i++ {
			pre, post := string(r[:i]), string(r[i:])
			put(pre)
			put(post)
			put("$" + post)
			for c := rune(32); c < 127; c++ {
				put(pre + string(c) + post)
				if i < len(r) && c != r[i] {
					put(pre + string(c) + string(r[i+1:]))
				}
			}
			for _, w := range intruders {
				put(pre + w + post)
				if i < len(r) {
					put(pre + w + string(r[i+1:]))
				}
				if tier == "thorough" {
					put(pre + " " + w + " " + post)
					for j := i + 2; j <= len(r); j++ {
						put(pre + w + string(r[j:]))
					}
				}
			}
			for j := i + 1; j <= len(r); j++ {
				put(pre + string(r[j:]))                                   // without a part
				put(pre + string(r[i:j]) + string(r[i:j]) + string(r[j:])) // with a part twice
			}
		}
	}
	if tier == "thorough" {
		// two of them cut and joined
		for _, a := range richTexts {
			for _, b := range richTexts {
				for i := 1; i <= len(a); i++ {
					for j := 1; j <= len(b); j += 1 + len(a)/12 {
						put(a[:i] + b[j:])
					}
				}
			}
		}
	}
}
