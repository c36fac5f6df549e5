package main

// Objects with members of every name compared (C11), lists with every kind of
// unusual element (C11, C12, C13), and computed indices at every size (C10).

// comparedNames compares small objects that have a member of some name.
func comparedNames(tier string, emit func(PathCase)) {
	for i, n := range manyNames() {
		other := "x"
		if n == "x" {
			other = "y"
		}
		o := func(kv ...any) any {
			m := map[string]any{}
			for i := 0; i < len(kv); i += 2 {
				m[kv[i].(string)] = kv[i+1]
			}
			return m
		}
		objs := []any{o(n, 1.0), o(n, 2.0), o(n, nil), o(other, 1.0), o(other, 2.0), o(n, 1.0, other, 2.0), o(n, 2.0, other, 2.0), o(n, 1.0, other, 1.0), o(n, o(n, 1.0)), o(n, o(other, 1.0)), o(n, n), o(n, other), o(n, []any{}), o(n, []any{1.0}), o()}
		var l []any
		for _, a := range objs {
			for _, b := range objs {
				l = append(l, map[string]any{"a": a, "b": b})
			}
		}
		doc := docText(l)
		emit(PathCase{"$[?(@.a==@.b)]", doc})
		emit(PathCase{[]Text{"$[?(@.a!=@.b)]", "$[?([@.a]==[@.b])]", "$[?(@.a in [@.b])]", "$[?(contains([@.a],@.b))]"}[i%4], doc})
	}
}

// oddElements are elements that a list might treat as special.
var oddElements = []any{"*", "", "null", "any", ".*", "$", "@", "true", "false", "0", "...", "-", "%", "?", "[]", "{}", "!", "NaN", "undefined", nil, true, false, 0.0, -1.0, 1e300, map[string]any{}, []any{}, []any{"*"}, []any{nil}, map[string]any{"a": "z"}, "Z", "zz", " z", "z ", "\x00"}

// oddLists puts each of them at each place of short lists.
func oddLists(uses ...string) func(tier string, emit func(PathCase)) {
	return func(tier string, emit func(PathCase)) {
		for _, fill := range [][]any{{"a", "b", "c", "d", "e", "f"}, {1.0, 2.0, 3.0, 4.0, 5.0, 6.0}} {
			for _, odd := range oddElements {
				var l []any
				for n := 1; n <= 6; n++ {
					for at := 0; at < n; at++ {
						list := append([]any{}, fill[:n]...)
						list[at] = odd
						for _, v := range []any{"z", 9.0, fill[n-1], odd} {
							l = append(l, map[string]any{"l": list, "v": v, "m": fill[:n]})
						}
					}
				}
				doc := docText(l)
				for _, u := range uses {
					emit(PathCase{Text("$[?(" + u + ")]"), doc})
				}
			}
		}
	}
}

func init() {
	add := func(id string, f ...*Family) { checks[id].Families = append(f, checks[id].Families...) }
	add("C11", sweep("small objects by name", comparedNames, execPathCase),
		sweep("odd elements", oddLists("@.l==@.m", "@.l!=@.m", "@.m==@.l", "[@.l]==[@.m]", "@.l==@.v", "@.v==@.l[0]"), execPathCase))
	add("C12", sweep("odd elements", oddLists("contains(@.l,@.v)", "length(@.l)==length(@.m)", "contains([@.l],@.m)", "max(@.l)==@.v", "min(@.l)==@.v", "sum(@.l)==@.v", "prod(@.l)>=0", "avg(@.l)<5"), execPathCase))
	add("C13", sweep("odd elements", oddLists("@.v in @.l", "@.v nin @.l", "@.l in [@.m]", "@.l nin [@.m,@.v]"), execPathCase))

	number := func(n int, s string) any { return map[string]any{"l": iota_(n), "n": float64(n), "s": decimal(n), "t": s} }
	addScans("C10", []sizeKind{
		{"computed index", big, big, 1 << 14, func(n int) sized {
			return truth("@.l[@.n]==null&&@.l[@.n-1]==@.n-1&&@.l[-@.n]==0&&@.l[-@.n-1]==null&&@.l[@.s]==null&&@.l[@.n+1]==null&&@.l[@.l.length]==null&&@.l[@.l.length-1]==@.n-1&&@.l[@.n*2]==null&&@.l[@.t]==null&&@.l[length(@.l)-1]+1==@.n", number(n, "-"+decimal(n+1)))
		}},
		{"computed text index", big, big, 1 << 14, func(n int) sized {
			return truth("@.l[@.t]==@.n-1", number(n, decimal(n-1)))
		}},
		{"computed key", 1 << 18, 1 << 18, 1 << 13, func(n int) sized {
			_, m := items(n, func(i int) any { return float64(i) })
			return truth("@.m[@.k]=="+decimal(n-1)+"&&@.m[@.z]==null", map[string]any{"m": m, "k": "k" + decimal(n-1), "z": "k" + decimal(n)})
		}},
	})
}
