package main

import (
	"fmt"
	"strings"

	"github.com/forsyth/jsonpath"
	"verif/pbt/ref"
)

// Operand kinds in chains (C03, C04, C10), what is searched for at each place
// of a list (C13), and paths much used (C15).

// chainKinds are the kinds that an operand can have.
var chainKinds = []string{"@", "$[1]", "2", "-2", "0", "1.5", "'2'", "\"x\"", "true", "false", "null", "[2]", "[@]", "length(@)", "abs(@)", "(@)", "(2)", "(1<2)", "@[0]", "@.n", "@['n']", "-@", "!@", "$", "@[(0)]", "[2][0]", "max(@,1)", "/2/"}

func chainOperand(op, kind string) bool {
	return kind != "/2/" || op == " =~ "
}

// kindsSweep has every two operators with every kind of operand at each of the
// three places.
func kindsSweep(every int) func(tier string, emit func(ProbeCase)) {
	return func(tier string, emit func(ProbeCase)) {
		if tier == "thorough" {
			every = 1
		}
		doc := docText([]any{1.0, 2.0, 0.0, 3.0, -2.0, 1.5, "2", "x", "", true, false, nil, []any{2.0, 0.0}, []any{}, map[string]any{"n": 2.0}, map[string]any{"n": "x"}, []any{1.0, 2.0}, 5.0})
		others := []string{"1", "3", "@", "0", "2", "'2'", "@.n", "5", "true"}
		n := 0
		for i, a := range ctxOps {
			for j, b := range ctxOps {
				for k, kind := range chainKinds {
					for at := 0; at < 3; at++ {
						n++
						if n%every != 0 {
							continue
						}
						o := [3]string{others[(i+k)%len(others)], others[(j+k+i)%len(others)], others[(j*5+k)%len(others)]}
						// in and nin need lists, and =~ patterns
						for x, op := range []string{a, b} {
							switch op {
							case " in ", " nin ":
								o[x+1] = []string{"[1,2]", "[@]", "[true,0]"}[(k+j)%3]
							case " =~ ":
								o[x+1] = []string{"'2'", "/1/"}[(k+j)%2]
							}
						}
						if at == 0 && kind == "/2/" || at > 0 && !chainOperand([]string{a, b}[max(at-1, 0)], kind) {
							continue
						}
						o[at] = kind
						emit(ProbeCase{Text(o[0] + a + o[1] + b + o[2]), doc})
						if at == 1 { // the same at the ends
							emit(ProbeCase{Text("1" + a + kind + b + "3"), doc})
						}
					}
				}
			}
		}
		// the same operator many times, by kinds
		for _, a := range ctxOps {
			for k, kind := range chainKinds {
				if kind == "/2/" {
					continue
				}
				for _, m := range []int{3, 4, 5} {
					emit(ProbeCase{Text(strings.Repeat(kind+a, m-1) + kind), doc})
					emit(ProbeCase{Text("1" + a + strings.Repeat(kind+a, m-2) + chainKinds[(k+m)%(len(chainKinds)-1)]), doc})
				}
			}
		}
	}
}

// pairs that are equal, or not, though of different types
var searchPairs = []struct {
	needle, elem string
	found        bool
}{
	{"5", "5", true}, {"'five'", "'five'", true}, {"5", "'5'", true}, {"'5'", "5", true}, {"5.5", "'5.5'", true}, {"'5.50'", "5.5", true}, {"5", "5.0", true},
	{"true", "1", true}, {"1", "true", true}, {"false", "0", true}, {"0", "false", true}, {"true", "true", true}, {"null", "null", true},
	{"[1,2]", "[1,2]", true}, {"[]", "[]", true}, {"[[],[7,8]]", "[[],[7,8]]", true},
	{"5", "'five'", false}, {"'five'", "'Five'", false}, {"null", "0", false}, {"null", "false", false}, {"null", "''", false}, {"[1,2]", "[2,1]", false}, {"[]", "[null,1]", false},
}

func searchKinds(q int) []sizeKind {
	var l []sizeKind
	for i, p := range searchPairs {
		for k, at := range []struct {
			name string
			at   func(n int) int
		}{{"first", func(int) int { return 0 }}, {"middle", func(n int) int { return n / 2 }}, {"last", func(n int) int { return n - 1 }}, {"third", func(n int) int { return min(n-1, 2) }}} {
			p, at := p, at
			list := func(n int) []any {
				l, _ := items(n, func(i int) any { return []any{1000.0 + float64(i), "e" + decimal(i)}[(i+k)%2] })
				l[at.at(n)] = parseDoc(strings.ReplaceAll(p.elem, "'", "\""))
				return l
			}
			in, nin := p.found, !p.found
			name := fmt.Sprintf("%s looked for and %s %s", p.needle, p.elem, at.name)
			// the list is the candidate's, or a literal
			if (i+k)%4 != 0 {
				l = append(l, sizeKind{name, 1 << 16, 1 << 16, q, func(n int) sized {
					s := sized{path: fmt.Sprintf("$[?((%s in @.l)==%v&&(%s nin @.l)==%v)].v", p.needle, in, p.needle, nin)}
					s.doc, s.want = []any{map[string]any{"l": list(n), "v": 1.0}}, []any{1.0}
					return s
				}})
				continue
			}
			l = append(l, sizeKind{name + " of a literal", 1 << 16, 1 << 16, q, func(n int) sized {
				t := "[" + join(n, ",", func(i int) string {
					if i == at.at(n) {
						return p.elem
					}
					return []string{decimal(1000 + i), "'e" + decimal(i) + "'"}[(i+k)%2]
				}) + "]"
				s := sized{path: fmt.Sprintf("$[?((@.v in %s)==%v)].w", t, in)}
				s.doc, s.want = []any{map[string]any{"v": parseDoc(strings.ReplaceAll(p.needle, "'", "\"")), "w": 1.0}}, []any{1.0}
				return s
			}})
		}
	}
	return l
}

// HotCase is a path evaluated very many times, or compiled very many times.
type HotCase struct {
	Path  Text     `json:"path"`
	Docs  []string `json:"docs"`
	Times int      `json:"times"`
	Again bool     `json:"again"` // compiled each time
}

func hotSweep(tier string, emit func(HotCase)) {
	docs := []string{
		`{"a":{"b":1,"s":"abc","l":[3,1,2]},"l":[1,2,3,{"b":2}],"0":"x"}`, `[1,2,3]`, `[[1,2],{"a":5,"l":[1]},"abc",null]`, `[]`, `{}`, `5`, `"text"`, `null`, `[{"a":1},{"a":2},{"a":"x","b":[1,{"a":3}]}]`,
	}
	paths := []string{"$", "$.a", "$.*", "$..*", "$..a", "$[0]", "$[-1]", "$[0,1]", "$['a','l']", "$[1:]", "$[::-1]", "$[(0)]", "$[(@.length-1)]", "$[([0,'a'][0])]", "$[?(@)]", "$[?(@.a)]", "$[?(@>1)]", "$[?(@ in [1,2,'abc'])]", "$..[?(@.b)]", "$..[0]", "$..[(0)]", "$[?([@,1]==[1,1])]", "$[?(length(@)>1)]", "$[?(max(@.l)>0)].l", "$[?(@=='abc'||@==1)]", "$.l[*]", "$.l[?(@.b)].b", "$.a.l[1]", "$..l[0]", "$[?(@ =~ /a/)]", "$[?(@ =~ $[2])]", "$[?(1 in @)]", "$[?(nosuch(@))]", "$[?(length(@,1))]", "$[?(@==2&&nosuch())]", "$[?(@==2||1 in 2)]", "$[?('a'=~@)]", "$.l[?(@==3&&length())]", "$..[?(@.b&&1 in 2)]", "$[(nosuch(1))]", "$.a[(1 in 2)]", "$[0].a.b.c", "$.none", "$[9]", "$..[?(@==1)]"}
	times := []int{1300, 2100}
	if tier == "thorough" {
		times = []int{1300, 20000, 70000}
	}
	for i, p := range paths {
		for j, n := range times {
			emit(HotCase{Text(p), docs, n, false})
			emit(HotCase{Text(p), docs[i%3 : i%3+1], n, false})
			emit(HotCase{Text(p), docs[(i+j)%4:], n, true})
		}
	}
}

// execHot keeps every list, and looks at them at the end.
func execHot(c HotCase) Result {
	p, rp, res := compileBoth(string(c.Path))
	if p == nil {
		return res
	}
	docs := make([]any, len(c.Docs))
	outs := make([]ref.Outcome, len(docs))
	canon := make([]string, len(docs))
	for i, d := range c.Docs {
		docs[i] = parseDoc(d)
		outs[i] = ref.Eval(rp, docs[i])
		canon[i] = ref.Canon(docs[i])
	}
	type kept struct {
		got []any
		err error
	}
	lists := make([]kept, c.Times)
	var progs []*jsonpath.JSONPath
	for i := range lists {
		if c.Again {
			var err error
			text := string(c.Path) + strings.Repeat(" ", i%5)
			if p, err = jsonpath.Compile(text); err != nil {
				return failf("Compile(%q) after %d others: %v", text, i, err)
			}
			if len(progs) < 5000 {
				progs = append(progs, p)
			}
		}
		lists[i].got, lists[i].err = p.Eval(docs[i%len(docs)])
	}
	some := 0
	for i, k := range lists {
		d := i % len(docs)
		if r := judge(string(c.Path), canon[d], outs[d], k.got, k.err); r.Fail != "" {
			return failf("evaluation %d of %d: %s", i+1, c.Times, r.Fail)
		}
		if len(k.got) > 0 {
			some++
		}
	}
	for i := range docs {
		if after := ref.Canon(docs[i]); after != canon[i] {
			return failf("%s alters %s to %s", c.Path, canon[i], after)
		}
	}
	for i, p := range progs {
		want := string(c.Path) + strings.Repeat(" ", i%5)
		if s := p.String(); s != want {
			return failf("compiled %d of %d: String() gives %q, not %q", i+1, c.Times, s, want)
		}
		d := (i + 1) % len(docs)
		got, err := p.Eval(docs[d])
		if r := judge(string(c.Path), canon[d], outs[d], got, err); r.Fail != "" {
			return failf("compiled %d of %d, evaluated after all: %s", i+1, c.Times, r.Fail)
		}
	}
	return Result{Trivia: some == 0, Labels: []string{"times " + bucket(c.Times)}}
}

func init() {
	add := func(id string, f ...*Family) { checks[id].Families = append(f, checks[id].Families...) }
	add("C03", sweep("operand kinds", kindsSweep(1), execProbe))
	add("C10", sweep("operand kinds", kindsSweep(9), execProbe))
	add("C14", sweep("operand kinds", kindsSweep(19), execProbe))
	addScans("C13", searchKinds(1<<12))
	add("C15", sweep("much used", hotSweep, execHot))
}
