package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/forsyth/jsonpath"
	"verif/pbt/ref"

	"pgregory.net/rapid"
)

// C05 steps, C06 slices, C07 descendants, C08 filters, C09 composition.

func genPathCase(dc docCfg, pc pathCfg) func(t *rapid.T) PathCase {
	return func(t *rapid.T) PathCase {
		doc := document(t, dc)
		p := genPath(t, doc, pc)
		return PathCase{Path: Text(style(t).path(p)), Doc: docText(doc)}
	}
}

// execPathCase: non-trivial when something is selected.
func execPathCase(c PathCase) Result {
	res, out := checkPath(c)
	if out.Tree == nil || out.Tree.Len() == 0 {
		res.Trivia = true
	}
	return res
}

// withSteps adds classification by step kind.
func withSteps(c PathCase) Result {
	res := execPathCase(c)
	if p, err := ref.ParsePath(string(c.Path)); err == nil {
		res.Labels = append(res.Labels, stepLabels(p)...)
		res.Labels = append(res.Labels, fmt.Sprintf("steps %d", len(p.Steps)))
	}
	return res
}

// the documents of the exhaustive sweep of short paths
var sweepDocs = []string{
	`{"a":[{"a":1,"b":[2,3]},{"b":{"a":[4]},"1":5},[6,[7,8]],"s",null],"b":{"a":{"a":9},"0":[10],"-1":11},"0":"z"}`,
	`[[1,2,3],{"a":[4,5],"b":{"a":[],"0":6}},[],{},"a",[[{"a":7}]],7]`,
	`{"a":{"a":{"a":{"a":[{"a":[[1],2]}]}}}}`,
}

var sweepSteps = []string{
	".a", ".b", "['a']", ".*", "[*]", "[0]", "[-1]", ".0", ".-1", "[1]", "[0,1]", "['a','b']", "['b',0,'a']", "[-1,0:2]", "[1:]", "[::-1]", "[:2]", "[0,0]",
	"..a", "..*", "..[0]", "..[-1]", "..[0,'a']", "..[1:]", "..['a','a']", "[?(@)]", "[?(@.a)]", "..[?(@.a)]", "..[?(@[0])]", "[(0)]", "[('a')]", ".('a')", "[(1-2)]", "..[(@.length-1)]", "..('a')",
	"[?(@.length>1)]", "..0", "..b",
}

func pathSweep(tier string, emit func(PathCase)) {
	for _, d := range sweepDocs {
		emit(PathCase{"$", d})
		for _, a := range sweepSteps {
			emit(PathCase{Text("$" + a), d})
			for _, b := range sweepSteps {
				emit(PathCase{Text("$" + a + b), d})
				for i, c := range sweepSteps {
					if tier == "thorough" || (i+len(a)+len(b))%3 == 0 {
						emit(PathCase{Text("$" + a + b + c), d})
					}
				}
			}
		}
	}
}

// SliceCase is a slice of an array of given length, in a context.
type SliceCase struct {
	Len   int    `json:"len"`
	Slice string `json:"slice"`
	Ctx   int    `json:"ctx"`
}

func (c SliceCase) path() PathCase {
	a := make([]any, c.Len)
	for i := range a {
		a[i] = float64(i)
	}
	b := make([]any, (c.Len*7+3)%5)
	for i := range b {
		b[i] = float64(100 + i)
	}
	s := c.Slice
	switch c.Ctx {
	case 1:
		return PathCase{Text("$[" + s + ",0," + s + "]"), docText(a)}
	case 2:
		nested := append([]any{"x", a}, b...)
		return PathCase{Text("$..[" + s + "]"), docText(nested)}
	case 3:
		return PathCase{Text("$.*[" + s + "]"), docText([]any{a, "s", map[string]any{"0": 1.0, "a": 2.0}, b, nil, a, 5.0, []any{}})}
	case 4:
		objs := make([]any, c.Len)
		for i := range objs {
			objs[i] = map[string]any{"v": []any{float64(i)}}
		}
		return PathCase{Text("$.k[" + s + "].v[0]"), docText(map[string]any{"k": objs})}
	case 5:
		return PathCase{Text("$[" + s + "][" + s + "]"), docText([]any{a, b, a})}
	}
	return PathCase{Text("$[" + s + "]"), docText(a)}
}

func sliceText(start, end, stride *int64) string {
	b := func(p *int64) string {
		if p == nil {
			return ""
		}
		return fmt.Sprint(*p)
	}
	s := b(start) + ":" + b(end)
	if stride != nil {
		s += ":" + b(stride)
	}
	return s
}

func sliceSweep(tier string, emit func(SliceCase)) {
	maxLen, span, str := 5, int64(7), int64(3)
	if tier == "thorough" {
		maxLen, span, str = 9, 11, 6
	}
	rng := func(n int64) []*int64 {
		l := []*int64{nil}
		for i := -n; i <= n; i++ {
			v := i
			l = append(l, &v)
		}
		return l
	}
	n := 0
	for length := 0; length <= maxLen; length++ {
		for _, s := range rng(span) {
			for _, e := range rng(span) {
				for _, k := range rng(str) {
					n++
					ctx := 0
					if n%3 == 0 {
						ctx = n / 3 % 6
					}
					emit(SliceCase{length, sliceText(s, e, k), ctx})
				}
			}
		}
	}
	// bounds at and beyond every limit
	big := []int64{0, 1, -1, 2, -2, 5, -5, math.MaxInt64, math.MaxInt64 - 1, -math.MaxInt64 + 1, -math.MaxInt64 + 2, 1 << 62, -1 << 62, 1 << 32, -1 << 32, 1<<31 - 1, 1 << 31, -1 << 31, 1<<22 - 1, 1 << 22, -1 << 22, 1 << 21, -1<<21 - 1, -1 << 21, 1<<23 - 1, 1 << 23}
	opt := []*int64{nil}
	for i := range big {
		opt = append(opt, &big[i])
	}
	for i, s := range opt {
		for j, e := range opt {
			for k, st := range opt {
				if tier != "thorough" && (i+j+k)%4 != 0 {
					continue
				}
				emit(SliceCase{(i + j + k) % 6, sliceText(s, e, st), (i*7 + j*3 + k) % 6})
			}
		}
	}
}

func execSlice(c SliceCase) Result {
	p := c.path()
	res := execPathCase(p)
	res.Labels = append(res.Labels, fmt.Sprintf("context %d", c.Ctx), fmt.Sprintf("length %d", c.Len))
	return res
}

var slicePath = pathCfg{steps: 4, w: [8]int{3, 1, 3, 4, 14, 1, 1}, nest: 4, depth: 1, bigIdx: true}

// deepDoc draws deeper or wider documents than the standard.
func deepDoc(t *rapid.T) any {
	switch weighted(t, 4, 2, 2, 2) {
	case 0:
		return document(t, docCfg{depth: 8, budget: 120})
	case 1: // wide
		n := 20 + below(t, 300)
		if chance(t, 1, 8) {
			n = 255 + below(t, 4000)
		}
		a := make([]any, n)
		g := &docGen{t: t, cfg: docCfg{depth: 2, budget: 40}}
		samples := []any{1.0, "a", []any{}, map[string]any{}}
		for i := 0; i < 6; i++ {
			samples = append(samples, g.value(2))
		}
		k := 1 + below(t, len(samples))
		off := below(t, len(samples))
		for i := range a {
			a[i] = samples[(i*k+off)%len(samples)]
		}
		if chance(t, 1, 3) {
			m := map[string]any{}
			for i, v := range a {
				m[fmt.Sprintf("k%d", i)] = v
				if i > 40 {
					break
				}
			}
			return m
		}
		return a
	case 2: // deep
		var v any = document(t, docCfg{depth: 2, budget: 10})
		n := 10 + below(t, 50)
		if chance(t, 1, 8) {
			n = 500 + below(t, 2000)
		}
		mode := below(t, 4)
		for i := 0; i < n; i++ {
			switch mode {
			case 0:
				v = []any{v}
			case 1:
				v = map[string]any{"a": v}
			case 2:
				if i%2 == 0 {
					v = []any{v, 1.0}
				} else {
					v = map[string]any{"b": v}
				}
			default:
				v = []any{[]any{}, v, map[string]any{"a": float64(i)}}
			}
		}
		return v
	}
	// bushy: the same shape repeated
	v := document(t, docCfg{depth: 2, budget: 6})
	for i := 0; i < 2+below(t, 4); i++ {
		if bit.Draw(t, "") {
			v = []any{v, v}
		} else {
			v = map[string]any{"a": v, "b": v}
		}
	}
	return v
}

var nestPath = pathCfg{steps: 3, w: [8]int{5, 4, 4, 4, 3, 2, 5}, nest: 10, depth: 1}

func genNest(t *rapid.T) PathCase {
	doc := deepDoc(t)
	text := docText(doc)
	cfg := nestPath
	cfg.maxNest = 3 // repeated descents multiply
	if len(text) > 3000 {
		cfg.maxNest = 1
	} else if len(text) > 400 {
		cfg.maxNest = 1 + below(t, 2)
	}
	if len(text) > 600 { // expressions whose cost does not depend on the size of their operands
		cfg.steps = 2
		cfg.w[5] = 0
		cfg.exprGen = func(g *exprGen) *ref.Expr {
			switch below(t, 6) {
			case 0:
				return eCur()
			case 1:
				return eDot(eCur(), "a")
			case 2:
				return eIndex(eCur(), eInt(int64(below(t, 3))))
			case 3:
				return eBin(pick(t, relops[2:]), eDot(eCur(), "length"), eInt(int64(below(t, 4))))
			case 4:
				return eNot(eDot(eCur(), "b"))
			}
			return eDot(eDot(eCur(), "a"), "length")
		}
	}
	p := genPath(t, doc, cfg)
	nest := 0
	for _, st := range p.Steps {
		if st.Nest {
			nest++
		}
	}
	if nest == 0 {
		p.Steps[len(p.Steps)-1].Nest = true
		// @ in a '..' subscript is a visited container, elsewhere undefined: expressions stay as they are
	}
	return PathCase{Path: Text(style(t).path(p)), Doc: text}
}

// execNest also bounds the work: a case with too many results is skipped.
func execNest(c PathCase) Result {
	rp, err := ref.ParsePath(string(c.Path))
	if err == nil {
		nests := 0
		for _, st := range rp.Steps {
			if st.Nest {
				nests++
			}
		}
		n := float64(len(c.Doc))
		if nests > 1 && n > 8000 || nests > 2 && n > 2000 {
			return Result{Skip: "too large"}
		}
	}
	res, out := checkPath(c)
	if out.Stats.Visits < 2 {
		res.Trivia = true
	}
	res.Labels = append(res.Labels, "visits "+bucket(out.Stats.Visits))
	if err == nil {
		res.Labels = append(res.Labels, stepLabels(rp)...)
	}
	return res
}

// countCase: laws that need no reference evaluator.
func execCounts(c PathCase) Result {
	doc := parseDoc(c.Doc)
	containers, others, values := 0, 0, 0
	var walk func(v any, first bool)
	walk = func(v any, first bool) {
		if !first {
			values++
		}
		switch v := v.(type) {
		case []any:
			containers++
			for _, x := range v {
				walk(x, false)
			}
		case map[string]any:
			containers++
			for _, x := range v {
				walk(x, false)
			}
		default:
			others++
		}
	}
	walk(doc, true)
	for _, q := range []struct {
		path string
		want int
	}{
		{"$..*", values}, {"$..[?(true)]", containers}, {"$..[*]", values}, {"$..[?(!true)]", 0},
		{"$..[?(@.length >= 0)]", -1},
	} {
		got, err := jsonpath.MustCompile(q.path).Eval(doc)
		if err != nil {
			return failf("%s on %s: %v", q.path, clip(c.Doc, 2000), err)
		}
		if q.want >= 0 && len(got) != q.want {
			return failf("%s on %s selects %d values, not %d", q.path, clip(c.Doc, 2000), len(got), q.want)
		}
		for _, v := range got {
			if strings.HasPrefix(q.path, "$..[?") && !isContainer(v) {
				return failf("%s on %s selects %v, which is not a container", q.path, clip(c.Doc, 2000), v)
			}
		}
	}
	return Result{Trivia: containers < 2, Labels: []string{"containers " + bucket(containers)}}
}

var filterPath = pathCfg{steps: 3, w: [8]int{4, 1, 2, 1, 1, 0, 6}, nest: 2, depth: 3, last: 7}

func execFilter(c PathCase) Result {
	res, out := checkPath(c)
	st := out.Stats
	if st.Kept == 0 || st.Kept == st.Candidates {
		res.Trivia = true
	}
	switch {
	case st.Candidates == 0:
		res.Labels = append(res.Labels, "candidates none")
	case st.Kept == 0:
		res.Labels = append(res.Labels, "candidates none kept")
	case st.Kept == st.Candidates:
		res.Labels = append(res.Labels, "candidates all kept")
	default:
		res.Labels = append(res.Labels, "candidates some kept")
	}
	return res
}

// SplitCase checks the logic of filters with no reference.
type SplitCase struct {
	A   Text   `json:"a"` // filter expressions without $
	B   Text   `json:"b"`
	Pre string `json:"pre"`
	Doc string `json:"doc"`
}

func genSplit(t *rapid.T) SplitCase {
	doc := document(t, stdDoc)
	pre := pick(t, []string{"$", "$.*", "$..*", "$.a", "$[*]", "$.b", "$[0]", "$..a", "$..", "$.."})
	p, err := ref.ParsePath(strings.TrimSuffix(pre, ".."))
	if err != nil {
		p = &ref.Path{}
	}
	var cur []any
	if out := ref.Eval(p, doc); out.Tree != nil {
		cur = out.Tree.Flat()
	}
	if len(cur) == 0 {
		pre = "$"
		cur = []any{doc}
	}
	g := &pathGen{t: t, doc: doc, cur: cur, cfg: pathCfg{noRoot: true, depth: 2}}
	a := g.filter(pre == "$..")
	b := g.filter(pre == "$..")
	dropRoot(a)
	dropRoot(b)
	r := style(t)
	return SplitCase{Text(r.exprText(a)), Text(r.exprText(b)), pre, docText(doc)}
}

// dropRoot replaces $ by @.
func dropRoot(e *ref.Expr) {
	if e.K == ref.KRoot {
		e.K = ref.KCur
	}
	for _, k := range e.Kids {
		dropRoot(k)
	}
}

func evalText(path string, doc any) ([]any, error) {
	p, err := jsonpath.Compile(path)
	if err != nil {
		return nil, err
	}
	return p.Eval(doc)
}

func execSplit(c SplitCase) Result {
	doc := parseDoc(c.Doc)
	a, b := string(c.A), string(c.B)
	run := func(f string) ([]any, error) { return evalText(c.Pre+"[?("+f+")]", doc) }
	var all []any
	var err error
	if c.Pre == "$.." {
		all, err = run("true")
	} else {
		all, err = evalText(c.Pre+"[*]", doc)
	}
	if err != nil {
		return failf("candidates of %s on %s: %v", c.Pre, c.Doc, err)
	}
	ra, ea := run(a)
	rb, eb := run(b)
	na, ena := run("!(" + a + ")")
	if (ea != nil) != (ena != nil) {
		return failf("filter %s fails (%v) and its negation (%v) on %s%s", a, ea, ena, c.Pre, c.Doc)
	}
	if ea != nil {
		return Result{Skip: "filter fails"}
	}
	desc := fmt.Sprintf("filter %q (and %q) after %s on %s", a, b, c.Pre, c.Doc)
	sub := func(l []any) []string {
		var out []string
		for _, v := range l {
			out = append(out, ref.Canon(v))
		}
		return out
	}
	cAll, cA, cN := sub(all), sub(ra), sub(na)
	if len(cA)+len(cN) != len(cAll) || diffBags(append(append([]string{}, cA...), cN...), cAll) {
		return failf("%s: selected %v and rejected %v do not make up %v", desc, cA, cN, cAll)
	}
	res := Result{Trivia: len(cA) == 0 || len(cN) == 0}
	if eb != nil {
		return res
	}
	and, e1 := run("(" + a + ")&&(" + b + ")")
	or, e2 := run("(" + a + ")||(" + b + ")")
	nor, e3 := run("!(" + a + ")&&!(" + b + ")")
	if e1 != nil || e2 != nil || e3 != nil {
		return failf("%s: combination fails: %v %v %v", desc, e1, e2, e3)
	}
	// |a or b| + |a and b| = |a| + |b|, and as bags
	l := append(sub(and), sub(or)...)
	r := append(append([]string{}, cA...), sub(rb)...)
	if diffBags(l, r) {
		return failf("%s: a&&b and a||b make up %v, but a and b %v", desc, l, r)
	}
	if diffBags(append(sub(or), sub(nor)...), cAll) {
		return failf("%s: a||b and !a&&!b make up %v, not %v", desc, append(sub(or), sub(nor)...), cAll)
	}
	// selecting again changes nothing, and neither does selecting by b among a's
	if c.Pre == "$" {
		if _, ok := doc.([]any); ok {
			again, err := evalText("$[?("+b+")]", ra)
			if err != nil || strings.Join(sub(again), " ") != strings.Join(sub(and), " ") {
				return failf("%s: b of a gives %v (%v), a&&b %v", desc, sub(again), err, sub(and))
			}
			// each alone
			var alone []string
			for _, v := range doc.([]any) {
				one, err := evalText("$[?("+a+")]", []any{v})
				if err != nil {
					return failf("%s: alone on %s: %v", desc, ref.Canon(v), err)
				}
				alone = append(alone, sub(one)...)
			}
			if strings.Join(alone, " ") != strings.Join(cA, " ") {
				return failf("%s: one at a time gives %v, together %v", desc, alone, cA)
			}
			res.Labels = append(res.Labels, "one at a time")
		}
	}
	return res
}

func diffBags(a, b []string) bool {
	if len(a) != len(b) {
		return true
	}
	n := map[string]int{}
	for _, s := range a {
		n[s]++
	}
	for _, s := range b {
		n[s]--
	}
	for _, k := range n {
		if k != 0 {
			return true
		}
	}
	return false
}

// CompCase: a path in two parts.
type CompCase struct {
	P   Text   `json:"p"` // "$..."
	Q   Text   `json:"q"` // the further steps, without $
	Doc string `json:"doc"`
}

func pathHasRoot(p *ref.Path) bool {
	var in func(e *ref.Expr) bool
	in = func(e *ref.Expr) bool {
		if e == nil {
			return false
		}
		if e.K == ref.KRoot {
			return true
		}
		for _, k := range e.Kids {
			if in(k) {
				return true
			}
		}
		return false
	}
	for _, st := range p.Steps {
		if in(st.E) {
			return true
		}
	}
	return false
}

func genComp(t *rapid.T) CompCase {
	doc := document(t, docCfg{depth: 4, budget: 60, single: chance(t, 1, 3)})
	cfg := stdPath
	cfg.steps = 6
	p := genPath(t, doc, cfg)
	if len(p.Steps) == 1 && chance(t, 3, 4) { // lengthen
		g := &pathGen{t: t, doc: doc, cfg: cfg, path: p}
		g.follow()
		p.Steps = append(p.Steps, g.step(true))
	}
	k := below(t, len(p.Steps)+1)
	if len(p.Steps) > 1 && (k == 0 || k == len(p.Steps)) && chance(t, 5, 6) {
		k = 1 + below(t, len(p.Steps)-1)
	}
	q := &ref.Path{Steps: p.Steps[k:]}
	for _, st := range q.Steps {
		if st.E != nil {
			dropRoot(st.E)
			if st.K == ref.TExpr && !st.Nest {
				dropCur(st.E)
			}
		}
	}
	r := style(t)
	return CompCase{Text(r.path(&ref.Path{Steps: p.Steps[:k]})), Text(strings.TrimPrefix(strings.TrimLeft(r.path(q), " \t\r\n"), "$")), docText(doc)}
}

// dropCur replaces @, where it means nothing, by a small number.
func dropCur(e *ref.Expr) {
	if e.K == ref.KCur {
		*e = ref.Expr{K: ref.KInt, I: 1}
	}
	for _, k := range e.Kids {
		dropCur(k)
	}
}

func sequential(v any) bool {
	switch v := v.(type) {
	case []any:
		for _, x := range v {
			if !sequential(x) {
				return false
			}
		}
	case map[string]any:
		if len(v) > 1 {
			return false
		}
		for _, x := range v {
			if !sequential(x) {
				return false
			}
		}
	}
	return true
}

func sameResults(a, b []any, ordered bool) bool {
	if len(a) != len(b) {
		return false
	}
	var x, y []string
	for i := range a {
		x = append(x, ref.Canon(a[i]))
		y = append(y, ref.Canon(b[i]))
	}
	if ordered {
		return strings.Join(x, "\n") == strings.Join(y, "\n")
	}
	return !diffBags(x, y)
}

func execComp(c CompCase) Result {
	doc := parseDoc(c.Doc)
	ordered := sequential(doc)
	whole, err := jsonpath.Compile(string(c.P) + string(c.Q))
	if err != nil {
		return failf("%s%s: %v", c.P, c.Q, err)
	}
	p, err := jsonpath.Compile(string(c.P))
	if err != nil {
		return failf("%s: %v", c.P, err)
	}
	q, err := jsonpath.Compile("$" + string(c.Q))
	if err != nil {
		return failf("$%s: %v", c.Q, err)
	}
	got, err := whole.Eval(doc)
	first, err1 := p.Eval(doc)
	if err1 != nil {
		if err == nil {
			return failf("%s fails (%v) on %s, but not followed by %s", c.P, err1, c.Doc, c.Q)
		}
		return Result{Skip: "evaluation fails"}
	}
	if len(first) == 0 && err != nil {
		return Result{Skip: "whether an expression is evaluated with no values is unspecified"}
	}
	want := []any{}
	var err2 error
	for _, v := range first {
		l, e := q.Eval(v)
		if e != nil {
			err2 = e
			break
		}
		want = append(want, l...)
	}
	if (err2 != nil) != (err != nil) {
		return failf("%s%s on %s: whole path error %v; in parts %v", c.P, c.Q, c.Doc, err, err2)
	}
	if err != nil {
		return Result{Labels: []string{"both fail"}}
	}
	if !sameResults(got, want, ordered) {
		return failf("%s then %s on %s: in parts\n%s\nwhole\n%s", c.P, c.Q, clip(c.Doc, 2000), ref.Canon(want), ref.Canon(got))
	}
	l := "split middle"
	if c.Q == "" || strings.TrimSpace(string(c.P)) == "$" {
		l = "split end"
	}
	o := "any order"
	if ordered {
		o = "ordered"
	}
	return Result{Trivia: len(got) == 0 || l == "split end", Labels: []string{l, o}}
}

// SpellCase: a path with a step rewritten.
type SpellCase struct {
	A    Text   `json:"a"`
	B    []Text `json:"b"` // its results, concatenated, must be those of A
	Kind string `json:"kind"`
	Doc  string `json:"doc"`
}

func genSpell(t *rapid.T) SpellCase {
	doc := document(t, docCfg{depth: 4, budget: 60, single: chance(t, 1, 3)})
	cfg := stdPath
	cfg.w = [8]int{8, 4, 4, 8, 4, 1, 2}
	p := genPath(t, doc, cfg)
	// find a step to rewrite
	var at []int
	for i, st := range p.Steps {
		switch {
		case st.K == ref.TWild, st.K == ref.TSel && len(st.Sels) == 1 && st.Sels[0].K != ref.SSlice:
			at = append(at, i)
		case st.K == ref.TSel && i == len(p.Steps)-1 && len(st.Sels) > 1:
			at = append(at, i, i, i)
		case st.K == ref.TSel && len(st.Sels) == 1:
			at = append(at, i)
		}
	}
	r := style(t)
	c := SpellCase{Doc: docText(doc), A: Text(r.path(p))}
	if len(at) == 0 {
		c.Kind = "same"
		c.B = []Text{Text((&renderer{}).path(p))}
		return c
	}
	i := pick(t, at)
	with := func(f func(st *ref.Step)) *ref.Path {
		q := &ref.Path{Steps: append([]*ref.Step(nil), p.Steps...)}
		st := *q.Steps[i]
		st.Sels = append([]ref.Sel(nil), st.Sels...)
		f(&st)
		q.Steps[i] = &st
		return q
	}
	st := p.Steps[i]
	if st.K == ref.TSel && len(st.Sels) > 1 {
		c.Kind = "union"
		// take the union apart, for a single current value
		for j := range st.Sels {
			q := with(func(s *ref.Step) { s.Sels = s.Sels[j : j+1] })
			c.B = append(c.B, Text(style(t).path(q)))
		}
		return c
	}
	c.Kind = "spelling"
	var q *ref.Path
	switch {
	case st.K == ref.TWild:
		q = with(func(s *ref.Step) { s.Bracket = !s.Bracket })
	case st.Sels[0].K == ref.SName:
		name := st.Sels[0].S
		q = with(func(s *ref.Step) {
			s.Bracket = true
			s.Sels[0].Bare = false
			if identifier(name, true) {
				switch below(t, 3) {
				case 0:
					s.Bracket = false
					s.Sels[0].Bare = true
				case 1:
					s.Sels[0].Bare = true
				}
			}
			if !s.Sels[0].Bare && bit.Draw(t, "") { // as an expression
				s.K = ref.TExpr
				s.E = eStr(name)
				s.Bracket = bit.Draw(t, "")
			}
		})
	case st.Sels[0].K == ref.SInt:
		n := st.Sels[0].N
		q = with(func(s *ref.Step) {
			if n >= 0 {
				s.Bracket = bit.Draw(t, "")
			}
			if bit.Draw(t, "") {
				s.K = ref.TExpr
				s.E = eInt(n)
			}
		})
	default: // defaults of a slice made explicit
		q = with(func(s *ref.Step) {
			sl := &s.Sels[0]
			if !sl.Stride.Set {
				sl.Stride = ref.Bound{Set: true, N: 1}
			}
			if sl.Stride.N > 0 && !sl.Start.Set {
				sl.Start = ref.Bound{Set: true, N: 0}
			}
			if sl.Stride.N > 0 && !sl.End.Set {
				sl.End = ref.Bound{Set: true, N: 1 << 40}
			}
			if sl.Stride.N < 0 && !sl.Start.Set {
				sl.Start = ref.Bound{Set: true, N: -1}
			}
			if sl.Stride.N < 0 && !sl.End.Set {
				sl.End = ref.Bound{Set: true, N: -(1 << 40)}
			}
		})
	}
	c.B = []Text{Text(style(t).path(q))}
	return c
}

func execSpell(c SpellCase) Result {
	doc := parseDoc(c.Doc)
	a, erra := evalText(string(c.A), doc)
	b := []any{}
	var errb error
	for _, q := range c.B {
		l, e := evalText(string(q), doc)
		if e != nil {
			errb = e
		}
		b = append(b, l...)
	}
	if (erra != nil) != (errb != nil) {
		return failf("%s (%v) and %v (%v) differ on %s", c.A, erra, c.B, errb, c.Doc)
	}
	if erra != nil {
		return Result{Skip: "evaluation fails"}
	}
	ordered := sequential(doc) && len(c.B) == 1
	if c.Kind == "union" {
		// order of the whole only if there is but one current value
		p, err := ref.ParsePath(string(c.A))
		if err == nil {
			last := p.Steps[len(p.Steps)-1]
			p.Steps = p.Steps[:len(p.Steps)-1]
			out := ref.Eval(p, doc)
			if out.Tree != nil && out.Tree.Len() == 1 && !last.Nest {
				ordered = true
			}
		}
	}
	if !sameResults(a, b, ordered) {
		return failf("%s and %v (%s) differ on %s:\n%s\n%s", c.A, c.B, c.Kind, clip(c.Doc, 2000), ref.Canon(a), ref.Canon(b))
	}
	return Result{Trivia: len(a) == 0, Labels: []string{"rewrite " + c.Kind}}
}

func init() {
	register(&Check{
		ID:   "C05",
		Rule: "the path selects at least one value (by the reference)",
		Families: []*Family{
			sweep("short paths", pathSweep, withSteps),
			sweep("keys of every kind", keySweep, withSteps),
			scan("C05"),
			family("steps", 150000, 6000000, genPathCase(stdDoc, stdPath), withSteps),
			family("expression steps", 40000, 1000000, genPathCase(stdDoc, pathCfg{steps: 3, w: [8]int{4, 1, 2, 1, 1, 10, 1}, nest: 5, depth: 2}), withSteps),
			family("unions", 40000, 1000000, genPathCase(stdDoc, pathCfg{steps: 4, w: [8]int{2, 1, 2, 10, 1, 0, 1}, nest: 4, depth: 2}), withSteps),
		},
	})
	register(&Check{
		ID:   "C06",
		Rule: "the path selects at least one value (by the reference)",
		Families: []*Family{
			sweep("every slice", sliceSweep, execSlice),
			sweep("longer arrays", longSlices, execSlice),
			scan("C06"),
			family("long arrays", 10000, 400000, genLongSlice, execSlice),
			family("slices in paths", 120000, 4000000, genPathCase(stdDoc, slicePath), withSteps),
		},
	})
	register(&Check{
		ID:   "C07",
		Rule: "'..' visits at least two containers; for the counting laws, the document has at least two",
		Families: []*Family{
			scan("C07"),
			family("descents", 40000, 1500000, genNest, execNest),
			family("counts", 8000, 400000, func(t *rapid.T) PathCase { return PathCase{"", docText(deepDoc(t))} }, execCounts),
		},
	})
	register(&Check{
		ID:   "C08",
		Rule: "some candidates are kept and some are not",
		Families: []*Family{
			scan("C08"),
			family("filters", 150000, 5000000, genPathCase(stdDoc, filterPath), execFilter),
			family("logic", 50000, 1500000, genSplit, execSplit),
		},
	})
	register(&Check{
		ID:   "C09",
		Rule: "the path selects something, and is split in its middle or has a step rewritten",
		Families: []*Family{
			scan("C09"),
			family("composition", 120000, 4000000, genComp, execComp),
			family("spelling and unions", 80000, 3000000, genSpell, execSpell),
		},
	})
}
