//go:build tree

// This file alone depends on what packages paths and mach export.

package main

import (
	"fmt"
	"strings"

	"github.com/forsyth/jsonpath"
	"github.com/forsyth/jsonpath/mach"
	"github.com/forsyth/jsonpath/paths"
	"verif/pbt/ref"

	"pgregory.net/rapid"
)

// C21 the syntax trees of package paths.

// TreeTextCase is a text to parse, as a path or a script expression, and a document.
type TreeTextCase struct {
	Text Text   `json:"text"`
	Expr bool   `json:"expr,omitempty"`
	Doc  string `json:"doc,omitempty"`
}

func genTreeText(t *rapid.T) TreeTextCase {
	text, toks, expr, doc := validText(t)
	c := TreeTextCase{Text(text), expr, ""}
	if !expr {
		c.Doc = docText(doc)
	}
	if chance(t, 1, 6) {
		c.Text, c.Doc = Text(strings.Join(mutateToks(t, toks), " ")), "[1]"
	}
	return c
}

func treeChains(tier string, emit func(TreeTextCase)) {
	chainSweep(tier, func(c ProbeCase) { emit(TreeTextCase{Text: c.Expr, Expr: true}) })
}

var stepTexts = []string{".a", ".*", "..a", "..*", "[*]", "..[*]", "[a]", "['a']", "..['a']", "..[a]", "[0]", "[-1]", ".0", ".-1", "..0", "..-2", "..[0]", "[1:2]", "[:]", "[::]", "[1:]", "[:2]", "[::3]", "[1::-1]", "[-1:-2:-3]", "..[1:2]", "[:-2:]",
	"[a,b]", "['a',0,-1,1:2,b]", "..['a',0,:]", "[::2,::-2]", "[?(@.a)]", "..[?(@.a)]", "[(1)]", ".(1)", "..(1)", "..[(1)]", "[(1):(2):(3)]", "[(1)::3]", "[?(-1 - -1)]", "[?([1,'a',1.5,/b/,null,true])]", "[?(f(@,$[0])[1].b)]", "[9223372036854775807:-9223372036854775806:4194304]", "[?(a in b)]", `["\u0061\""]`, "[?('')]", "[?(/\\/x/)]"}

func treeSteps(tier string, emit func(TreeTextCase)) {
	for _, a := range stepTexts {
		emit(TreeTextCase{Text: Text("$" + a)})
		for _, b := range stepTexts {
			emit(TreeTextCase{Text: Text("$" + a + b)})
		}
	}
}

var opOfText = map[string]paths.Op{"||": paths.OpOr, "&&": paths.OpAnd, "==": paths.OpEQ, "=": paths.OpEQ, "!=": paths.OpNE, "<": paths.OpLT, "<=": paths.OpLE, ">": paths.OpGT, ">=": paths.OpGE, "=~": paths.OpMatch, "~": paths.OpMatch,
	"in": paths.OpIn, "nin": paths.OpNin, "+": paths.OpAdd, "-": paths.OpSub, "*": paths.OpMul, "/": paths.OpDiv, "%": paths.OpMod}

// node writes one node of a tree so that different trees read differently.
func node(b *strings.Builder, op paths.Op, what string) {
	fmt.Fprintf(b, "(%d %s", int(op), what)
}

func dumpRefExpr(b *strings.Builder, e *ref.Expr) {
	kids := e.Kids
	switch e.K {
	case ref.KInt:
		node(b, paths.OpInt, fmt.Sprint("int ", e.I))
	case ref.KReal:
		node(b, paths.OpReal, fmt.Sprint("real ", e.F))
	case ref.KStr:
		node(b, paths.OpString, fmt.Sprintf("string %q", e.S))
	case ref.KBool:
		node(b, paths.OpBool, fmt.Sprint("bool ", e.B))
	case ref.KNull:
		node(b, paths.OpNull, "null")
	case ref.KRegex:
		node(b, paths.OpRE, fmt.Sprintf("regexp %q", e.S))
	case ref.KName:
		node(b, paths.OpID, fmt.Sprintf("name %q", e.S))
	case ref.KCur:
		node(b, paths.OpCurrent, `name "@"`)
	case ref.KRoot:
		node(b, paths.OpRoot, `name "$"`)
	case ref.KNeg:
		node(b, paths.OpNeg, "inner")
	case ref.KNot:
		node(b, paths.OpNot, "inner")
	case ref.KBin:
		node(b, opOfText[e.Op], "inner")
	case ref.KIndex:
		node(b, paths.OpIndex, "inner")
	case ref.KDot:
		node(b, paths.OpDot, "inner")
		dumpRefExpr(b, kids[0])
		kids = []*ref.Expr{{K: ref.KName, S: e.S}}
	case ref.KCall:
		node(b, paths.OpCall, "inner")
		dumpRefExpr(b, &ref.Expr{K: ref.KName, S: e.S})
	case ref.KArray:
		node(b, paths.OpArray, "inner")
	default:
		harness("expression kind %d", e.K)
	}
	for _, k := range kids {
		dumpRefExpr(b, k)
	}
	b.WriteByte(')')
}

func dumpRefBound(b *strings.Builder, x ref.Bound) {
	switch {
	case !x.Set:
		b.WriteString(" none")
	case x.E != nil:
		dumpRefExpr(b, x.E)
	default:
		fmt.Fprintf(b, " int %d", x.N)
	}
}

func dumpRefPath(p *ref.Path) string {
	var b strings.Builder
	for _, st := range p.Steps {
		var op paths.Op
		member := !st.Bracket
		switch {
		case st.K == ref.TWild:
			op = paths.OpWild
		case st.K == ref.TFilter:
			op = paths.OpFilter
		case len(st.Sels) > 1:
			op = paths.OpUnion
		case member:
			op = paths.OpMember
		default:
			op = paths.OpSelect
		}
		if st.Nest {
			op = map[paths.Op]paths.Op{paths.OpWild: paths.OpNestWild, paths.OpFilter: paths.OpNestFilter, paths.OpUnion: paths.OpNestUnion, paths.OpMember: paths.OpNestMember, paths.OpSelect: paths.OpNestSelect}[op]
		}
		node(&b, op, "step")
		if st.E != nil {
			dumpRefExpr(&b, st.E)
		}
		for _, s := range st.Sels {
			switch s.K {
			case ref.SInt:
				fmt.Fprintf(&b, " int %d", s.N)
			case ref.SSlice:
				b.WriteString(" [")
				dumpRefBound(&b, s.Start)
				dumpRefBound(&b, s.End)
				dumpRefBound(&b, s.Stride)
				b.WriteString("]")
			default:
				if s.Bare {
					fmt.Fprintf(&b, " name %q", s.S)
				} else {
					fmt.Fprintf(&b, " string %q", s.S)
				}
			}
		}
		b.WriteByte(')')
	}
	return b.String()
}

func dumpExpr(b *strings.Builder, e paths.Expr) {
	if e == nil {
		b.WriteString("nil")
		return
	}
	op := e.Opcode()
	if e.String() == "" && op != paths.OpID {
		fmt.Fprintf(b, "%T prints as nothing", e)
	}
	_, inner := e.(*paths.Inner)
	if e.IsLeaf() == inner {
		fmt.Fprintf(b, "IsLeaf is %v of %T", e.IsLeaf(), e)
	}
	switch e := e.(type) {
	case *paths.Inner:
		node(b, op, "inner")
		for i, k := range e.Kids {
			if kid, ok := e.Kid(i); !ok || kid != k {
				fmt.Fprintf(b, "Kid(%d) is not Kids[%d]", i, i)
			}
			dumpExpr(b, k)
		}
		if kid, ok := e.Kid(len(e.Kids)); ok || kid != nil {
			fmt.Fprintf(b, "Kid(%d) of %d", len(e.Kids), len(e.Kids))
		}
	case *paths.IntLeaf:
		node(b, op, fmt.Sprint("int ", e.Val))
	case *paths.FloatLeaf:
		node(b, op, fmt.Sprint("real ", e.Val))
	case *paths.StringLeaf:
		node(b, op, fmt.Sprintf("string %q", e.Val))
	case *paths.BoolLeaf:
		node(b, op, fmt.Sprint("bool ", e.Val))
	case *paths.NullLeaf:
		node(b, op, "null")
	case *paths.NameLeaf:
		node(b, op, fmt.Sprintf("name %q", e.Name))
	case *paths.RegexpLeaf:
		if e.Prog == nil || e.Prog.String() != e.Pattern {
			fmt.Fprintf(b, "pattern %q with another program", e.Pattern)
		}
		node(b, op, fmt.Sprintf("regexp %q", e.Pattern))
	default:
		fmt.Fprintf(b, "%T", e)
	}
	b.WriteByte(')')
}

func dumpVal(b *strings.Builder, v paths.Val) {
	switch v := v.(type) {
	case nil:
		b.WriteString(" none")
	case paths.IntVal:
		fmt.Fprintf(b, " int %d", v.V())
		if v.Value() != any(v.V()) || v.String() != fmt.Sprint(v.V()) {
			b.WriteString("or another")
		}
	case paths.NameVal:
		fmt.Fprintf(b, " name %q", v.S())
		if v.Value() != any(v) || v.String() != v.S() {
			b.WriteString("or another")
		}
	case paths.StringVal:
		fmt.Fprintf(b, " string %q", v.S())
		if v.Value() != any(v.S()) || v.String() == "" {
			b.WriteString("or another")
		}
	case *paths.Slice:
		b.WriteString(" [")
		if v.String() == "" {
			b.WriteString("prints as nothing")
		}
		dumpVal(b, v.Start)
		dumpVal(b, v.End)
		dumpVal(b, v.Stride)
		b.WriteString("]")
	case paths.Expr:
		dumpExpr(b, v)
	default:
		fmt.Fprintf(b, "%T", v)
	}
}

func dumpPath(p paths.Path) string {
	var b strings.Builder
	for _, st := range p {
		if st.String() == "" {
			b.WriteString("prints as nothing")
		}
		node(&b, st.Op, "step")
		for _, a := range st.Args {
			dumpVal(&b, a)
		}
		b.WriteByte(')')
	}
	return b.String()
}

func execTreeText(c TreeTextCase) Result {
	text := string(c.Text)
	if c.Expr {
		e, err := paths.ParseScriptExpression(text)
		re, rerr := ref.ParseExpr(text)
		if (err != nil) != (rerr != nil) {
			return failf("ParseScriptExpression(%q): error %v, not %v", text, err, rerr)
		}
		if err != nil {
			if e != nil {
				return failf("ParseScriptExpression(%q): both a tree and an error", text)
			}
			return Result{Trivia: true, Labels: []string{"refused"}}
		}
		var got, want strings.Builder
		dumpExpr(&got, e)
		dumpRefExpr(&want, re)
		if got.String() != want.String() {
			return failf("the tree of %q is\n%s\nnot\n%s", text, got.String(), want.String())
		}
		return Result{Trivia: e.IsLeaf(), Labels: []string{"expression"}}
	}
	p, err := paths.ParsePath(text)
	rp, rerr := ref.ParsePath(text)
	if (err != nil) != (rerr != nil) {
		return failf("ParsePath(%q): error %v, not %v", text, err, rerr)
	}
	if err != nil {
		if p != nil {
			return failf("ParsePath(%q): both a path and an error", text)
		}
		return Result{Trivia: true, Labels: []string{"refused"}}
	}
	got, want := dumpPath(p), dumpRefPath(rp)
	if got != want {
		return failf("the steps of %q are\n%s\nnot\n%s", text, got, want)
	}
	res := Result{Trivia: len(p) == 0, Labels: stepLabels(rp)}
	// the machine takes the tree and leaves it alone
	doc := any([]any{map[string]any{"a": 1.0, "b": []any{2.0, "x"}}, []any{3.0, 4.0, 5.0}})
	if c.Doc != "" {
		doc = parseDoc(c.Doc)
	}
	out := ref.Eval(rp, doc)
	for i := 0; i < 2; i++ {
		prog, err := mach.Compile(p)
		if err != nil || prog == nil {
			return failf("mach.Compile of %q: %v, %v", text, prog, err)
		}
		if prog.String() == "" && len(p) > 0 {
			return failf("the program of %q prints as nothing", text)
		}
		for j := 0; j < 2; j++ {
			l, err := prog.Run(doc)
			if r := judge(fmt.Sprintf("program of %s", text), ref.Canon(doc), out, l, err); r.Fail != "" {
				return r
			}
			whole, werr := jsonpath.MustCompile(text).Eval(doc)
			if out.Status == ref.OK && ((err != nil) != (werr != nil) || !sameResults(l, whole, sequential(doc))) {
				return failf("program of %s on %s gives %s (%v), but Eval %s (%v)", text, ref.Canon(doc), ref.Canon(l), err, ref.Canon(whole), werr)
			}
		}
		if s := dumpPath(p); s != want {
			return failf("the steps of %q became\n%s\nfrom\n%s", text, s, want)
		}
	}
	return res
}

func init() {
	register(&Check{
		ID:   "C21",
		Rule: "the text is valid, and its tree has more than a leaf",
		Families: []*Family{
			sweep("steps", treeSteps, execTreeText),
			sweep("operator chains", treeChains, execTreeText),
			family("texts", 40000, 2000000, genTreeText, execTreeText),
		},
	})
}
