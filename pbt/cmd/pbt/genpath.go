package main

import (
	"math"
	"strconv"

	"verif/pbt/ref"

	"pgregory.net/rapid"
)

// Generator of paths that follow a document.

type pathCfg struct {
	steps   int // at most
	w       [8]int
	nest    int // chance in 16 of ".."
	errs    int
	depth   int // of expressions
	bigIdx  bool
	noRoot  bool // expressions do not mention $
	maxNest int  // number of ".." steps allowed, if positive
	last    int  // if positive, the kind of the last step, plus 1
	exprGen func(g *exprGen) *ref.Expr
}

// weights of name, index, wild, union, slice, expression, filter, (unused)
var stdPath = pathCfg{steps: 5, w: [8]int{8, 4, 4, 3, 3, 2, 3}, nest: 3, depth: 2}

type pathGen struct {
	t    *rapid.T
	doc  any
	cfg  pathCfg
	cur  []any
	path *ref.Path
}

func (g *pathGen) target(ok func(any) bool) any {
	if len(g.cur) == 0 {
		return nil
	}
	var l []any
	for _, v := range g.cur {
		if ok(v) {
			l = append(l, v)
		}
	}
	if len(l) == 0 {
		return nil
	}
	return pick(g.t, l)
}

func isContainer(v any) bool {
	switch v.(type) {
	case []any, map[string]any:
		return true
	}
	return false
}

func isObject(v any) bool { _, ok := v.(map[string]any); return ok }
func isArray(v any) bool  { _, ok := v.([]any); return ok }

func (g *pathGen) nameSel() ref.Sel {
	k := ""
	if m, ok := g.target(func(v any) bool { return isObject(v) && len(v.(map[string]any)) > 0 }).(map[string]any); ok && chance(g.t, 9, 10) {
		k = pick(g.t, sortedKeys(m))
	} else if chance(g.t, 3, 4) {
		k = pick(g.t, plainKeys)
	} else {
		k = pick(g.t, oddKeys)
	}
	return ref.Sel{K: ref.SName, S: k, Bare: identifier(k, true) && bit.Draw(g.t, "")}
}

var hugeBounds = []int64{math.MaxInt64, math.MaxInt64 - 1, -math.MaxInt64 + 1, 1 << 31, -1 << 31, 1 << 32, 1 << 62, -1 << 62, 1<<22 - 1, 1 << 22, 1 << 23, -1 << 22, -1<<23 - 1, 1<<53 + 1, 65536, 1 << 21, -1 << 21, -1<<21 - 1}

func (g *pathGen) intNear(n int) int64 {
	if g.cfg.bigIdx && chance(g.t, 1, 4) || chance(g.t, 1, 60) {
		return pick(g.t, hugeBounds)
	}
	switch weighted(g.t, 4, 2, 1) {
	case 0:
		return int64(below(g.t, n+1))
	case 1:
		return -int64(below(g.t, n+2))
	}
	return int64(between(g.t, -n-3, n+3))
}

func (g *pathGen) intSel() ref.Sel {
	v := g.target(isContainer)
	switch v := v.(type) {
	case []any:
		return ref.Sel{K: ref.SInt, N: g.intNear(len(v))}
	case map[string]any:
		for _, k := range sortedKeys(v) {
			if n, err := strconv.ParseInt(k, 10, 64); err == nil && chance(g.t, 2, 3) {
				return ref.Sel{K: ref.SInt, N: n}
			}
		}
	}
	return ref.Sel{K: ref.SInt, N: g.intNear(3)}
}

func (g *pathGen) sliceSel() ref.Sel {
	n := 4
	if a, ok := g.target(isArray).([]any); ok {
		n = len(a)
	}
	s := ref.Sel{K: ref.SSlice}
	b := func(p int) ref.Bound {
		if !chance(g.t, p, 4) {
			return ref.Bound{}
		}
		return ref.Bound{Set: true, N: g.intNear(n)}
	}
	s.Start = b(2)
	s.End = b(2)
	if chance(g.t, 2, 5) {
		s.Stride = ref.Bound{Set: true, N: pick(g.t, []int64{1, -1, 2, -2, 3, -3, 0, 7, -7})}
		if g.cfg.bigIdx && chance(g.t, 1, 3) {
			s.Stride.N = pick(g.t, hugeBounds)
		}
	}
	return s
}

func (g *pathGen) eg(dots []any) *exprGen {
	e := newExprGen(g.t, g.doc, dots)
	e.errs = g.cfg.errs
	if g.cfg.noRoot {
		e.root = nil
		if len(dots) > 0 {
			e.root = dots[0]
		}
	}
	return e
}

// keyExpr is an expression for a subscript.
func (g *pathGen) keyExpr(nest bool) *ref.Expr {
	var dots []any
	if nest {
		for _, v := range g.cur {
			for _, s := range subvalues(v, 30) {
				if isContainer(s) {
					dots = append(dots, s)
				}
			}
		}
	}
	e := g.eg(dots)
	switch v := g.target(isContainer).(type) {
	case map[string]any:
		if len(v) > 0 && chance(g.t, 2, 3) {
			k := pick(g.t, sortedKeys(v))
			switch below(g.t, 4) {
			case 0:
				return eStr(k)
			case 1:
				return eBin("||", eBool(false), eStr(k))
			case 2:
				if n, err := strconv.ParseInt(k, 10, 64); err == nil {
					return eBin("+", eInt(n-1), eInt(1))
				}
				return eBin("&&", eInt(1), eStr(k))
			default:
				return e.expr(wStr, 1)
			}
		}
	case []any:
		if len(v) > 0 && chance(g.t, 2, 3) {
			switch below(g.t, 5) {
			case 0:
				return eInt(int64(below(g.t, len(v))))
			case 1:
				return eBin("-", eCall("length", literalOrRoot(v)), eInt(int64(1+below(g.t, len(v)))))
			case 2:
				return eReal(float64(below(g.t, len(v))) + 0.5)
			case 3:
				return eInt(-int64(1 + below(g.t, len(v))))
			}
		}
	}
	return e.expr(pick(g.t, []want{wNum, wStr, wAny}), g.cfg.depth)
}

func literalOrRoot(v any) *ref.Expr {
	if e := literal(v); e != nil && len(plainExpr(e)) < 60 {
		return e
	}
	return eRoot()
}

func (g *pathGen) step(last bool) *ref.Step {
	st := &ref.Step{Nest: chance(g.t, g.cfg.nest, 16)}
	if g.cfg.maxNest > 0 {
		n := 0
		for _, s := range g.path.Steps {
			if s.Nest {
				n++
			}
		}
		if n >= g.cfg.maxNest {
			st.Nest = false
		}
	}
	save := g.cur
	defer func() { g.cur = save }()
	if st.Nest {
		// anything below is a target
		var l []any
		for _, v := range g.cur {
			for _, s := range subvalues(v, 40) {
				if isContainer(s) {
					l = append(l, s)
				}
			}
		}
		g.cur = l
	}
	w := g.cfg.w
	hasObj := g.target(isObject) != nil
	if !hasObj {
		w[0] = (w[0] + 5) / 6
	}
	kind := weighted(g.t, w[:]...)
	if last && g.cfg.last > 0 {
		kind = g.cfg.last - 1
	}
	switch kind {
	case 0:
		s := g.nameSel()
		st.Sels = []ref.Sel{s}
		st.Bracket = !s.Bare || chance(g.t, 1, 8)
	case 1:
		s := g.intSel()
		st.Sels = []ref.Sel{s}
		st.Bracket = chance(g.t, 2, 3)
	case 2:
		st.K = ref.TWild
		st.Bracket = bit.Draw(g.t, "")
	case 3:
		st.Bracket = true
		n := 2 + below(g.t, 3)
		for i := 0; i < n; i++ {
			switch weighted(g.t, 3, 3, 2) {
			case 0:
				st.Sels = append(st.Sels, g.nameSel())
			case 1:
				st.Sels = append(st.Sels, g.intSel())
			default:
				st.Sels = append(st.Sels, g.sliceSel())
			}
		}
	case 4:
		st.Bracket = true
		st.Sels = []ref.Sel{g.sliceSel()}
	case 5:
		st.K = ref.TExpr
		st.Bracket = chance(g.t, 3, 4)
		st.E = g.keyExpr(st.Nest)
	default:
		st.K = ref.TFilter
		st.Bracket = true
		st.E = g.filter(st.Nest)
	}
	return st
}

func (g *pathGen) filter(nest bool) *ref.Expr {
	var dots []any
	for _, v := range g.cur {
		if nest {
			dots = append(dots, v)
			continue
		}
		switch v := v.(type) {
		case []any:
			dots = append(dots, v...)
		case map[string]any:
			for _, k := range sortedKeys(v) {
				dots = append(dots, v[k])
			}
		}
	}
	if len(dots) == 0 {
		dots = []any{nil}
	}
	if len(dots) > 40 {
		dots = dots[:40]
	}
	e := g.eg(dots)
	if g.cfg.exprGen != nil {
		return g.cfg.exprGen(e)
	}
	return e.expr(pick(g.t, []want{wBool, wBool, wBool, wAny}), 1+below(g.t, g.cfg.depth+1))
}

// follow computes the current values after the path so far.
func (g *pathGen) follow() {
	p := g.path
	g.cur = nil
	// resolve regular expressions and the like by parsing the text again
	rp, err := ref.ParsePath(plainPath(p))
	if err != nil {
		harness("generated path does not parse: %q: %v", plainPath(p), err)
	}
	out := ref.Eval(rp, g.doc)
	if out.Tree != nil {
		g.cur = out.Tree.Flat()
		if len(g.cur) > 200 {
			g.cur = g.cur[:200]
		}
	}
}

func genPath(t *rapid.T, doc any, cfg pathCfg) *ref.Path {
	g := &pathGen{t: t, doc: doc, cfg: cfg, cur: []any{doc}, path: &ref.Path{}}
	n := 1 + below(t, cfg.steps)
	for i := 0; i < n; i++ {
		before := g.cur
		g.path.Steps = append(g.path.Steps, g.step(i+1 == n))
		for try := 0; try < 3; try++ {
			g.follow()
			if len(g.cur) > 0 || chance(t, 1, 6) {
				break
			}
			// selects nothing: usually try another
			g.cur = before
			g.path.Steps[i] = g.step(i+1 == n)
		}
		if i+1 == n {
			break
		}
		g.follow()
		if cfg.last > 0 {
			if !anyContainer(g.cur) { // start over with just the last
				g.cur = before
				g.path.Steps = g.path.Steps[:len(g.path.Steps)-1]
				n, i = len(g.path.Steps)+1, len(g.path.Steps)-1
			}
			continue
		}
		if len(g.cur) == 0 && chance(t, 2, 3) {
			break
		}
		if !anyContainer(g.cur) && chance(t, 3, 4) {
			break
		}
	}
	return g.path
}

func anyContainer(l []any) bool {
	for _, v := range l {
		if isContainer(v) {
			return true
		}
	}
	return false
}
