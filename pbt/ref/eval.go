package ref

import (
	"fmt"
	"math"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Nothing is the value of a failed evaluation (JavaScript's undefined).
type Nothing struct{}

// NameV is a bare name as a value.
type NameV string

// keysV is the unordered list of an object's keys.
type keysV []string

// Status says what the reference knows of an outcome.
type Status int

const (
	OK       Status = iota // results are as given
	Error                  // a run-time error
	MaybeErr               // either the results given, or a run-time error
	Unspec                 // unspecified: compare nothing
)

// Outcome is the reference's verdict for an evaluation.
type Outcome struct {
	Status Status
	Why    string // reason for Unspec
	Tree   *Node  // results for OK, MaybeErr
	Stats  Stats
}

// Stats describes what an evaluation did, for classification.
type Stats struct {
	Candidates int // filter candidates considered
	Kept       int // and kept
	Exprs      int // expressions evaluated
	Visits     int // containers visited by ".."
	Shorts     int // short-circuited operands
	Funcs      int // function calls
	BigSlice   int // slices selecting something
}

// Node is a tree of results: a leaf, a sequence in order, or a set of
// sequences in any order, each kept together.
type Node struct {
	Leaf bool
	V    any
	Perm bool
	Kids []*Node
	n    int
}

func leaf(v any) *Node { return &Node{Leaf: true, V: v, n: 1} }

func group(perm bool, kids []*Node) *Node {
	n := 0
	var live []*Node
	for _, k := range kids {
		if k.n > 0 {
			n += k.n
			live = append(live, k)
		}
	}
	if len(live) == 1 {
		return live[0]
	}
	return &Node{Perm: perm, Kids: live, n: n}
}

// Len is the number of results.
func (n *Node) Len() int { return n.n }

// Flat lists the results in one permitted order.
func (n *Node) Flat() []any {
	var l []any
	n.flat(&l)
	return l
}

func (n *Node) flat(l *[]any) {
	if n.Leaf {
		*l = append(*l, n.V)
		return
	}
	for _, k := range n.Kids {
		k.flat(l)
	}
}

type unspecified string

// Ev is an evaluation.
type Ev struct {
	root  any
	err   bool
	maybe bool
	st    Stats
}

// Eval applies path to root.
func Eval(path *Path, root any) (out Outcome) {
	ev := &Ev{root: root}
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unspecified); ok {
				out = Outcome{Status: Unspec, Why: string(u), Stats: ev.st}
				return
			}
			panic(r)
		}
	}()
	cur := leaf(root)
	for _, st := range path.Steps {
		cur = ev.step(st, cur)
		if ev.err {
			return Outcome{Status: Error, Stats: ev.st}
		}
	}
	s := OK
	if ev.maybe {
		s = MaybeErr
	}
	return Outcome{Status: s, Tree: cur, Stats: ev.st}
}

// EvalExpr evaluates an expression with a given @, returning its value.
func EvalExpr(e *Expr, root, dot any) (v any, out Outcome) {
	ev := &Ev{root: root}
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unspecified); ok {
				out = Outcome{Status: Unspec, Why: string(u)}
				return
			}
			panic(r)
		}
	}()
	v = ev.expr(e, dot, true)
	switch {
	case ev.err:
		return nil, Outcome{Status: Error}
	case ev.maybe:
		return v, Outcome{Status: MaybeErr}
	}
	return v, Outcome{Status: OK}
}

func (ev *Ev) unspec(format string, args ...any) {
	panic(unspecified(fmt.Sprintf(format, args...)))
}

// each applies f to each leaf, keeping the shape.
func each(n *Node, f func(v any) *Node) *Node {
	if n.Leaf {
		return f(n.V)
	}
	kids := make([]*Node, len(n.Kids))
	for i, k := range n.Kids {
		kids[i] = each(k, f)
	}
	return group(n.Perm, kids)
}

var empty = &Node{}

func sortedKeys(m map[string]any) []string {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
}

func isContainer(v any) bool {
	switch v.(type) {
	case []any, map[string]any:
		return true
	}
	return false
}

// children applies f to each element or member value.
func children(v any, f func(any) *Node) *Node {
	switch v := v.(type) {
	case []any:
		kids := make([]*Node, len(v))
		for i, el := range v {
			kids[i] = f(el)
		}
		return group(false, kids)
	case map[string]any:
		kids := make([]*Node, 0, len(v))
		for _, k := range sortedKeys(v) {
			kids = append(kids, f(v[k]))
		}
		return group(true, kids)
	}
	return empty
}

// walk visits containers, each before its contents.
func walk(v any, f func(any) *Node) *Node {
	if !isContainer(v) {
		return empty
	}
	head := f(v)
	rest := children(v, func(c any) *Node { return walk(c, f) })
	return group(false, []*Node{head, rest})
}

func (ev *Ev) step(st *Step, cur *Node) *Node {
	if st.K == TExpr && !st.Nest {
		if cur.Len() == 0 {
			// whether the expression is then evaluated is not settled
			if ev.speculate(func() { ev.expr(st.E, nil, false) }) {
				ev.maybe = true
			}
			return empty
		}
		sel := ev.expr(st.E, nil, false)
		if ev.err {
			return empty
		}
		return each(cur, func(v any) *Node { return ev.byValue(v, sel, st.Bracket) })
	}
	apply := func(v any) *Node {
		switch st.K {
		case TWild:
			return children(v, leaf)
		case TExpr:
			sel := ev.expr(st.E, v, true)
			if ev.err {
				return empty
			}
			return ev.byValue(v, sel, st.Bracket)
		default:
			kids := make([]*Node, len(st.Sels))
			for i := range st.Sels {
				kids[i] = ev.sel(v, &st.Sels[i], st.Bracket)
			}
			return group(false, kids)
		}
	}
	if st.K == TFilter {
		test := func(v any) *Node {
			ev.st.Candidates++
			if ev.err {
				return empty
			}
			ok := truthy(ev.expr(st.E, v, true))
			if ok && !ev.err {
				ev.st.Kept++
				return leaf(v)
			}
			return empty
		}
		if st.Nest {
			apply = test
		} else {
			apply = func(v any) *Node { return children(v, test) }
		}
	}
	if st.Nest {
		visit := func(v any) *Node { ev.st.Visits++; return apply(v) }
		return each(cur, func(v any) *Node { return walk(v, visit) })
	}
	return each(cur, apply)
}

// speculate runs f, reporting whether it raised an error, which is discarded.
func (ev *Ev) speculate(f func()) bool {
	saved := ev.err
	ev.err = false
	f()
	raised := ev.err
	ev.err = saved
	return raised
}

// sel applies a constant selector.
func (ev *Ev) sel(v any, s *Sel, bracket bool) *Node {
	switch s.K {
	case SName:
		if m, ok := v.(map[string]any); ok {
			if el, ok := m[s.S]; ok {
				return leaf(el)
			}
		}
	case SInt:
		switch v := v.(type) {
		case []any:
			return element(v, s.N, bracket)
		case map[string]any:
			if el, ok := v[strconv.FormatInt(s.N, 10)]; ok {
				return leaf(el)
			}
		}
	case SSlice:
		if s.Start.E != nil || s.End.E != nil || s.Stride.E != nil {
			ev.unspec("expression as slice bound")
		}
		a, ok := v.([]any)
		if !ok {
			return empty
		}
		var kids []*Node
		for _, i := range SliceIndices(s, len(a)) {
			kids = append(kids, leaf(a[i]))
		}
		if len(kids) > 0 {
			ev.st.BigSlice++
		}
		return group(false, kids)
	}
	return empty
}

func element(a []any, n int64, neg bool) *Node {
	if n < 0 && neg {
		n += int64(len(a))
	}
	if n >= 0 && n < int64(len(a)) {
		return leaf(a[n])
	}
	return empty
}

// SliceIndices lists the indices selected by a slice of constant bounds, by the definition:
// all positions p = start + k*stride that lie in range and strictly before end.
// It is written with big integers and a scan over candidate positions, not clamping.
func SliceIndices(s *Sel, length int) []int {
	l := big.NewInt(int64(length))
	stride := int64(1)
	if s.Stride.Set {
		stride = s.Stride.N
	}
	if stride == 0 {
		return nil
	}
	norm := func(b Bound, def *big.Int) *big.Int {
		if !b.Set {
			return def
		}
		n := big.NewInt(b.N)
		if n.Sign() < 0 {
			n.Add(n, l)
		}
		return n
	}
	var start, end *big.Int
	if stride > 0 {
		start = norm(s.Start, big.NewInt(0))
		if start.Sign() < 0 {
			start.SetInt64(0) // clamped
		}
		end = norm(s.End, l)
	} else {
		last := new(big.Int).Sub(l, big.NewInt(1))
		start = norm(s.Start, last)
		if start.Cmp(last) > 0 {
			start.Set(last)
		}
		end = norm(s.End, big.NewInt(-1))
		if end.Sign() < 0 {
			end.SetInt64(-1)
		}
	}
	var out []int
	// test every position in range, in the direction of the stride
	step := big.NewInt(stride)
	test := func(i int) {
		p := big.NewInt(int64(i))
		d := new(big.Int).Sub(p, start)
		if d.Sign() != 0 && d.Sign() != step.Sign() {
			return
		}
		if new(big.Int).Rem(d, step).Sign() != 0 {
			return
		}
		if stride > 0 && p.Cmp(end) >= 0 || stride < 0 && p.Cmp(end) <= 0 {
			return
		}
		out = append(out, i)
	}
	if stride > 0 {
		for i := 0; i < length; i++ {
			test(i)
		}
	} else {
		for i := length - 1; i >= 0; i-- {
			test(i)
		}
	}
	return out
}

// toIndex truncates a number to an integer, if it has one.
func (ev *Ev) toIndex(f float64) int64 {
	t := math.Trunc(f)
	if math.IsNaN(t) || t < -9e18 || t > 9e18 {
		ev.unspec("number out of integer range as index")
	}
	return int64(t)
}

// byValue selects by the value of an expression in a path.
func (ev *Ev) byValue(v any, key any, bracket bool) *Node {
	switch v := v.(type) {
	case []any:
		switch key := key.(type) {
		case int64:
			return element(v, key, bracket)
		case float64:
			return element(v, ev.toIndex(key), bracket)
		case bool, NameV, *regexp.Regexp:
			ev.unspec("array indexed by %T", key)
		case string:
			return empty
		}
		return empty
	case map[string]any:
		var s string
		switch key := key.(type) {
		case string:
			s = key
		case int64:
			s = strconv.FormatInt(key, 10)
		case float64:
			s = strconv.FormatInt(ev.toIndex(key), 10)
		case Nothing:
			return empty
		case NameV, *regexp.Regexp:
			ev.unspec("object member by %T", key)
		case bool:
			if _, ok := v[strconv.FormatBool(key)]; ok {
				ev.unspec("object member named true or false by boolean")
			}
			return empty
		default:
			return empty // no other value names a member
		}
		if el, ok := v[s]; ok {
			return leaf(el)
		}
	}
	return empty
}

func truthy(v any) bool {
	switch v := v.(type) {
	case nil, Nothing:
		return false
	case bool:
		return v
	case int64:
		return v != 0
	case float64:
		return v == v && v != 0
	case string:
		return v != ""
	}
	return true
}

func (ev *Ev) raise() any {
	ev.err = true
	return Nothing{}
}

func isNone(v any) bool { _, ok := v.(Nothing); return ok }

func (ev *Ev) expr(e *Expr, dot any, inLoop bool) any {
	ev.st.Exprs++
	if ev.err {
		return Nothing{}
	}
	switch e.K {
	case KInt:
		return e.I
	case KReal:
		return e.F
	case KStr:
		return e.S
	case KBool:
		return e.B
	case KNull:
		return nil
	case KRegex:
		return e.Re
	case KName:
		return NameV(e.S)
	case KRoot:
		return ev.root
	case KCur:
		if !inLoop {
			ev.unspec("@ outside a filter or ..")
		}
		return dot
	case KArray:
		a := make([]any, len(e.Kids))
		for i, k := range e.Kids {
			a[i] = ev.expr(k, dot, inLoop)
			switch x := a[i].(type) {
			case *regexp.Regexp, NameV:
				ev.unspec("%T in array", x)
			case keysV:
				a[i] = ev.plainKeys(x)
			}
		}
		return a
	case KCall:
		args := make([]any, len(e.Kids))
		for i, k := range e.Kids {
			args[i] = ev.expr(k, dot, inLoop)
			switch x := args[i].(type) {
			case *regexp.Regexp, NameV:
				ev.unspec("%T as argument", x)
			}
		}
		if ev.err {
			return Nothing{}
		}
		ev.st.Funcs++
		return ev.call(e.S, args)
	case KNot:
		return !truthy(ev.value(e.Kids[0], dot, inLoop))
	case KNeg:
		v := ev.value(e.Kids[0], dot, inLoop)
		switch v := v.(type) {
		case int64:
			return -v
		case float64:
			return -v
		case bool:
			if v {
				return int64(-1)
			}
			return int64(0)
		case nil:
			ev.unspec("- null")
		case string:
			f, num := ev.number(v)
			if !num {
				return Nothing{}
			}
			if i, ok := smallInt(v); ok {
				return -i
			}
			if v == "" {
				return int64(0)
			}
			return -f
		}
		return Nothing{}
	case KDot:
		v := ev.value(e.Kids[0], dot, inLoop)
		if k, ok := v.(keysV); ok {
			if e.S == "length" {
				return int64(len(k))
			}
			return Nothing{}
		}
		if m, ok := v.(map[string]any); ok {
			if el, ok := m[e.S]; ok {
				return el
			}
		}
		if e.S == "length" {
			switch v := v.(type) {
			case []any:
				return int64(len(v))
			case map[string]any:
				return int64(len(v))
			case string:
				return int64(utf8.RuneCountInString(v))
			}
		}
		return Nothing{}
	case KIndex:
		v := ev.value(e.Kids[0], dot, inLoop)
		ix := ev.expr(e.Kids[1], dot, inLoop)
		return ev.index(v, ix)
	case KBin:
		return ev.bin(e, dot, inLoop)
	}
	panic("ref: bad expression kind")
}

// value evaluates an operand, excluding values with no documented meaning as operands.
func (ev *Ev) value(e *Expr, dot any, inLoop bool) any {
	v := ev.expr(e, dot, inLoop)
	switch v := v.(type) {
	case NameV, *regexp.Regexp:
		ev.unspec("%T as operand", v)
	}
	return v
}

// plainKeys makes a keys list an ordinary array if its order cannot matter.
func (ev *Ev) plainKeys(k keysV) any {
	if len(k) > 1 {
		ev.unspec("order of keys()")
	}
	a := make([]any, len(k))
	for i, s := range k {
		a[i] = s
	}
	return a
}

func (ev *Ev) index(v, ix any) any {
	if isNone(v) || isNone(ix) {
		return Nothing{}
	}
	if k, ok := v.(keysV); ok {
		v = ev.plainKeys(k)
	}
	if k, ok := ix.(keysV); ok {
		ix = ev.plainKeys(k)
	}
	switch v := v.(type) {
	case []any:
		var n int64
		switch ix := ix.(type) {
		case int64:
			n = ix
		case float64:
			n = ev.toIndex(ix)
			if float64(n) != ix {
				ev.unspec("fractional index")
			}
		case string:
			i, ok := smallInt(ix)
			if !ok {
				return Nothing{} // not the text of an integer
			}
			if i < 0 || strconv.FormatInt(i, 10) != ix {
				ev.unspec("odd integer string as index")
			}
			n = i
		case bool, NameV, *regexp.Regexp:
			ev.unspec("index by %T", ix)
		default:
			return Nothing{}
		}
		if n < 0 {
			n += int64(len(v))
		}
		if n < 0 || n >= int64(len(v)) {
			return Nothing{}
		}
		return v[n]
	case map[string]any:
		nd := ev.byValue(v, ix, true)
		if nd.Len() == 0 {
			return Nothing{}
		}
		return nd.V
	}
	switch ix.(type) {
	case NameV, *regexp.Regexp:
		ev.unspec("index by %T", ix)
	}
	return Nothing{}
}

func isNum(v any) bool {
	switch v.(type) {
	case int64, float64:
		return true
	}
	return false
}

func isArith(v any) bool {
	_, ok := v.(bool)
	return ok || isNum(v)
}

func toInt(v any) (int64, bool) {
	switch v := v.(type) {
	case int64:
		return v, true
	case bool:
		if v {
			return 1, true
		}
		return 0, true
	}
	return 0, false
}

func toFloat(v any) float64 {
	switch v := v.(type) {
	case float64:
		return v
	case int64:
		return float64(v)
	case bool:
		if v {
			return 1
		}
		return 0
	}
	return math.NaN()
}

func (ev *Ev) bin(e *Expr, dot any, inLoop bool) any {
	op := e.Op
	switch op {
	case "&&", "||":
		a := ev.value(e.Kids[0], dot, inLoop)
		if ev.err {
			return Nothing{}
		}
		if truthy(a) == (op == "||") {
			// JavaScript does not evaluate the other operand
			ev.st.Shorts++
			if ev.speculate(func() { ev.value(e.Kids[1], dot, inLoop) }) {
				ev.maybe = true
			}
			return a
		}
		return ev.value(e.Kids[1], dot, inLoop)
	case "=~", "~":
		a := ev.expr(e.Kids[0], dot, inLoop)
		b := ev.expr(e.Kids[1], dot, inLoop)
		if ev.err || isNone(a) || isNone(b) {
			return Nothing{}
		}
		switch a.(type) {
		case NameV, *regexp.Regexp:
			ev.unspec("match of %T", a)
		}
		var re *regexp.Regexp
		switch b := b.(type) {
		case *regexp.Regexp:
			re = b
		case string:
			var err error
			re, err = regexp.Compile(b)
			if err != nil {
				return ev.raise()
			}
		case NameV:
			ev.unspec("match with a name")
		default:
			return ev.raise()
		}
		s, ok := a.(string)
		if !ok {
			return ev.raise()
		}
		return re.MatchString(s)
	}
	a := ev.value(e.Kids[0], dot, inLoop)
	b := ev.value(e.Kids[1], dot, inLoop)
	if ev.err {
		return Nothing{}
	}
	switch op {
	case "in", "nin":
		if isNone(a) || isNone(b) {
			return Nothing{}
		}
		if k, ok := a.(keysV); ok {
			a = ev.plainKeys(k)
		}
		var l []any
		switch b := b.(type) {
		case []any:
			l = b
		case keysV:
			for _, s := range b {
				l = append(l, s)
			}
		default:
			return ev.raise()
		}
		found := false
		for _, el := range l {
			if ev.equal(el, a) {
				found = true
			}
		}
		return found == (op == "in")
	case "==", "!=":
		if k, ok := a.(keysV); ok {
			a = ev.plainKeys(k)
		}
		if k, ok := b.(keysV); ok {
			b = ev.plainKeys(k)
		}
		return ev.equal(a, b) == (op == "==")
	case "<", "<=", ">", ">=":
		return ev.relation(op, a, b)
	}
	// arithmetic
	if !isArith(a) || !isArith(b) {
		return Nothing{}
	}
	x, xi := toInt(a)
	y, yi := toInt(b)
	if xi && yi {
		bx, by := big.NewInt(x), big.NewInt(y)
		var r *big.Int
		switch op {
		case "+":
			r = bx.Add(bx, by)
		case "-":
			r = bx.Sub(bx, by)
		case "*":
			r = bx.Mul(bx, by)
		case "/", "%":
			if y == 0 {
				return Nothing{}
			}
			if op == "/" {
				r = bx.Quo(bx, by)
			} else {
				r = bx.Rem(bx, by)
			}
		}
		if !r.IsInt64() {
			ev.unspec("integer overflow")
		}
		return r.Int64()
	}
	f, g := toFloat(a), toFloat(b)
	var r float64
	switch op {
	case "+":
		r = f + g
	case "-":
		r = f - g
	case "*":
		r = f * g
	case "/":
		if g == 0 {
			return Nothing{}
		}
		r = f / g
	case "%":
		if g == 0 {
			return Nothing{}
		}
		r = math.Mod(f, g)
	}
	if math.IsNaN(r) {
		ev.unspec("NaN")
	}
	return r
}

func (ev *Ev) relation(op string, a, b any) any {
	if isNone(a) || isNone(b) {
		return Nothing{}
	}
	c := 0
	sa, oka := a.(string)
	sb, okb := b.(string)
	switch {
	case oka && okb:
		c = strings.Compare(sa, sb)
	case isArith(a) && isArith(b):
		x, xi := toInt(a)
		y, yi := toInt(b)
		if xi && yi {
			c = cmp(x, y)
			break
		}
		f, g := toFloat(a), toFloat(b)
		c = cmp(f, g)
		if exact := exactCmp(a, b); exact != c {
			ev.unspec("comparison of large integer with real")
		}
	default:
		return false
	}
	switch op {
	case "<":
		return c < 0
	case "<=":
		return c <= 0
	case ">":
		return c > 0
	}
	return c >= 0
}

func cmp[T int64 | float64](a, b T) int {
	switch {
	case a < b:
		return -1
	case a > b:
		return 1
	}
	return 0
}

func exactCmp(a, b any) int {
	conv := func(v any) *big.Float {
		if i, ok := toInt(v); ok {
			return new(big.Float).SetPrec(200).SetInt64(i)
		}
		return new(big.Float).SetPrec(200).SetFloat64(v.(float64))
	}
	return conv(a).Cmp(conv(b))
}

var (
	plainNumber = regexp.MustCompile(`^[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?$`)
	plainInt    = regexp.MustCompile(`^[+-]?[0-9]+$`)
	oddNumber   = regexp.MustCompile(`(?i)^\s*[+-]?(0[xob]|inf|nan)`)
)

// smallInt returns the integer written as s.
func smallInt(s string) (int64, bool) {
	if !plainInt.MatchString(s) {
		return 0, false
	}
	n, err := strconv.ParseInt(s, 10, 64)
	return n, err == nil
}

// number converts a string to a number as JavaScript does, if it has one.
func (ev *Ev) number(s string) (float64, bool) {
	if s == "" {
		return 0, true
	}
	t := strings.TrimSpace(s)
	if t != s || t == "" {
		if t == "" || plainNumber.MatchString(t) || oddNumber.MatchString(t) {
			ev.unspec("white space in numeric string")
		}
		return 0, false
	}
	if oddNumber.MatchString(s) || strings.Contains(s, "_") {
		if strings.Contains(s, "_") && !oddNumber.MatchString(s) {
			return 0, false
		}
		ev.unspec("odd numeric string")
	}
	if !plainNumber.MatchString(s) {
		return 0, false
	}
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		ev.unspec("numeric string out of range")
	}
	return f, true
}

// equal is ==.
func (ev *Ev) equal(a, b any) bool {
	noneA, noneB := isNone(a) || a == nil, isNone(b) || b == nil
	if noneA || noneB {
		return noneA && noneB
	}
	switch x := a.(type) {
	case []any:
		switch y := b.(type) {
		case []any:
			if len(x) != len(y) {
				return false
			}
			eq := true
			for i := range x {
				if !ev.equal(x[i], y[i]) {
					eq = false
				}
			}
			return eq
		case map[string]any:
			return false
		}
		return ev.arrayPrim(x, b)
	case map[string]any:
		switch y := b.(type) {
		case []any:
			return false
		case map[string]any:
			if len(x) != len(y) {
				return false
			}
			eq := true
			for k, v := range x {
				w, ok := y[k]
				if !ok || !ev.equal(v, w) {
					eq = false
				}
			}
			return eq
		}
		return ev.objectPrim(b)
	}
	switch y := b.(type) {
	case []any:
		return ev.arrayPrim(y, a)
	case map[string]any:
		return ev.objectPrim(a)
	}
	return ev.primEqual(a, b)
}

func (ev *Ev) objectPrim(v any) bool {
	if s, ok := v.(string); ok && strings.HasPrefix(s, "[object") {
		ev.unspec("object against its JavaScript text")
	}
	return false
}

// primEqual compares booleans, numbers and strings.
func (ev *Ev) primEqual(a, b any) bool {
	sa, oka := a.(string)
	sb, okb := b.(string)
	if oka && okb {
		return sa == sb
	}
	if okb {
		a, b = b, a
		sa, oka = sb, true
	}
	if oka {
		// string against number or boolean
		f, num := ev.number(sa)
		if !num {
			return false
		}
		if i, ok := smallInt(sa); ok {
			byInt := ev.numEqual(i, b)
			if byInt != (f == toFloat(b)) {
				ev.unspec("large integer against string")
			}
			return byInt
		}
		return ev.numEqual(f, b)
	}
	return ev.numEqual(a, b)
}

func (ev *Ev) numEqual(a, b any) bool {
	x, xi := toInt(a)
	y, yi := toInt(b)
	if xi && yi {
		return x == y
	}
	eq := toFloat(a) == toFloat(b)
	if !math.IsInf(toFloat(a), 0) && !math.IsInf(toFloat(b), 0) && (exactCmp(a, b) == 0) != eq {
		ev.unspec("large integer against real")
	}
	return eq
}

// arrayPrim compares an array with a boolean, number or string.
// The answer is required only where converting the array to a string, as JavaScript does,
// and comparing its content agree.
func (ev *Ev) arrayPrim(a []any, v any) bool {
	text, ok := jsText(a)
	if !ok {
		ev.unspec("array text")
	}
	js := ev.primEqual(text, v)
	var content bool
	switch {
	case len(a) == 0:
		content = js
	case len(a) == 1:
		content = ev.equal(a[0], v)
	default:
		content = false
	}
	if js != content {
		ev.unspec("array against %T: text and content disagree", v)
	}
	return js
}

// jsText is Array.prototype.toString.
func jsText(v any) (string, bool) {
	switch v := v.(type) {
	case nil, Nothing:
		return "", true
	case bool:
		return strconv.FormatBool(v), true
	case int64:
		return strconv.FormatInt(v, 10), true
	case float64:
		if v == 0 {
			return "0", true
		}
		if math.IsNaN(v) || math.IsInf(v, 0) {
			return "", false
		}
		if abs := math.Abs(v); abs < 1e-6 || abs >= 1e21 {
			t := strconv.FormatFloat(v, 'e', -1, 64)
			m, x, _ := strings.Cut(t, "e")
			return m + "e" + x[:1] + strings.TrimLeft(x[1:], "0"), true
		}
		return strconv.FormatFloat(v, 'f', -1, 64), true
	case string:
		return v, true
	case map[string]any:
		return "[object Object]", true
	case []any:
		parts := make([]string, len(v))
		for i, el := range v {
			s, ok := jsText(el)
			if !ok {
				return "", false
			}
			parts[i] = s
		}
		return strings.Join(parts, ","), true
	}
	return "", false
}
