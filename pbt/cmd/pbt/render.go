package main

import (
	"fmt"
	"strconv"
	"strings"
	"unicode/utf16"
	"unicode/utf8"

	"verif/pbt/ref"

	"pgregory.net/rapid"
)

// Renderer of ASTs as text. With t nil the spelling is plain; otherwise layout, redundant
// parentheses, quotes and escapes are drawn.
type renderer struct {
	t      *rapid.T
	toks   []string
	space  int // chance in 16 of white space between tokens
	parens int // chance in 16 of redundant parentheses
	full   bool
	fancy  int // chance in 16 of an escape for a character that needs none
	forms  bool
}

func (r *renderer) ch(n int) bool { return r.t != nil && n > 0 && chance(r.t, n, 16) }

func (r *renderer) tok(s ...string) { r.toks = append(r.toks, s...) }

func nameByte(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c >= 0x80 || c >= '0' && c <= '9'
}

// mustSpace reports whether tokens a and b would run together.
func mustSpace(a, b string) bool {
	if a == "" || b == "" {
		return false
	}
	x, y := a[len(a)-1], b[0]
	if nameByte(x) && nameByte(y) && x != '/' {
		return true
	}
	if x >= '0' && x <= '9' && y == '.' {
		return true
	}
	if a == "." && y == '.' {
		return true
	}
	return false
}

var spaces = []string{" ", "  ", "\t", "\n", "\r\n", " \t "}

func (r *renderer) String() string {
	var b strings.Builder
	for i, t := range r.toks {
		if i > 0 || r.ch(r.space/4) {
			if r.ch(r.space) {
				b.WriteString(pick(r.t, spaces))
			} else if i > 0 && mustSpace(r.toks[i-1], t) {
				b.WriteByte(' ')
			}
		}
		b.WriteString(t)
	}
	if r.ch(r.space / 4) {
		b.WriteString(pick(r.t, spaces))
	}
	return b.String()
}

func style(t *rapid.T) *renderer {
	r := &renderer{t: t, forms: true}
	switch weighted(t, 4, 2, 1, 1) {
	case 1:
		r.space = 3
		r.parens = 2
		r.fancy = 1
	case 2:
		r.space = 8
		r.parens = 4
		r.fancy = 6
	case 3:
		r.fancy = 16
		r.parens = 8
	}
	return r
}

func identifier(s string, dash bool) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(nameByte(c) || dash && c == '-' && i > 0) {
			return false
		}
		if i == 0 && c >= '0' && c <= '9' {
			return false
		}
	}
	return s != ""
}

func quoteWith(q byte, s string, fancy func() int) string {
	var b strings.Builder
	b.WriteByte(q)
	for i := 0; i < len(s); {
		c, w := utf8.DecodeRuneInString(s[i:])
		if c == utf8.RuneError && w == 1 {
			b.WriteByte(s[i])
			i++
			continue
		}
		i += w
		f := fancy()
		short := strings.IndexRune("\b\f\n\r\t\\/", c)
		switch {
		case f == 1 || c < 0x20 && (short < 0 || f == 3):
			hex := "%04x"
			if f != 0 && c%3 == 0 {
				hex = "%04X"
			}
			if c >= 0x10000 {
				hi, lo := utf16.EncodeRune(c)
				fmt.Fprintf(&b, `\u`+hex+`\u`+hex, hi, lo)
			} else {
				fmt.Fprintf(&b, `\u`+hex, c)
			}
		case c == rune(q):
			b.WriteByte('\\')
			b.WriteByte(q)
		case c == '\\', short >= 0 && short < 5, c == '/' && f == 2:
			b.WriteByte('\\')
			b.WriteByte(`bfnrt\/`[short])
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte(q)
	return b.String()
}

func (r *renderer) quote(s string) string {
	q := byte('\'')
	if r.t != nil && r.forms && bit.Draw(r.t, "") {
		q = '"'
	}
	return quoteWith(q, s, func() int {
		if r.ch(r.fancy) {
			return 1 + below(r.t, 3)
		}
		return 0
	})
}

func (r *renderer) int(n int64) string {
	s := strconv.FormatInt(n, 10)
	if r.ch(r.fancy / 2) {
		if n < 0 {
			return "-00" + s[1:]
		}
		return "0" + s
	}
	return s
}

func (r *renderer) signed(n int64) {
	if n < 0 {
		r.tok("-", r.int(n)[1:])
		return
	}
	r.tok(r.int(n))
}

func (r *renderer) real(f float64) string {
	// the grammar needs a point
	s := strconv.FormatFloat(f, 'f', -1, 64)
	if len(s) > 30 || r.ch(4) {
		s = strconv.FormatFloat(f, 'e', -1, 64)
		if i := strings.IndexByte(s, 'e'); i >= 0 {
			m, e := s[:i], s[i:]
			if !strings.Contains(m, ".") {
				m += "."
			}
			if r.ch(8) {
				m += "0"
			}
			if r.ch(8) {
				e = "E" + e[1:]
			}
			return m + e
		}
	}
	if !strings.Contains(s, ".") {
		s += "."
		if r.t == nil || bit.Draw(r.t, "") {
			s += "0"
		}
	}
	return s
}

func regexText(s string) string {
	var b strings.Builder
	b.WriteByte('/')
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '\\' && i+1 < len(s) && s[i+1] == '\\':
			b.WriteString(`\\`)
			i++
		case s[i] == '/':
			b.WriteString(`\/`)
		default:
			b.WriteByte(s[i])
		}
	}
	b.WriteByte('/')
	return b.String()
}

func exprPrec(e *ref.Expr) int {
	switch e.K {
	case ref.KBin:
		return ref.Prec[e.Op]
	case ref.KNeg, ref.KNot:
		return 6
	}
	return 7
}

// expr renders e where an operator of precedence min or tighter may stand.
func (r *renderer) expr(e *ref.Expr, min int) {
	wrap := exprPrec(e) < min
	if r.full && exprPrec(e) < 7 && min > -1 {
		wrap = true
	}
	n := 0
	if wrap {
		n = 1
	}
	for n < 3 && r.ch(r.parens) {
		n++
	}
	for i := 0; i < n; i++ {
		r.tok("(")
	}
	r.bare(e, n > 0)
	for i := 0; i < n; i++ {
		r.tok(")")
	}
}

func (r *renderer) bare(e *ref.Expr, wrapped bool) {
	if e.Text != "" {
		r.tok(e.Text)
		return
	}
	switch e.K {
	case ref.KInt:
		r.tok(r.int(e.I))
	case ref.KReal:
		r.tok(r.real(e.F))
	case ref.KStr:
		r.tok(r.quote(e.S))
	case ref.KBool:
		r.tok(strconv.FormatBool(e.B))
	case ref.KNull:
		r.tok("null")
	case ref.KRegex:
		r.tok(regexText(e.S))
	case ref.KName:
		r.tok(e.S)
	case ref.KCur:
		r.tok("@")
	case ref.KRoot:
		r.tok("$")
	case ref.KNeg:
		r.tok("-")
		r.expr(e.Kids[0], 6)
	case ref.KNot:
		r.tok("!")
		r.expr(e.Kids[0], 6)
	case ref.KBin:
		p := ref.Prec[e.Op]
		r.expr(e.Kids[0], p)
		r.tok(e.Op)
		r.expr(e.Kids[1], p+1)
	case ref.KIndex:
		r.expr(e.Kids[0], 7)
		r.tok("[")
		r.expr(e.Kids[1], 0)
		r.tok("]")
	case ref.KDot:
		r.expr(e.Kids[0], 7)
		r.tok(".", e.S)
	case ref.KCall:
		r.tok(e.S, "(")
		r.list(e.Kids)
		r.tok(")")
	case ref.KArray:
		r.tok("[")
		r.list(e.Kids)
		r.tok("]")
	}
}

func (r *renderer) list(l []*ref.Expr) {
	for i, k := range l {
		if i > 0 {
			r.tok(",")
		}
		r.expr(k, 0)
	}
}

func (r *renderer) bound(b ref.Bound) {
	if !b.Set {
		return
	}
	if b.E != nil {
		r.tok("(")
		r.expr(b.E, 0)
		r.tok(")")
		return
	}
	r.signed(b.N)
}

func (r *renderer) sel(s *ref.Sel) {
	switch s.K {
	case ref.SName:
		if s.Text != "" {
			r.tok(s.Text)
		} else if s.Bare {
			r.tok(s.S)
		} else {
			r.tok(r.quote(s.S))
		}
	case ref.SInt:
		r.signed(s.N)
	case ref.SSlice:
		r.bound(s.Start)
		r.tok(":")
		r.bound(s.End)
		if s.Stride.Set || r.ch(4) {
			r.tok(":")
			r.bound(s.Stride)
		}
	}
}

func (r *renderer) step(st *ref.Step) {
	dots := "."
	if st.Nest {
		dots = ".."
	}
	if st.Bracket && !st.Nest {
		dots = ""
	}
	if dots != "" {
		r.tok(dots)
	}
	if !st.Bracket {
		switch st.K {
		case ref.TWild:
			r.tok("*")
		case ref.TExpr:
			r.tok("(")
			r.expr(st.E, 0)
			r.tok(")")
		case ref.TSel:
			r.sel(&st.Sels[0])
		}
		return
	}
	r.tok("[")
	switch st.K {
	case ref.TWild:
		r.tok("*")
	case ref.TExpr:
		r.tok("(")
		r.expr(st.E, 0)
		r.tok(")")
	case ref.TFilter:
		r.tok("?(")
		r.expr(st.E, 0)
		r.tok(")")
	case ref.TSel:
		for i := range st.Sels {
			if i > 0 {
				r.tok(",")
			}
			r.sel(&st.Sels[i])
		}
	}
	r.tok("]")
}

func (r *renderer) path(p *ref.Path) string {
	r.toks = nil
	r.tok("$")
	for _, st := range p.Steps {
		r.step(st)
	}
	return r.String()
}

func (r *renderer) exprText(e *ref.Expr) string {
	r.toks = nil
	r.expr(e, 0)
	return r.String()
}

func plainPath(p *ref.Path) string { return (&renderer{}).path(p) }
func plainExpr(e *ref.Expr) string { return (&renderer{}).exprText(e) }
