package ref

import (
	"fmt"
	"math"
	"regexp"
	"strconv"
	"unicode/utf8"
)

type syntaxError struct{ msg string }

type parser struct {
	s   string
	pos int
}

func (p *parser) fail(format string, args ...any) {
	panic(syntaxError{fmt.Sprintf(format, args...) + fmt.Sprintf(" at %d", p.pos)})
}

func guard(f func()) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(syntaxError); ok {
				err = fmt.Errorf("%s", se.msg)
				return
			}
			panic(r)
		}
	}()
	f()
	return nil
}

// ParsePath parses a path.
func ParsePath(s string) (path *Path, err error) {
	p := &parser{s: s}
	err = guard(func() { path = p.path() })
	if err != nil {
		return nil, err
	}
	return path, nil
}

// ParseExpr parses a script expression.
func ParseExpr(s string) (e *Expr, err error) {
	p := &parser{s: s}
	err = guard(func() {
		e = p.binary(0)
		p.ws()
		if p.pos != len(p.s) {
			p.fail("trailing text")
		}
	})
	if err != nil {
		return nil, err
	}
	return e, nil
}

func (p *parser) ws() {
	for p.pos < len(p.s) {
		switch p.s[p.pos] {
		case ' ', '\t', '\n', '\r', '\f', '\v':
			p.pos++
		default:
			return
		}
	}
}

// at skips white space and reports whether the text continues with t.
func (p *parser) at(t string) bool {
	p.ws()
	return len(p.s)-p.pos >= len(t) && p.s[p.pos:p.pos+len(t)] == t
}

func (p *parser) take(t string) bool {
	if p.at(t) {
		p.pos += len(t)
		return true
	}
	return false
}

func (p *parser) need(t string) {
	if !p.take(t) {
		p.fail("expected %q", t)
	}
}

func (p *parser) peek() byte {
	p.ws()
	if p.pos >= len(p.s) {
		return 0
	}
	return p.s[p.pos]
}

func digit(c byte) bool { return c >= '0' && c <= '9' }
func letter(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c >= 0x80
}

func (p *parser) digits() string {
	i := p.pos
	for p.pos < len(p.s) && digit(p.s[p.pos]) {
		p.pos++
	}
	return p.s[i:p.pos]
}

func (p *parser) name(dash bool) string {
	i := p.pos
	if i >= len(p.s) || !letter(p.s[i]) {
		p.fail("expected name")
	}
	for p.pos < len(p.s) {
		c := p.s[p.pos]
		if !(letter(c) || digit(c) || dash && c == '-') {
			break
		}
		p.pos++
	}
	return p.s[i:p.pos]
}

// path ::= "$" step*
func (p *parser) path() *Path {
	p.need("$")
	path := &Path{}
	for {
		switch {
		case p.peek() == 0 && p.pos >= len(p.s):
			return path
		case p.take(".."):
			if p.take("[") {
				st := p.bracket()
				st.Nest = true
				path.Steps = append(path.Steps, st)
			} else {
				st := p.member()
				st.Nest = true
				path.Steps = append(path.Steps, st)
			}
		case p.take("."):
			path.Steps = append(path.Steps, p.member())
		case p.take("["):
			path.Steps = append(path.Steps, p.bracket())
		default:
			p.fail("expected step")
		}
	}
}

// member ::= "*" | identifier | expr | signed-integer
func (p *parser) member() *Step {
	c := p.peek()
	switch {
	case p.take("*"):
		return &Step{K: TWild}
	case p.take("("):
		e := p.binary(0)
		p.need(")")
		return &Step{K: TExpr, E: e}
	case c == '-' || digit(c):
		return &Step{K: TSel, Sels: []Sel{{K: SInt, N: p.signed()}}}
	default:
		return &Step{K: TSel, Sels: []Sel{{K: SName, S: p.name(true), Bare: true}}}
	}
}

func (p *parser) signed() int64 {
	neg := p.take("-")
	p.ws()
	d := p.digits()
	if d == "" {
		p.fail("expected digits")
	}
	n, err := strconv.ParseInt(d, 10, 64)
	if err != nil {
		p.fail("integer range")
	}
	if neg {
		if n == math.MaxInt64 {
			p.fail("negative overflow") // a documented quirk (ErrIntOverflow), pinned by the tests
		}
		return -n
	}
	return n
}

func (p *parser) bracket() *Step {
	st := &Step{K: TSel, Bracket: true}
	special := 0
	n := 0
	for {
		n++
		c := p.peek()
		switch {
		case p.take("*"):
			st.K = TWild
			special++
		case p.take("?("):
			st.K = TFilter
			st.E = p.binary(0)
			p.need(")")
			special++
		case p.take("("):
			e := p.binary(0)
			p.need(")")
			if p.at(":") {
				st.Sels = append(st.Sels, p.slice(Bound{Set: true, E: e}))
			} else {
				st.K = TExpr
				st.E = e
				special++
			}
		case c == ':':
			st.Sels = append(st.Sels, p.slice(Bound{}))
		case c == '-' || digit(c):
			v := p.signed()
			if p.at(":") {
				st.Sels = append(st.Sels, p.slice(Bound{Set: true, N: v}))
			} else {
				st.Sels = append(st.Sels, Sel{K: SInt, N: v})
			}
		case c == '\'' || c == '"':
			st.Sels = append(st.Sels, Sel{K: SName, S: p.str()})
		default:
			st.Sels = append(st.Sels, Sel{K: SName, S: p.name(true), Bare: true})
		}
		if !p.take(",") {
			break
		}
	}
	if special > 0 && n > 1 {
		p.fail("wild card, expression or filter in union")
	}
	p.need("]")
	return st
}

// slice parses from the first ":".
func (p *parser) slice(start Bound) Sel {
	s := Sel{K: SSlice, Start: start}
	p.need(":")
	end := func() bool { return p.at(",") || p.at("]") }
	if end() {
		return s
	}
	if !p.at(":") {
		s.End = p.bound()
	}
	if end() {
		return s
	}
	p.need(":")
	if end() {
		return s
	}
	s.Stride = p.bound()
	return s
}

func (p *parser) bound() Bound {
	if p.take("(") {
		e := p.binary(0)
		p.need(")")
		return Bound{Set: true, E: e}
	}
	c := p.peek()
	if c == '-' || digit(c) {
		return Bound{Set: true, N: p.signed()}
	}
	p.fail("expected bound")
	return Bound{}
}

// str parses a quoted string.
func (p *parser) str() string {
	q := p.s[p.pos]
	p.pos++
	var b []byte
	for {
		if p.pos >= len(p.s) {
			p.fail("unclosed string")
		}
		c := p.s[p.pos]
		p.pos++
		switch {
		case c == q:
			return string(b)
		case c < 0x20:
			p.fail("control character in string")
		case c != '\\':
			b = append(b, c)
		default:
			if p.pos >= len(p.s) {
				p.fail("unclosed string")
			}
			e := p.s[p.pos]
			p.pos++
			switch e {
			case '\\', '/':
				b = append(b, e)
			case 'b':
				b = append(b, '\b')
			case 'f':
				b = append(b, '\f')
			case 'n':
				b = append(b, '\n')
			case 'r':
				b = append(b, '\r')
			case 't':
				b = append(b, '\t')
			case 'u':
				r := p.hex4()
				if r >= 0xD800 && r < 0xDC00 {
					// might be followed by its other half
					save := p.pos
					if p.pos+6 <= len(p.s) && p.s[p.pos] == '\\' && p.s[p.pos+1] == 'u' {
						p.pos += 2
						lo := p.hex4()
						if lo >= 0xDC00 && lo < 0xE000 {
							r = 0x10000 + (r-0xD800)<<10 + (lo - 0xDC00)
						} else {
							p.pos = save
						}
					}
				}
				if r >= 0xD800 && r < 0xE000 {
					r = 0xFFFD
				}
				b = utf8.AppendRune(b, r)
			default:
				if e != q {
					p.fail("bad escape")
				}
				b = append(b, q)
			}
		}
	}
}

func (p *parser) hex4() rune {
	if p.pos+4 > len(p.s) {
		p.fail("short unicode escape")
	}
	var r rune
	for i := 0; i < 4; i++ {
		c := p.s[p.pos+i]
		switch {
		case c >= '0' && c <= '9':
			r = r<<4 | rune(c-'0')
		case c >= 'a' && c <= 'f':
			r = r<<4 | rune(c-'a'+10)
		case c >= 'A' && c <= 'F':
			r = r<<4 | rune(c-'A'+10)
		default:
			p.fail("bad unicode escape")
		}
	}
	p.pos += 4
	return r
}

// operator returns the binary operator at the current position, if any, without consuming it.
func (p *parser) operator() string {
	p.ws()
	rest := p.s[p.pos:]
	for _, op := range [...]string{"||", "&&", "==", "!=", "<=", ">=", "=~"} {
		if len(rest) >= 2 && rest[:2] == op {
			return op
		}
	}
	if rest == "" {
		return ""
	}
	switch c := rest[0]; c {
	case '<', '>', '~', '+', '-', '*', '/', '%':
		return string(rune(c))
	}
	if letter(rest[0]) {
		save := p.pos
		id := p.name(false)
		p.pos = save
		if id == "in" || id == "nin" {
			return id
		}
	}
	return ""
}

// binary parses by stratified levels (a different method from precedence climbing).
func (p *parser) binary(level int) *Expr {
	if level > 5 {
		return p.unary()
	}
	left := p.binary(level + 1)
	for {
		op := p.operator()
		if op == "" || Prec[op] != level {
			return left
		}
		p.pos += len(op)
		right := p.binary(level + 1)
		left = &Expr{K: KBin, Op: op, Kids: []*Expr{left, right}}
	}
}

func (p *parser) unary() *Expr {
	switch {
	case p.take("-"):
		return &Expr{K: KNeg, Kids: []*Expr{p.unary()}}
	case p.at("!") && !p.at("!="):
		p.take("!")
		return &Expr{K: KNot, Kids: []*Expr{p.unary()}}
	}
	return p.postfix()
}

func (p *parser) list(end string) []*Expr {
	if p.take(end) {
		return nil
	}
	var l []*Expr
	for {
		l = append(l, p.binary(0))
		if !p.take(",") {
			p.need(end)
			return l
		}
	}
}

func (p *parser) postfix() *Expr {
	e := p.term()
	for {
		switch {
		case p.take("("):
			if e.K != KName {
				p.fail("call of a non-name")
			}
			e = &Expr{K: KCall, S: e.S, Kids: p.list(")")}
		case p.take("["):
			ix := p.binary(0)
			p.need("]")
			e = &Expr{K: KIndex, Kids: []*Expr{e, ix}}
		case p.take("."):
			p.ws()
			e = &Expr{K: KDot, S: p.name(false), Kids: []*Expr{e}}
		default:
			return e
		}
	}
}

func (p *parser) term() *Expr {
	c := p.peek()
	switch {
	case p.take("("):
		e := p.binary(0)
		p.need(")")
		return e
	case p.take("["):
		return &Expr{K: KArray, Kids: p.list("]")}
	case p.take("@"):
		return &Expr{K: KCur}
	case p.take("$"):
		return &Expr{K: KRoot}
	case c == '\'' || c == '"':
		return &Expr{K: KStr, S: p.str()}
	case p.take("/"):
		var b []byte
		for {
			if p.pos >= len(p.s) {
				p.fail("unclosed regular expression")
			}
			c := p.s[p.pos]
			p.pos++
			if c == '/' {
				break
			}
			if c == '\\' && p.pos < len(p.s) {
				d := p.s[p.pos]
				if d == '/' {
					p.pos++
					b = append(b, '/')
					continue
				}
				if d == '\\' {
					p.pos++
					b = append(b, '\\', '\\')
					continue
				}
			}
			b = append(b, c)
		}
		re, err := regexp.Compile(string(b))
		if err != nil {
			p.fail("%s", err)
		}
		return &Expr{K: KRegex, S: string(b), Re: re}
	case digit(c):
		start := p.pos
		d := p.digits()
		if p.pos >= len(p.s) || p.s[p.pos] != '.' {
			n, err := strconv.ParseInt(d, 10, 64)
			if err != nil {
				p.fail("integer range")
			}
			return &Expr{K: KInt, I: n}
		}
		p.pos++
		p.digits()
		if p.pos < len(p.s) && (p.s[p.pos] == 'e' || p.s[p.pos] == 'E') {
			p.pos++
			if p.pos < len(p.s) && (p.s[p.pos] == '+' || p.s[p.pos] == '-') {
				p.pos++
			}
			if p.digits() == "" {
				p.fail("exponent needs digits")
			}
		}
		f, err := strconv.ParseFloat(p.s[start:p.pos], 64)
		if err != nil {
			p.fail("real range")
		}
		return &Expr{K: KReal, F: f}
	default:
		id := p.name(false)
		switch id {
		case "true", "false":
			return &Expr{K: KBool, B: id == "true"}
		case "null":
			return &Expr{K: KNull}
		}
		return &Expr{K: KName, S: id}
	}
}
