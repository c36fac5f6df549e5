package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// Generators of JSON documents.

type docCfg struct {
	depth  int  // maximum nesting
	budget int  // number of values
	single bool // objects have at most one member
	plain  bool // only plain keys and small values
}

var (
	plainKeys = []string{"a", "b", "c", "d"}
	oddKeys   = []string{"length", "0", "1", "-1", "2", "x y", "é", "", "a-b", "true", "null", "'", "\"", "\\", "a.b", "*", "$", "@",
		"😀", "in", "key\n", "_x", "A", "1.5", "a'b\"c", "/", "\u2028", "\x7f", "[0]", "10", "keys", "nin", "false", "\u0001", "日本"}
	strPool = []string{"", "a", "b", "abc", "x", "aXb", "1", "12", "1.5", "-3", "true", "false", "null", "é", "日本語", "😀x", "a b", "c d e", "A",
		"0", "a,b", "1,2", "abcabc", "line\nline", "q\"uote'", "b\\s", "^a", "a.c", "[", "length", "0.5", "1e3", "zz", "ab", "ba", " ", "\t", "a/b", "(a)", "10"}
	numPool = []string{"0", "1", "2", "3", "-1", "4", "5", "10", "0.5", "1.5", "-2.5", "42", "100", "-3", "1e3", "1e21", "1e-7", "-0", "2.75", "7",
		"9007199254740993", "9007199254740992", "4294967296", "2147483648", "-2147483649", "9223372036854775807", "1e300", "-1e300", "0.1", "0.3", "1e18", "3.999", "-0.5", "5e-324"}
)

type docGen struct {
	t   *rapid.T
	cfg docCfg
	old []any
}

func parseDoc(s string) any {
	var v any
	if err := json.Unmarshal([]byte(s), &v); err != nil {
		harness("bad document %q: %v", s, err)
	}
	return v
}

func docText(v any) string {
	var b strings.Builder
	enc := json.NewEncoder(&b)
	enc.SetEscapeHTML(false)
	if err := enc.Encode(v); err != nil {
		harness("cannot encode document: %v", err)
	}
	return strings.TrimSuffix(b.String(), "\n")
}

func (g *docGen) key() string {
	if g.cfg.plain || chance(g.t, 3, 4) {
		return pick(g.t, plainKeys)
	}
	if chance(g.t, 1, 6) {
		return randomString(g.t, 6)
	}
	return pick(g.t, oddKeys)
}

func (g *docGen) num() any {
	var f float64
	switch weighted(g.t, 5, 4, 1) {
	case 0:
		f = float64(below(g.t, 8))
	case 1:
		n := len(numPool)
		if g.cfg.plain {
			n = 14
		}
		f = parseDoc(numPool[below(g.t, n)]).(float64)
	default:
		f = float64(between(g.t, -1000, 1000)) / float64(pick(g.t, []int{1, 2, 4, 10, 3}))
	}
	return f
}

func randomRune(t *rapid.T) rune {
	switch weighted(t, 6, 3, 2, 1, 1) {
	case 0:
		return rune('a' + below(t, 26))
	case 1:
		return rune(' ' + below(t, 95))
	case 2:
		return rune(0xA0 + below(t, 0x500))
	case 3:
		return pick(t, []rune{0, 1, 8, 9, 10, 12, 13, 27, 31, 127, 0x2028, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x80, 0x7FF, 0x800, 0xFEFF})
	}
	return pick(t, []rune{0x10000, 0x10FFFF, 0x1F600, 0x1D11E, 0x20000, 0xFFFFF})
}

func randomString(t *rapid.T, max int) string {
	n := below(t, max+1)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteRune(randomRune(t))
	}
	return b.String()
}

func (g *docGen) str() any {
	if g.cfg.plain {
		return strPool[below(g.t, 10)]
	}
	if chance(g.t, 1, 8) {
		return randomString(g.t, 8)
	}
	return pick(g.t, strPool)
}

func (g *docGen) scalar() any {
	switch weighted(g.t, 5, 4, 2, 1) {
	case 0:
		return g.num()
	case 1:
		return g.str()
	case 2:
		return bit.Draw(g.t, "")
	}
	return nil
}

func (g *docGen) width() int {
	switch weighted(g.t, 12, 4, 1) {
	case 0:
		return below(g.t, 5)
	case 1:
		return below(g.t, 9)
	}
	return below(g.t, 24)
}

func (g *docGen) value(depth int) (v any) {
	g.cfg.budget--
	if len(g.old) > 0 && chance(g.t, 1, 12) {
		return pick(g.t, g.old)
	}
	defer func() {
		if len(g.old) < 20 {
			g.old = append(g.old, v)
		}
	}()
	if depth <= 0 || g.cfg.budget <= 0 {
		return g.scalar()
	}
	switch weighted(g.t, 4, 4, 4, 1) {
	case 0:
		return g.scalar()
	case 1:
		n := g.width()
		a := []any{}
		for i := 0; i < n && g.cfg.budget > 0; i++ {
			a = append(a, g.value(depth-1))
		}
		return a
	case 2:
		n := g.width()
		if g.cfg.single {
			n = below(g.t, 2)
		}
		m := map[string]any{}
		for i := 0; i < n && g.cfg.budget > 0; i++ {
			m[g.key()] = g.value(depth - 1)
		}
		return m
	}
	return g.table(depth)
}

// table is an array of similar objects.
func (g *docGen) table(depth int) any {
	n := 1 + below(g.t, 6)
	kinds := make([]int, 4)
	for i := range kinds {
		kinds[i] = below(g.t, 5)
	}
	if g.cfg.single {
		kinds = kinds[:1]
	}
	a := []any{}
	for i := 0; i < n; i++ {
		m := map[string]any{}
		for j, k := range kinds {
			if chance(g.t, 1, 6) {
				continue // missing
			}
			var v any
			if chance(g.t, 1, 10) {
				k = below(g.t, 5)
			}
			switch k {
			case 0:
				v = g.num()
			case 1:
				v = g.str()
			case 2:
				v = bit.Draw(g.t, "")
			case 3:
				v = g.scalar()
			case 4:
				v = g.value(depth - 2)
			}
			m[plainKeys[j]] = v
		}
		a = append(a, m)
	}
	return a
}

// document draws a document, usually with an object or array at its root.
func document(t *rapid.T, cfg docCfg) any {
	g := &docGen{t: t, cfg: cfg}
	switch weighted(t, 6, 4, 4, 1, 1) {
	case 0: // an object of varied members
		m := map[string]any{}
		n := 1 + below(t, 5)
		if cfg.single {
			n = 1
		}
		for i := 0; i < n; i++ {
			m[g.key()] = g.value(cfg.depth - 1)
		}
		return m
	case 1:
		a := []any{}
		n := g.width()
		for i := 0; i < n; i++ {
			a = append(a, g.value(cfg.depth-1))
		}
		return a
	case 2:
		return g.table(cfg.depth)
	case 3: // a chain with side branches
		var v any = g.value(2)
		n := 3 + below(t, 12)
		for i := 0; i < n; i++ {
			if bit.Draw(t, "") {
				m := map[string]any{g.key(): v}
				if !cfg.single && chance(t, 1, 3) {
					m[g.key()] = g.value(1)
				}
				v = m
			} else {
				a := []any{v}
				if chance(t, 1, 3) {
					a = append(a, g.value(1))
				}
				if chance(t, 1, 3) {
					a = append([]any{g.value(1)}, a...)
				}
				v = a
			}
		}
		return v
	}
	return g.value(cfg.depth)
}

var stdDoc = docCfg{depth: 4, budget: 60}

// subvalues lists the values in v, itself included, up to a limit.
func subvalues(v any, max int) []any {
	var l []any
	var walk func(any)
	walk = func(v any) {
		if len(l) >= max {
			return
		}
		l = append(l, v)
		switch v := v.(type) {
		case []any:
			for _, x := range v {
				walk(x)
			}
		case map[string]any:
			for _, k := range sortedKeys(v) {
				walk(v[k])
			}
		}
	}
	walk(v)
	return l
}

func kindOf(v any) string {
	switch v.(type) {
	case nil:
		return "null"
	case bool:
		return "bool"
	case float64, int64:
		return "number"
	case string:
		return "string"
	case []any:
		return "array"
	case map[string]any:
		return "object"
	}
	return fmt.Sprintf("%T", v)
}
