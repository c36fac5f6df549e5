package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"verif/pbt/ref"

	"pgregory.net/rapid"
)

// C03, C06, C10 to C13 continued: longer values, and values on which small
// deviations show.

// size draws a size up to about 2<<k, the small ones more often.
func size(t *rapid.T, k int) int {
	n := 1 << between(t, 0, k)
	return n + below(t, n)
}

// Values on which the order and the exactness of operations show.
var sharp = []any{9007199254740992.0, 9007199254740993.0, 0.1, 0.2, 0.3, 1e308, -1e308, 1e16, 3.0, -7.0, 2.0, 0.5, 1.0, 0.0, -1.0, 5.0, 8.0, -0.5, 1.0 / 3, 1e-300, 7.25, -2.5, 4503599627370497.5, "2", "a", true, false, nil, []any{2.0}, []any{}, 1e22, 255.0, 256.0, "10", "9"}

// genChain draws operands joined by operators without regard to their kinds.
func genChain(t *rapid.T) ProbeCase {
	n := between(t, 2, 7)
	if chance(t, 1, 8) {
		n = size(t, 7)
	}
	keys := strings.Split("abcdefg", "")
	num := weighted(t, 3, 1) == 0
	value := func() any {
		if num {
			return sharp[below(t, 23)]
		}
		return pick(t, sharp)
	}
	cands := []any{}
	for i := between(t, 1, 3); i > 0; i-- {
		m := map[string]any{}
		for _, k := range keys[:min(n, len(keys))] {
			m[k] = value()
		}
		cands = append(cands, m)
	}
	var ops []string
	switch weighted(t, 2, 2, 2, 1, 2) {
	case 0:
		ops = []string{"+", "-"}
	case 1:
		ops = []string{"*", "/", "%"}
	case 2:
		ops = ariops
	case 3:
		ops = append(append([]string{}, ariops...), relops...)
	default:
		ops = []string{"+", "-", "*", "/", "%", "<", ">", "<=", ">=", "==", "!=", "&&", "||", "==", "&&", "||", "in", "nin"}
	}
	toks := make([]string, n)
	for i := range toks {
		if chance(t, 2, 5) {
			toks[i] = plainExpr(pick(t, []*ref.Expr{eInt(1), eInt(2), eInt(3), eInt(7), eInt(10), eInt(0), eReal(0.1), eReal(0.5), eReal(2), eReal(1e16), eReal(1e-17), eInt(1 << 53), eInt(1<<53 + 1), eBool(true), eReal(0.2), eReal(1e22), eInt(1 << 31)}))
		} else {
			toks[i] = "@." + keys[i%len(keys)]
		}
		switch below(t, 12) {
		case 0:
			toks[i] = "-" + toks[i]
		case 1:
			toks[i] = "!" + toks[i]
		case 2:
			toks[i] = "[" + toks[i] + "][0]"
		}
	}
	if chance(t, 1, 3) {
		i := below(t, n)
		j := i + below(t, n-i)
		toks[i], toks[j] = pick(t, []string{"(", "(", "-(", "!(", "[("})+toks[i], toks[j]+")"
		if strings.HasPrefix(toks[i], "[(") {
			toks[j] += "]"
			if chance(t, 3, 4) {
				toks[j] += "[0]"
			}
		}
	}
	text := toks[0]
	for _, s := range toks[1:] {
		op := pick(t, ops)
		if op == "in" || op == "nin" {
			s = "[" + strings.ReplaceAll(s, ")", "+0") + ",1]"
			if strings.ContainsAny(s, "(") {
				op, s = "==", "1"
			}
		}
		text += " " + op + " " + s
	}
	return ProbeCase{Text(text), docText(cands)}
}

// longSlices enumerates slices of arrays longer than those sliceSweep takes.
func longSlices(tier string, emit func(SliceCase)) {
	lens := []int{6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 31, 32, 33, 41, 47, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300}
	if tier == "thorough" {
		for i := 6; i < 300; i += 3 {
			lens = append(lens, i)
		}
		lens = append(lens, 511, 512, 513, 1000, 1023, 1024, 1025)
	}
	for _, n := range lens {
		l := int64(n)
		near := func(extra ...int64) []*int64 {
			ps := []*int64{nil}
			for _, v := range append([]int64{0, 1, -1, 2, -2, l - 1, -l + 1, l, -l, l + 1, -l - 1, l / 2, -l / 2}, extra...) {
				ps = append(ps, &v)
			}
			return ps
		}
		i := 0
		for _, s := range near(l / 3) {
			for _, e := range near(l - 2) {
				for _, k := range near(3, -3, 4, 7, -7, -8, 10, l/3) {
					if i++; tier != "thorough" && i%7 != n%7 && i%13 != 0 {
						continue
					}
					ctx := 0
					if i%16 == 0 {
						ctx = i / 16 % 6
					}
					emit(SliceCase{n, sliceText(s, e, k), ctx})
				}
			}
		}
	}
}

func genLongSlice(t *rapid.T) SliceCase {
	n := size(t, 9)
	bound := func() *int64 {
		var v int64
		switch weighted(t, 1, 4, 2, 1) {
		case 0:
			return nil
		case 1:
			v = int64(below(t, 2*n+3)) - int64(n) - 1
		case 2:
			v = int64(below(t, 9)) - 4
		case 3:
			v = pick(t, bigInts)
			if bit.Draw(t, "") && v > 0 {
				v = -v
			}
		}
		if v == math.MinInt64 {
			v++
		}
		return &v
	}
	return SliceCase{n, sliceText(bound(), bound(), bound()), below(t, 6)}
}

// longText draws a text with parts of some sizes.
func longText(t *rapid.T, k int) string {
	var b strings.Builder
	for i := between(t, 0, 4); i >= 0; i-- {
		p := pick(t, []string{"a", "b", "ab", "c", "1", "é", "日", "x", " ", ".", "abc", "😀", "-", ",", "aab", "A"})
		n := 1
		if chance(t, 1, 3) {
			n = size(t, k)
		}
		b.WriteString(strings.Repeat(p, n))
	}
	return b.String()
}

// partOf draws a text that is likely part of s.
func partOf(t *rapid.T, s string) string {
	r := []rune(s)
	if len(r) == 0 {
		return ""
	}
	i := below(t, len(r))
	var j int
	switch below(t, 6) {
	case 0:
		i, j = 0, i
	case 1:
		j = len(r)
	case 2:
		j = min(i+1+below(t, 3), len(r))
	default:
		j = i + below(t, len(r)-i+1)
	}
	p := append([]rune{}, r[i:j]...)
	if len(p) > 0 && chance(t, 1, 5) {
		p[below(t, len(p))] = pick(t, []rune("abcx1é日"))
	}
	return string(p)
}

func genLongCall(t *rapid.T) ProbeCase {
	cands := []any{}
	g := &docGen{t: t, cfg: docCfg{depth: 2, budget: 10}}
	kind := below(t, 3)
	for i := between(t, 1, 3); i > 0; i-- {
		m := map[string]any{"n": g.scalar()}
		switch kind {
		case 0: // numbers
			n := size(t, 8)
			l := make([]any, n)
			scale := pick(t, []float64{1, 1, 0.5, 1.0 / 1024, 1 << 20, 1 << 30})
			few := pick(t, []int{2, 3, 200})
			s := sequence(below(t, 1<<16))
			for i := range l {
				l[i] = float64(s.next(few)-few/3) * scale
			}
			if chance(t, 1, 4) {
				l[below(t, n)] = pick(t, []any{"1", nil, true, map[string]any{}, []any{1.0}, "a", false, ""})
			} else if chance(t, 1, 3) {
				l[below(t, n)] = 12345.0 * scale
			}
			m["l"] = l
			m["v"] = l[below(t, n)]
			m["s"] = "a"
		case 1: // strings
			n := size(t, 8)
			l := make([]any, n)
			p := []string{longText(t, 3), longText(t, 3), longText(t, 6), "b"}
			s := sequence(below(t, 1<<16))
			for i := range l {
				l[i] = p[s.next(len(p))]
			}
			if chance(t, 1, 5) {
				l[below(t, n)] = g.value(1)
			} else if chance(t, 1, 2) {
				l[below(t, n)] = longText(t, 4)
			}
			m["l"] = l
			m["v"] = l[below(t, n)]
			m["s"] = p[0]
		default: // long strings and objects
			s := longText(t, 9)
			m["s"] = s
			m["v"] = partOf(t, s)
			o := map[string]any{}
			for i := below(t, size(t, 7)); i > 0; i-- {
				o[fmt.Sprintf("k%d", i)] = float64(i)
			}
			if chance(t, 1, 6) {
				o[""] = nil
			}
			m["l"] = o
		}
		cands = append(cands, m)
	}
	at := func(k string) *ref.Expr { return eDot(eCur(), k) }
	var e *ref.Expr
	if kind < 2 {
		switch weighted(t, 5, 2, 2, 1) {
		case 0:
			e = eCall(pick(t, []string{"sum", "avg", "prod", "min", "max", "length", "min", "max", "sum", "avg"}), at("l"))
		case 1:
			e = eCall("contains", at("l"), at(pick(t, []string{"v", "v", "s", "n"})))
		case 2:
			e = eCall(pick(t, []string{"min", "max"}), eIndex(at("l"), eInt(0)), eIndex(at("l"), eNeg(eInt(1))), at("v"), eIndex(at("l"), eInt(int64(below(t, 40)))))
		default:
			e = eDot(at("l"), "length")
		}
	} else {
		switch weighted(t, 3, 3, 3, 2, 2, 2) {
		case 0:
			e = eCall("contains", at("s"), at("v"))
		case 1:
			e = eCall(pick(t, []string{"starts_with", "ends_with"}), at("s"), at("v"))
		case 2:
			e = eCall("tokenize", at("s"), eStr(pick(t, []string{",", " ", "a", "b+", "[0-9]", "é|日", "", "x*", "ab", "(a)(b)", "-", "^a", "c$"})))
			if bit.Draw(t, "") {
				e = eDot(e, "length")
			} else if bit.Draw(t, "") {
				e = eIndex(e, eInt(int64(below(t, 20))-3))
			}
		case 3:
			e = eCall("length", at(pick(t, []string{"s", "l", "v"})))
		case 4:
			e = eDot(at(pick(t, []string{"s", "l", "v"})), "length")
		default:
			e = eCall("length", eCall("keys", at("l")))
		}
	}
	return ProbeCase{Text(plainExpr(e)), docText(cands)}
}

// texts that are numbers, or nearly
func numberTexts(tier string, f func([]any)) {
	var all []any
	seen := map[string]bool{}
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			all = append(all, s)
		}
	}
	bases := []string{"5", "-3", "1.5", "0", "10", "1e2", "-0.25", ".5", "1.", "12345678901234567890", "0.1e-3"}
	for _, b := range bases {
		add(b)
		for c := 1; c < 128; c++ {
			s := string(rune(c))
			add(b + s)
			add(s + b)
			if len(b) > 1 {
				add(b[:1] + s + b[1:])
			}
		}
		for _, s := range []string{"é", "\u00a0", "\u2003", "\ufeff", "٣", "５", "−", "n", "px", "em", "f64", "e", "e+", "e-", "e5", "E5", "e+5", ".5", ".0", "..", ".5.5", "-", "--", "+", "L", "UL", "i", "j", "%", "k", "M", "d", "D", "F", "f", "_0", ",000", " 1", "/1", "nan", "NaN", "inf", "Inf", "Infinity", "true", "null"} {
			add(b + s)
			add(s + b)
			add(s)
		}
	}
	for i := 0; i < len(all); i += 12 {
		f(all[i:min(i+12, len(all))])
	}
}

func numberTextSweep(exprs ...string) func(tier string, emit func(ProbeCase)) {
	return func(tier string, emit func(ProbeCase)) {
		numberTexts(tier, func(l []any) {
			var cands []any
			for _, s := range l {
				cands = append(cands, map[string]any{"s": s, "n": 5.0, "l": append([]any{7.0, 8.0, 9.0, []any{1.0}, "x", 50.0}, iota_(20)...), "o": map[string]any{"5": 1.0, "1.5": "a", "0": nil}})
			}
			for _, e := range exprs {
				emit(ProbeCase{Text(e), docText(cands)})
			}
		})
	}
}

// genLongPair compares big structures that differ in one place, if at all.
func genLongPair(t *rapid.T) PairCase {
	g := &docGen{t: t, cfg: docCfg{depth: 2, budget: 8}}
	samples := []any{1.0, "a", nil, g.value(2), g.value(2), g.scalar()}
	s := sequence(below(t, 1<<16))
	k := 1 + below(t, len(samples))
	n := size(t, 7)
	var a, b any
	if bit.Draw(t, "") {
		x, y := make([]any, n), make([]any, n)
		for i := range x {
			x[i] = samples[s.next(k)]
			y[i] = x[i]
		}
		b = y
		switch below(t, 8) {
		case 0:
		case 1:
			b = append(y, g.scalar())
		case 2:
			b = y[:n-1]
		case 3:
			if i := below(t, n); i > 0 {
				y[i], y[i-1] = y[i-1], y[i]
			}
		default:
			i := below(t, n)
			y[i] = g.mutate(y[i], 2)
		}
		a = x
	} else {
		x, y := map[string]any{}, map[string]any{}
		name := func(i int) string {
			if i == 0 {
				return ""
			}
			return fmt.Sprintf("%c%d", 'a'+i%5, i)
		}
		for i := 0; i < n; i++ {
			v := samples[s.next(k)]
			x[name(i)], y[name(i)] = v, v
		}
		i := name(below(t, n))
		switch below(t, 8) {
		case 0:
		case 1:
			delete(y, i)
		case 2, 3:
			v := y[i]
			if bit.Draw(t, "") {
				x[i], v = nil, nil
			}
			delete(y, i)
			y[pick(t, []string{"z", "", "a0", i + " ", strings.ToUpper(i)})] = v
		default:
			y[i] = g.mutate(y[i], 2)
		}
		a, b = x, y
	}
	for i := below(t, 4); i > 0; i-- {
		switch below(t, 3) {
		case 0:
			a, b = []any{a, 1.0}, []any{b, 1.0}
		case 1:
			a, b = map[string]any{"a": a}, map[string]any{"a": b}
		case 2:
			a, b = []any{a}, []any{b}
		}
	}
	if bit.Draw(t, "") {
		a, b = b, a
	}
	return PairCase{docText(a), docText(b), weighted(t, 6, 1, 1, 1)}
}

func genLongMatch(t *rapid.T) ProbeCase {
	g := &docGen{t: t, cfg: docCfg{depth: 2, budget: 10}}
	cands := []any{}
	pats := []string{randRegex(t, 2), randRegex(t, 1), longText(t, 3)}
	for i := between(t, 1, 3); i > 0; i-- {
		s := longText(t, 11)
		if chance(t, 1, 3) {
			s += pick(t, []string{"Q", "a", "\n", "b"})
		}
		p := pick(t, pats)
		if chance(t, 1, 3) {
			p = partOf(t, s)
			if len(p) > 200 {
				p = p[:1]
			}
			p = strings.ToValidUTF8(p, "")
		}
		n := size(t, 8)
		l := make([]any, n)
		samples := []any{1.0, "a", g.scalar(), g.scalar()}
		q := sequence(below(t, 1<<16))
		for i := range l {
			l[i] = samples[q.next(4)]
		}
		v := g.value(1)
		if chance(t, 2, 3) {
			l[below(t, n)] = v
		}
		cands = append(cands, map[string]any{"s": s, "r": p, "l": l, "v": v})
	}
	at := func(k string) *ref.Expr { return eDot(eCur(), k) }
	var e *ref.Expr
	switch weighted(t, 3, 3, 3, 1) {
	case 0:
		e = eBin("=~", at("s"), eRegex(pick(t, append(pats, "Q$", "^.*Q", "b", "a$", "c", "\\n"))))
	case 1:
		e = eBin("=~", at("s"), at("r"))
	case 2:
		e = eBin(pick(t, []string{"in", "nin"}), at("v"), at("l"))
	default:
		e = eBin(pick(t, []string{"in", "nin"}), at("s"), eArr(at("r"), at("s")))
	}
	return ProbeCase{Text(plainExpr(e)), docText(cands)}
}

// keySweep subscripts values of every kind by values of every kind.
func keySweep(tier string, emit func(PathCase)) {
	vals := []any{nil, true, false, 0.0, 1.0, 2.0, -1.0, -2.0, 3.0, 1.5, -1.5, 0.5, -0.5, 0.999999, 1.999999, 2.000001, 1e6, 1e7, 123456789.0, 1e15, 1e16, 9007199254740993.0, 1e18,
		-1e15, -123456789.5, 4194303.0, 4194304.0, -4194305.0, 8388608.0, 16777217.0, 2147483648.0, 4294967296.0, 4294967297.0,
		"", "a", "0", "1", "2", "7", "8", "9", "10", "18", "19", "29", "39", "40", "-1", "-8", "-9", "-19", "-40", "-41", "08", "1.5", "01", " 1", "1 ", "+1", "1e0", "length", "null", "true", "undefined", "<nil>", "nil", "[]", "[1]", "map[]", "{}", "failed", "é", "\u2028", "A",
		[]any{}, []any{1.0}, []any{"a"}, []any{nil}, []any{0.0}, []any{1.0, 2.0}, map[string]any{}, map[string]any{"a": 1.0}, []any{[]any{1.0}}}
	obj := map[string]any{}
	for _, v := range vals {
		switch v := v.(type) {
		case string:
			obj[v] = "string " + v
		case float64:
			if _, ok := obj[fmt.Sprint(v)]; !ok {
				obj[fmt.Sprint(v)] = "number"
			}
			if v == math.Trunc(v) {
				obj[strconv.FormatFloat(v, 'f', -1, 64)] = "integer " + fmt.Sprint(v)
			}
		}
	}
	for _, k := range []string{"false", "map[a:1]", "[a]", "[<nil>]", "[0]", "[1 2]", "[[1]]", "[object Object]", "1,2", "NaN", "-0", "error", "@", "$", "-123456789"} {
		obj[k] = "odd " + k
	}
	long := make([]any, 40)
	for i := range long {
		long[i] = float64(100 + i)
	}
	for ki, k := range vals {
		lit := docText(k)
		exprs := []string{"$.k", "[$.k][0]"}
		switch k := k.(type) {
		case nil, bool:
			exprs = append(exprs, lit)
		case string:
			exprs = append(exprs, lit, "'"+strings.ReplaceAll(k, "'", "\\'")+"'", "$.none||"+lit)
		case float64:
			if !strings.ContainsAny(lit, "e") {
				exprs = append(exprs, lit, "0+"+lit, lit+"*1.0")
			}
		}
		for _, d := range []any{obj, []any{"zero", "one", "two"}, long, []any{}, map[string]any{}, "str", nil, 7.0,
			[]any{obj, []any{"x", "y"}, "s", nil, []any{[]any{1.0, 2.0}}}, map[string]any{"a": map[string]any{"a": 1.0, "1": []any{5.0, 6.0, 7.0}}, "1": nil}} {
			doc := docText(map[string]any{"k": k, "d": d})
			for ei, e := range exprs {
				for fi, f := range []string{"$.d[(%s)]", "$.d.(%s)", "$.d..[(%s)]", "$.d..(%s)", "$.d[*][(%s)]", "$.d[?(@[%s])]", "$.d[?(@[%s]!=null)]", "$.d..[?(@[%s])]"} {
					if tier != "thorough" && ei > 0 && (ki+ei+fi)%2 != 0 {
						continue
					}
					emit(PathCase{Text(strings.Replace(f, "%s", e, 1)), doc})
				}
			}
		}
	}
}

// oddNumbers are spellings of numbers that few would print.
var oddNumbers = map[float64][]string{
	0.5:  {".5", "+.5", "0.50", "00.5", "5e-1", ".5e0", "50e-2", "0.5e+0", "5.E-1", ".05e1", "+5e-1"},
	-0.5: {"-.5", "-0.50", "-00.5", "-5e-1", "-.5e0", "-.5E+0", "-50e-2", "-5.e-1"},
	5:    {"5.", "+5", "05", "005", "5.0", "5.", "5e0", "5E0", "5e00", "5e-0", "+5.", "0.5e1", ".5e1", ".5E+1", "50e-1", "5.0e0", "+05", "5.00000000000000000000000001"},
	-5:   {"-5.", "-05", "-005", "-5.0", "-5e0", "-.5e1", "-50e-1", "-5.0E00"},
	0:    {"-0", "+0", "00", "0.", ".0", "-.0", "0e5", "0.0e-99", "-0.0", "000", "0e0", "1e-400"},
	1000: {"1e3", "1E3", "1e+3", "1E+03", "1.e3", "+1e3", "01e3", "1000.", "10e2", "0.1e4", ".1e4", "10000e-1", "1.000e3"},
	255:  {"0255", "255.", "2.55e2", "+255", "25.5e1"},
	1e16: {"10000000000000000", "1e16", "1E16", "+1e16", "1.e16", "10e15", "10000000000000000.", "10000000000000000.0", ".1e17"},
}

// numberPairs compares numbers, alone and in arrays, with the texts they might have.
func numberPairs(tier string, emit func(PairCase)) {
	texts := func(f float64) []string {
		e := strconv.FormatFloat(f, 'e', -1, 64)
		m, x, _ := strings.Cut(e, "e")
		short := strings.TrimLeft(x[1:], "0")
		l := []string{strconv.FormatFloat(f, 'f', -1, 64), e, m + "e" + x[:1] + short, m + "e" + strings.TrimLeft(x[:1], "+") + short, m + "E" + x[:1] + short, fmt.Sprint(f), strconv.FormatFloat(f, 'f', 1, 64), strconv.FormatFloat(f, 'f', 6, 64), strconv.FormatFloat(f, 'g', 6, 64), strconv.FormatFloat(f, 'f', 0, 64), " " + fmt.Sprint(f), "+" + fmt.Sprint(f)}
		var out []string
		seen := map[string]bool{}
		for _, t := range l {
			if !seen[t] {
				seen[t] = true
				out = append(out, t)
			}
		}
		return out
	}
	var odd []float64
	for f := range oddNumbers {
		odd = append(odd, f)
	}
	sort.Float64s(odd)
	for _, f := range odd {
		for _, g := range odd {
			n := docText(f)
			for i, s := range oddNumbers[g] {
				q := docText(s)
				emit(PairCase{A: n, B: q})
				emit(PairCase{A: q, B: n, Lit: 1})
				emit(PairCase{A: "[" + n + ",1]", B: "[" + q + ",1]", Lit: i % 3})
				if f == g {
					for _, s := range oddNumbers[f] {
						emit(PairCase{A: q, B: docText(s)})
						emit(PairCase{A: docText(s), B: q, Lit: 3})
					}
				}
			}
		}
	}
	for x := -12; x <= 26; x++ {
		for mi, m := range []float64{1, 1.5, 9.999, 1.234567890123456, 2, 9.999999999999999} {
			if tier != "thorough" && (mi+x+12)%2 == 1 && x < 16 && x > -4 {
				continue
			}
			f, _ := strconv.ParseFloat(strconv.FormatFloat(m, 'f', -1, 64)+"e"+strconv.Itoa(x), 64)
			if mi == 4 {
				f = -f
			}
			n := docText(f)
			for _, t := range texts(f) {
				q := docText(t)
				emit(PairCase{A: "[" + n + "]", B: q})
				emit(PairCase{A: q, B: "[[" + n + "]]", Lit: 1})
				emit(PairCase{A: n, B: q})
				emit(PairCase{A: n, B: "[" + q + "]", Lit: 2})
				emit(PairCase{A: "[" + n + "]", B: "[" + q + "]"})
				if t != fmt.Sprint(f) {
					emit(PairCase{A: q, B: docText(fmt.Sprint(f))})
				}
			}
		}
	}
}
