package main

import (
	"fmt"
	"math"
	"strings"
)

// Members of every name, and long lists of one kind of value.

// manyNames are names that some program might treat differently from others.
func manyNames() []string {
	l := append([]string{}, newNames...)
	for _, n := range nearNames {
		l = append(l, n...)
	}
	l = append(l, "__proto__", "constructor", "prototype", "hasOwnProperty", "toString", "valueOf", "this", "self", "root", "current", "parent", "undefined", "NaN", "Infinity", "-Infinity", "nil", "None", "null", "true", "false", "True", "TRUE", "Null", "and", "or", "not", "in", "nin", "if", "else", "for", "func", "function", "var", "new", "delete", "typeof", "void", "return",
		"id", "_id", "ID", "name", "type", "kind", "key", "value", "values", "keys", "items", "item", "data", "list", "array", "object", "map", "error", "failed", "failure", "result", "results", "count", "size", "len", "length", "Length", "index", "path", "text", "date", "time", "version", "default", "min", "max", "sum", "avg", "abs", "floor", "ceil", "prod", "first", "last", "contains", "match", "tokenize", "to_number", "starts_with", "ends_with",
		"$ref", "$id", "$schema", "$", "$$", "@", "@type", "@id", "#text", "#", "_", "__", "__typename", "_private", "-", "--", "-1", "-0", "00", "0", "1", "2", "10", "007", "1.5", "1e5", "0x10", "+1", "٣", "Ⅷ", "９",
		"book", "store", "title", "price", "isbn", "author", "category", "bicycle", "color", "a", "b", "x", "y", "A", "ab", "aa", "a-b", "a_b", "a.b", "a b", "a/b", "a:b", "a,b", "a'b", "a\"b", "a\\b", "a[b", "a]b", "a(b", "a*b", "a?b", "a@b", "a$b", "..", ".", "...", "*", "**", "?", "!", "~", "%", "%s", "%d", "&", "|", "^", "=", "==", "<", ">", ";", "`", "{", "}", "()", "[]", "{}", "[*]", "$.a", "'a'", "\"a\"",
		"\x00", "\x01", "\t", "\n", "\r", "\r\n", "\x1f", "\x7f", "\u0080", "\u00a0", "\u00ad", "\u00df", "SS", "\u0130", "\u0131", "I", "i", "\u200b", "\u200d", "\u2028", "\u2029", "\ufeff", "\ufffd", "\ufffe", "\uffff", "\U00010000", "\U0001F600", "\U0010FFFF", "é", "e\u0301", "日本", "привет", "שלום", "\u202eabc", strings.Repeat("n", 64), strings.Repeat("n", 255), strings.Repeat("n", 256), strings.Repeat("é", 130))
	seen := map[string]bool{}
	var out []string
	for _, n := range l {
		if !seen[n] {
			seen[n] = true
			out = append(out, n)
		}
	}
	return out
}

// quoteKey writes a text as a string literal of a path.
func quoteKey(s string) string {
	var b strings.Builder
	b.WriteByte('\'')
	for _, r := range s {
		switch {
		case r == '\'' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r < 0x20:
			fmt.Fprintf(&b, "\\u%04x", r)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('\'')
	return b.String()
}

// namedDocs have members of a name in every position.
func namedDocs(n string) []any {
	o := func(kv ...any) map[string]any {
		m := map[string]any{}
		for i := 0; i < len(kv); i += 2 {
			m[kv[i].(string)] = kv[i+1]
		}
		return m
	}
	return []any{
		o(n, o("p", 1.0, "q", []any{2.0})),
		o("p", 3.0, n, o("p", 1.0, "q", []any{o("p", 2.0)}), "z", o(n, 5.0, "p", nil)),
		[]any{o(n, nil), o(n, []any{o("p", 4.0)}, "p", 0.0), o(n, false, "p", []any{}), o("p", "x"), o(n, o(n, o(n, "deep", "p", 6.0)))},
		o(n, o(), "o", []any{[]any{o(n, []any{})}}, "p", o(n, "", "p", o(n, []any{[]any{}}))),
	}
}

func nameSweep(forms ...string) func(tier string, emit func(PathCase)) {
	return func(tier string, emit func(PathCase)) {
		for _, n := range manyNames() {
			k := quoteKey(n)
			for _, d := range namedDocs(n) {
				doc := docText(d)
				for _, f := range forms {
					emit(PathCase{Text(strings.ReplaceAll(f, "%s", k)), doc})
				}
			}
		}
	}
}

// nameSplits composes paths over members of every name.
func nameSplits(tier string, emit func(CompCase)) {
	pairs := [][2]string{{"$..*", "[%s]"}, {"$[%s]", "..p"}, {"$.*", "..[%s]"}, {"$..[%s]", ".*"}, {"$..[%s]", "..[?(@.p)]"}, {"$[?(@)]", "[%s]"}, {"$[%s,'p']", "[%s]"}, {"$..[?(@[%s])]", "[%s]"}}
	for i, n := range manyNames() {
		k := quoteKey(n)
		for j, d := range namedDocs(n) {
			for h, p := range pairs {
				if tier == "thorough" || (i+j+h)%2 == 0 {
					emit(CompCase{P: Text(strings.ReplaceAll(p[0], "%s", k)), Q: Text(strings.ReplaceAll(p[1], "%s", k)), Doc: docText(d)})
				}
			}
		}
	}
}

// alikes are values, and others that equal them, or nearly.
var alikes = []struct {
	name string
	at   func(i int) any
	ask  []any
}{
	{"texts of integers", func(i int) any { return fmt.Sprint(i) }, []any{0.0, 1.0, "1", -1.0, true, false, nil, "", []any{1.0}, []any{"0"}, 1.5}},
	{"integers", func(i int) any { return float64(i) }, []any{"0", 1.0, "1", "1.0", true, false, nil, "", []any{1.0}, []any{"0"}, 0.5, "x"}},
	{"halves", func(i int) any { return float64(i) + 0.5 }, []any{"0.5", 0.5, 1.5, "1.5", 1.0, []any{1.5}, true}},
	{"texts of halves", func(i int) any { return fmt.Sprint(float64(i) + 0.5) }, []any{"0.5", 0.5, 1.5, 1.0, []any{1.5}, true, ".5"}},
	{"negative integers", func(i int) any { return float64(-i) }, []any{"0", "-1", -1.0, 1.0, false, []any{-1.0}}},
	{"words", func(i int) any { return fmt.Sprintf("w%d", i) }, []any{"w0", "w1", "W1", "w", 1.0, true, []any{"w1"}, nil, "w01"}},
	{"long texts", func(i int) any { return strings.Repeat("long ", 20) + fmt.Sprint(i) }, []any{strings.Repeat("long ", 20) + "1", strings.Repeat("long ", 20), "long", 1.0}},
	{"arrays of one", func(i int) any { return []any{float64(i)} }, []any{0.0, 1.0, "1", []any{1.0}, []any{"1"}, true, nil, []any{[]any{1.0}}}},
	{"pairs", func(i int) any { return []any{float64(i), "p"} }, []any{[]any{1.0, "p"}, []any{"p", 1.0}, []any{1.0}, "1,p", []any{"1", "p"}, []any{1.0, "p", 1.0}}},
	{"objects", func(i int) any { return map[string]any{"k": float64(i)} }, []any{map[string]any{"k": 1.0}, map[string]any{"k": "1"}, map[string]any{"K": 1.0}, map[string]any{}, "[object Object]", nil}},
	{"true", func(i int) any { return true }, []any{true, false, 1.0, 2.0, "1", "true", nil, "", []any{1.0}}},
	{"false", func(i int) any { return false }, []any{true, false, 0.0, "0", "", "false", nil, []any{}, []any{0.0}}},
	{"null", func(i int) any { return nil }, []any{nil, false, 0.0, "", "null", []any{}, []any{nil}}},
	{"empty texts", func(i int) any { return "" }, []any{"", 0.0, false, nil, []any{}, " "}},
	{"zeros", func(i int) any { return 0.0 }, []any{0.0, "", "0", false, nil, []any{}, "-0", math.Copysign(0, -1)}},
	{"empty arrays", func(i int) any { return []any{} }, []any{[]any{}, "", 0.0, false, nil, map[string]any{}}},
	{"kinds in turn", func(i int) any {
		return []any{nil, true, float64(i), fmt.Sprint("t", i), []any{}, map[string]any{}}[i%6]
	}, []any{nil, 2.0, 8.0, "t3", "t9", "", map[string]any{}, []any{}, false, 14.0}},
}

// alikeSweep looks for values in lists of every length of one kind, at first, and after an odd one.
func alikeSweep(forms ...string) func(tier string, emit func(PathCase)) {
	return func(tier string, emit func(PathCase)) {
		var sizes []int
		for n := 1; n <= 40; n++ {
			sizes = append(sizes, n)
		}
		sizes = append(sizes, 47, 48, 49, 50, 51, 63, 64, 65, 66, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257)
		if tier == "thorough" {
			sizes = append(sizes, 511, 512, 513, 1000, 1001, 1023, 1024, 1025, 2048, 4097)
		}
		for ki, kind := range alikes {
			for si, n := range sizes {
				l := make([]any, n)
				for i := range l {
					l[(i*7+n/2)%n] = kind.at(i)
					if n%7 == 0 {
						l[n-1-i] = kind.at(i)
					}
				}
				if n%7 != 0 {
					for i := range l {
						l[i] = kind.at((i + n/2) % n)
					}
				}
				odd := append([]any{}, l...)
				odd[n/3] = alikes[(ki+si+1)%len(alikes)].at(3)
				ask := append([]any{}, kind.ask...)
				ask = append(ask, kind.at(n-1), kind.at(n), kind.at(n/2))
				var cands []any
				for i, a := range ask {
					cands = append(cands, map[string]any{"v": a})
					if i%3 == si%3 {
						cands = append(cands, map[string]any{"v": a, "l": odd})
					}
				}
				doc := docText(map[string]any{"c": cands, "l": l, "o": odd})
				for _, f := range forms {
					emit(PathCase{Text(f), doc})
				}
			}
		}
	}
}

func init() {
	add := func(id string, f ...*Family) { checks[id].Families = append(f, checks[id].Families...) }
	all := []string{"$[%s]", "$..[%s]", "$..p", "$..*", "$.*", "$.*.*", "$..q[*]", "$[%s].p", "$[%s]..p", "$[*][%s]", "$..[%s].p", "$..[%s]..p", "$[%s,'p']", "$..[%s,'p']", "$..[0]", "$..[-1:]"}
	filters := []string{"$[?(@[%s])]", "$..[?(@[%s])]", "$[?(@.p)]", "$..[?(@.p)]", "$..[?(@)]", "$..[?(!@[%s])]", "$..[?(@[%s]&&@.p)]", "$..[?(@[%s]||@.p)]", "$.*[?(@)]", "$[?(@==$[%s])]", "$..[?(@[%s].p)]"}
	add("C05", sweep("members of every name", nameSweep(all...), withSteps), sweep("integers as keys", intSweep, execInt))
	add("C07", sweep("members of every name", nameSweep("$..p", "$..*", "$..[%s]", "$..[?(@.p)]", "$..[?(@[%s])]", "$..[%s,'p']", "$..[%s]..[%s]", "$..[*]..p", "$..q..[0]", "$..[?(true)]", "$..[?(length(@)>0)]", "$[%s]..*"), withSteps))
	add("C08", sweep("members of every name", nameSweep(filters...), execPathCase))
	add("C09", sweep("members of every name", nameSplits, execComp))
	add("C20", sweep("members of every name", nameSweep(all...), execShape))
	add("C10", sweep("members of every name", nameSweep("$[?((@[%s]||'none')=='none')]", "$..[?(@[%s].p+1==2)]", "$..[?(@[%s].length==1)]", "$[(%s)]", "$..[(%s)]", "$[?(@[%s]<5)]", "$..[?(@[%s][0])]", "$[?(%s)]", "$..[?(@[%s]==null)]"), execPathCase))
	add("C11", sweep("members of every name", nameSweep("$..[?(@==$)]", "$..[?(@==$[%s])]", "$..[?(@[%s]==@.p)]", "$..[?(@!=$.p)]", "$..[?([@]==[$[%s]])]", "$..[?(@==%s)]"), execPathCase))
	add("C12", sweep("members of every name", nameSweep("$..[?(length(@)==2)]", "$..[?(contains(keys(@),%s))]", "$..[?(length(keys(@))==3)]", "$..[?(length(@[%s])==1)]", "$[?(starts_with(%s,'n'))]", "$..[?(contains(%s,'a'))]", "$..[?(max(%s,'a')=='a')]", "$..[?(length(%s)==1)]", "$..[?(to_number(%s)==1)]"), execPathCase))
	add("C13", sweep("lists of like values", alikeSweep("$.c[?(@.v in $.l)]", "$.c[?(@.v nin $.l)]", "$.c[?(@.v in $.o)]", "$.c[?(@.v in (@.l||$.l))]"), execPathCase))
	add("C12", sweep("lists of like values", alikeSweep("$.c[?(contains($.l,@.v))]", "$.c[?(contains($.o,@.v))]", "$.c[?(contains(@.l||$.l,@.v))]", "$.c[?(max($.l)==@.v)]", "$.c[?(min($.l)==@.v)]", "$.c[?(sum($.l)==@.v)]", "$.c[?(avg($.l)==@.v)]", "$.c[?(max($.o)==@.v)]", "$.c[?(min($.o)==@.v)]", "$.c[?(length($.l)==@.v)]", "$.c[?(prod($.o)==@.v)]", "$.c[?(sum($.o)==@.v)]"), execPathCase))
	add("C11", sweep("lists of like values", alikeSweep("$.c[?(@.l==$.l)]", "$.c[?(@.l==$.o)]", "$.c[?($.l==@.v)]", "$.c[?($.l!=$.o)]"), execPathCase))
	add("C10", sweep("lists of like values", alikeSweep("$.c[?($.l[@.v])]", "$.c[?($.l[0]<@.v)]", "$.c[?($.o[-1]>=@.v)]", "$.c[?(($.l[1]+@.v)==1)]"), execPathCase))
}
