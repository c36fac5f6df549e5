package main

import (
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"

	"verif/pbt/ref"
)

// Every one of many values, through every operation.

// manyNumbers has small integers, powers and their neighbours, and fractions.
func manyNumbers(tier string) []float64 {
	seen := map[float64]bool{}
	var l []float64
	add := func(f float64) {
		if !seen[f] && !math.IsInf(f, 0) && !(math.Abs(f) > 1<<53 && f == math.Trunc(f) && math.Abs(f) < 1e18) {
			seen[f] = true
			l = append(l, f)
		}
	}
	most := 300
	if tier == "thorough" {
		most = 5000
	}
	for i := 0; i <= most; i++ {
		add(float64(i))
		add(float64(-i))
	}
	for b := 1; b <= 53; b++ {
		for d := -2; d <= 2; d++ {
			add(float64(int64(1)<<b + int64(d)))
			add(-float64(int64(1)<<b + int64(d)))
		}
	}
	for e := 2; e <= 15; e++ {
		for d := -1; d <= 1; d++ {
			add(math.Pow10(e) + float64(d))
			add(-math.Pow10(e) + float64(d))
			add(5*math.Pow10(e) + float64(d))
		}
	}
	for _, y := range []float64{360, 365, 366, 400, 404, 418, 500, 512, 640, 666, 720, 777, 999, 1080, 1234, 1337, 1440, 1900, 1970, 1984, 1999, 2001, 2024, 2025, 2026, 3600, 4321, 7777, 8080, 9999, 12345, 31337, 32766, 54321, 86400, 90210, 123456, 1234567, 12345678, 123456789, 3735928559, 2863311530} {
		add(y)
		add(-y)
	}
	for i := -40; i <= 40; i++ {
		add(float64(i) / 2)
		add(float64(i) / 10)
		add(float64(i) / 3)
		add(float64(i)*100 + 0.01)
		add(math.Ldexp(1, i*25))
		add(math.Pow10(i * 7))
		add(-math.Pow10(i * 7))
		add(float64(i) + 0.999999999)
	}
	return l
}

var commonWords = []string{"abc", "xyz", "test", "name", "id", "type", "title", "author", "price", "category", "isbn", "book", "store", "red", "green", "blue", "fiction", "hello world", "Hello", "HELLO", "the quick brown fox", "foo", "bar", "baz", "qux", "x", "y", "yes", "no", "on", "off", "TRUE", "False", "Null", "None", "inf", "Inf", "infinity", "nan", "-inf", "0x10", "0b1", "0o7", "1_000", "1,000", "1e5", "1E5", "1e", "e5", ".", ".5", "5.", "-", "-.", "+", "+-1", "--1", "1-", "1 2", "12abc", "abc12", "٣", "１２", "½", "²", "0.1.2", "2024-01-01", "12:30", "$1", "#1", "50%", "a,b,c", "a;b", "a\tb", "a\nb", "\r\n", "ab\x00c", "\x00", "\x7f", "\u0085", "\u00a0", "\u1680", "\u2000", "\u2028", "\u3000", "\ufeff", "\ufffd", "é", "e\u0301", "ß", "ſ", "K", "İ", "ı", "ǅ", "Ω", "日本語", "한국어", "עברית", "العربية", "😀", "👨‍👩‍👧", "🇫🇷", "\U0010ffff", "aa", "aaa", "aaaa", "abab", "ababab", "aab", "baa", "aba", "(a)", "[a]", "{a}", "a|b", "a*", "a+", "a?", "^a$", "\\d", "\\", "/", "//", "'", "\"", "`", "''", "a'b", "a\"b", "<b>", "&amp;", "&", "%20", "null\x00"}

func manyTexts(tier string) []any {
	var l []any
	seen := map[string]bool{}
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			l = append(l, s)
		}
	}
	for _, w := range append(append(append(append([]string{}, words...), oddKeys...), strPool...), commonWords...) {
		add(w)
	}
	for i, f := range manyNumbers("quick") {
		if tier == "thorough" || math.Abs(f) < 40 || i%7 == 0 {
			add(strconv.FormatFloat(f, 'f', -1, 64))
			if i%3 == 0 {
				add(strconv.FormatFloat(f, 'g', -1, 64))
			}
		}
	}
	return l
}

// valueCases is an expression of @.v, with its value over documents' v as @.r.
func valueCases(exprs []string, vals []any, emit func(PathCase)) {
	for _, text := range exprs {
		e, err := ref.ParseExpr(text)
		if err != nil {
			harness("%q: %v", text, err)
		}
		var chunk []any
		flush := func() {
			if len(chunk) == 0 {
				return
			}
			doc := docText(chunk)
			for _, f := range []string{"$[?((%s)==@.r)]", "$[?(!((%s)==@.r))]", "$[?(%s)]", "$[?((%s)==null)]", "$[?((%s)<@.r)]", "$[?([%s,1]==[@.r,1])]", "$[?((%s).length==@.n)]", "$[?((%s)==@.v)]"} {
				emit(PathCase{Text(fmt.Sprintf(f, text)), doc})
			}
			chunk = nil
		}
		list := []any{"e0", "e1", "e2", "e3", "e4"}
		for _, v := range vals {
			m := map[string]any{"v": v}
			root := []any{m}
			if strings.Contains(text, "@.l") {
				m["l"] = list
			}
			r, out := ref.EvalExpr(e, root, m)
			if out.Status != ref.OK && out.Status != ref.MaybeErr {
				continue
			}
			switch r := r.(type) {
			case int64:
				if r > 1<<53 || r < -1<<53 {
					continue
				}
				m["r"] = float64(r)
			case float64:
				if math.IsInf(r, 0) || math.IsNaN(r) {
					continue
				}
				m["r"] = r
			case string:
				m["r"] = r
				m["n"] = float64(len([]rune(r)))
			case bool, nil:
				m["r"] = r
			case []any:
				m["r"] = parseDoc(ref.Canon(r))
				m["n"] = float64(len(r))
			}
			chunk = append(chunk, m)
			if len(chunk) == 40 {
				flush()
			}
		}
		flush()
	}
}

func numbersThrough(exprs ...string) func(tier string, emit func(PathCase)) {
	return func(tier string, emit func(PathCase)) {
		var l []any
		for _, f := range manyNumbers(tier) {
			l = append(l, f)
		}
		valueCases(exprs, l, emit)
	}
}

func textsThrough(exprs ...string) func(tier string, emit func(PathCase)) {
	return func(tier string, emit func(PathCase)) { valueCases(exprs, manyTexts(tier), emit) }
}

// textPairs puts every text to every other.
func textPairs(keep func(a, b string) bool, paths ...string) func(tier string, emit func(PathCase)) {
	return func(tier string, emit func(PathCase)) {
		var texts []string
		for i, v := range manyTexts("quick") {
			if tier == "thorough" || i < 130 || i%4 == 0 {
				texts = append(texts, v.(string))
			}
		}
		for _, b := range texts {
			var chunk []any
			n := 0
			flush := func() {
				for _, p := range paths {
					emit(PathCase{Text(p), docText(chunk)})
				}
				chunk = nil
			}
			for _, a := range texts {
				if keep != nil && !keep(a, b) {
					continue
				}
				n++
				chunk = append(chunk, map[string]any{"a": a, "b": b})
				if len(chunk) == 100 {
					flush()
				}
			}
			if len(chunk) > 0 {
				flush()
			}
		}
	}
}

func validRE(a, b string) bool {
	_, err := regexp.Compile(b)
	return err == nil
}

// literalNumbers has every number as a literal, in every place for one.
func literalNumbers(tier string, emit func(PathCase)) {
	wide := make([]any, 1300)
	obj := map[string]any{}
	for i := range wide {
		wide[i] = float64(i)
		obj[strconv.Itoa(i)] = "p" + strconv.Itoa(i)
		obj[strconv.Itoa(-i)] = "m" + strconv.Itoa(i)
	}
	delete(obj, "-0")
	for i, f := range manyNumbers(tier) {
		lit := strconv.FormatFloat(f, 'f', -1, 64)
		near := docText([]any{f, f + 1, f - 1, -f, f * 2, "x", lit, f + 0.5})
		emit(PathCase{Text("$[?(@==" + lit + ")]"), near})
		emit(PathCase{Text("$[?(@<" + lit + ")]"), near})
		emit(PathCase{Text("$[?(@ in ['a'," + lit + "])]"), near})
		emit(PathCase{Text("$[?(@-" + lit + "==0)]"), near})
		emit(PathCase{Text("$[?([0," + lit + ",1][1]==@)]"), near})
		emit(PathCase{Text("$[?(max(" + lit + ",@)==@)]"), near})
		if f == math.Trunc(f) {
			if f >= -1300 && f <= 1300 && (tier == "thorough" || i%3 == 0) {
				n := len(wide)
				if math.Abs(f) < 100 {
					n = 101
				}
				doc := docText(map[string]any{"l": wide[:n], "o": obj})
				for _, p := range []string{"$.l[%s]", "$.*[%s]", "$.l[(%s)]", "$.l[0,%s]", "$.l[%s:][0]", "$.l[:%s][-1]", "$.l[::%s][1]", "$.o[%s]", "$.o[(%s)]", "$..[%s]", "$.o.%s", "$[?(@[%s]==@[0])]"} {
					if p != "" {
						emit(PathCase{Text(fmt.Sprintf(p, lit)), doc})
					}
				}
			}
		}
	}
}

func init() {
	add := func(id string, f ...*Family) { checks[id].Families = append(f, checks[id].Families...) }
	add("C04", sweep("many numbers as literals", literalNumbers, execPathCase))
	add("C10", sweep("many numbers", numbersThrough("-@.v", "!@.v", "@.v+1", "@.v-1", "1-@.v", "@.v*2", "@.v/2", "@.v%7", "7%@.v", "1/@.v", "@.v*@.v", "@.v<5", "@.v>=100", "@.v&&1", "@.v||'z'", "@.v.length", "@.l[@.v]", "@.v+@.v", "2>@.v", "@.v<=true", "-(-@.v)", "@.v*0.5", "@.v%1.5", "@.v/@.v", "@.v+0.5", "@.v-@.v", "@.v*-1", "0.1*@.v"), execPathCase),
		sweep("many texts", textsThrough("-@.v", "!@.v", "@.v+1", "@.v*2", "@.v<'m'", "@.v>='1'", "@.v>5", "@.v&&1", "@.v||'z'", "@.v.length", "@.l[@.v]", "@.v[0]", "@[@.v]", "'a'<=@.v", "@.v/2", "@.v.a"), execPathCase),
		sweep("pairs of texts", textPairs(nil, "$[?(@.a<@.b)]", "$[?(@.a>=@.b)]"), execPathCase))
	add("C11", sweep("many numbers", numbersThrough("@.v==1", "@.v==''", "@.v==true", "@.v=='1'", "@.v==null", "@.v==[1]", "@.v!=-1", "@.v==false", "[@.v]==@.v", "@.v=='255'", "@.v==1.5", "@.v==[]", "@.v==100"), execPathCase),
		sweep("many texts", textsThrough("@.v==1", "@.v==''", "@.v==true", "@.v=='a'", "@.v==null", "@.v==['a']", "@.v!='1'", "@.v==false", "[@.v]==@.v", "@.v==0", "@.v==1.5", "@.v==[]", "'-1'==@.v"), execPathCase),
		sweep("pairs of texts", textPairs(nil, "$[?(@.a==@.b)]", "$[?([@.a,1]!=[@.b,1])]"), execPathCase))
	add("C12", sweep("many numbers", numbersThrough("abs(@.v)", "ceil(@.v)", "floor(@.v)", "to_number(@.v)", "avg([@.v])", "sum([@.v,1])", "prod([@.v,2])", "min(@.v,1)", "max([@.v,1])", "length(@.v)", "keys(@.v)", "contains(@.v,1)", "contains([@.v],1)", "contains([@.v,'a'],@.v)", "starts_with(@.v,'1')", "ends_with('1',@.v)", "tokenize(@.v,'1')", "min([@.v,0.5])", "max(-1,@.v,100)", "avg([@.v,@.v])"), execPathCase),
		sweep("many texts", textsThrough("abs(@.v)", "ceil(@.v)", "floor(@.v)", "to_number(@.v)", "avg([@.v])", "sum([@.v,1])", "prod([@.v,2])", "min(@.v,'m')", "max([@.v,'a'])", "length(@.v)", "keys(@.v)", "contains(@.v,'a')", "contains([@.v],'1')", "starts_with(@.v,'a')", "ends_with(@.v,'b')", "starts_with('abc',@.v)", "tokenize(@.v,'a')", "tokenize(@.v,',')", "tokenize(@.v,'\\\\s+')", "tokenize(@.v,'')", "min(@.v,1)", "contains('a',@.v)", "length(tokenize(@.v,'[0-9]'))"), execPathCase),
		sweep("pairs of texts", textPairs(nil, "$[?(contains(@.a,@.b))]", "$[?(starts_with(@.a,@.b))]", "$[?(ends_with(@.a,@.b))]", "$[?(min(@.a,@.b)==@.a)]", "$[?(contains([@.a],@.b))]"), execPathCase),
		sweep("texts cut", textPairs(validRE, "$[?(length(tokenize(@.a,@.b))==2)]", "$[?(tokenize(@.a,@.b)[0]==@.a)]"), execPathCase))
	add("C13", sweep("many numbers", numbersThrough("@.v in [1,'a',null,true,100,1.5]", "@.v nin ['',0,'12']", "'1' in [@.v]", "@.v in [@.v]", "255 in [1,@.v]"), execPathCase),
		sweep("many texts", textsThrough("@.v in [1,'a',null,true,'']", "@.v nin ['',0]", "'a' in [@.v]", "@.v=~/a/", "@.v=~/^[a-z]+$/", "@.v=~/\\d/", "@.v=~/^$/", "@.v=~/./", "@.v=~/\\s/", "@.v=~/(?i)A/", "@.v=~'\\\\W'", "@.v=~/\\bA\\b|b$/", "@.v=~/[^a]/", "1 in [@.v]"), execPathCase),
		sweep("pairs of texts", textPairs(validRE, "$[?(@.a=~@.b)]", "$[?(@.a in [1,@.b])]"), execPathCase))
}
