package main

import "strings"

// What is not there, everywhere: an operand, argument, element or subscript
// that has no value, over documents whose members and texts could be mistaken
// for one.

var nothings = []string{"@.none", "$.none", "@.none.more", "@.t[7]", "@['none']", "@.n.a", "@.n[0]", "@.z.a", "@.s.a", "-'x'", "1-'x'", "@.n%'y'", "@.none+1", "-@.none", "@.o[@.none]", "@.none[0]", "@[@.none]", "@.t[1.5+@.none]", "@.none*0", "@.s-1", "@.t-1", "(@.none)", "1<'x'", "@.none<1", "max()", "min([])", "first([])", "to_number('x')", "avg([])", "@.o-@.o", "1/0", "1%0", "1.5/0", "@.n/0", "0/@.none", "-@.t", "-@.o", "-@.n.x"}

// likeNothings are texts that a failure could print as.
var likeNothings = []string{"failed", "nil", "<nil>", "null", "undefined", "error", "nothing", "", "NaN", "%!s(<nil>)", "{}", "[]", "false", "0", "none"}

func nothingDoc(like string) map[string]any {
	o := map[string]any{"a": 1.0, "b": "two"}
	e := map[string]any{"n": 3.0, "s": "text", "z": nil, "t": []any{1.0, "failed", nil}, "o": o, "a": "here"}
	if like != "none" {
		o[like] = "wrong"
		e[like] = "wrong too"
	}
	return e
}

var nothingForms = []string{"%s", "!%s", "!!%s", "-(%s)", "%s==null", "null==%s", "%s!=null", "%s==%s", "%s!=%s", "%s=='failed'", "'failed'==%s", "%s!='failed'", "%s==''", "%s==0", "%s==false", "false!=%s", "[%s]==[null]", "[%s]==[]", "[%s]", "[1,%s]", "[%s,1]", "[%s].length", "[[%s]]", "[%s][0]", "[1,%s][1]", "[1,%s][0]",
	"%s+1", "1+%s", "'a'+%s", "%s+'a'", "%s-1", "1-%s", "%s*0", "0*%s", "%s/1", "0/%s", "%s%%1", "1%%%s", "%s<1", "1<%s", "%s>=0", "%s<='z'", "'a'<%s", "%s&&1", "1&&%s", "0&&%s", "%s||1", "%s||%s", "1||%s", "0||%s", "%s||0||'end'", "%s&&'x'||'y'",
	"@.o[%s]", "@[%s]", "@.t[%s]", "@.s[%s]", "@.o[%s]==null", "@.o[%s]||'gone'", "@.t[%s]||'gone'", "@[%s].length", "(%s).length", "(%s).a", "(%s)['a']", "(%s)[0]", "(%s)[-1]", "(%s)[%s]",
	"%s in [1,null]", "%s in ['failed']", "%s nin [1]", "%s in []", "%s nin []", "1 in [%s]", "null in [%s]", "null nin [%s,2]", "%s in [%s]", "%s nin [%s]", "[%s] in [[null]]", "%s =~ /failed/", "%s =~ /.*/", "%s =~ ''", "'failed' =~ 'fail'&&%s",
	"length(%s)", "first(%s)", "keys(%s)", "sum(%s)", "min(%s)", "max(%s)", "avg(%s)", "abs(%s)", "floor(%s)", "ceil(%s)", "to_number(%s)", "contains(%s,'a')", "contains('failed',%s)", "contains(@.t,%s)", "contains(%s,%s)", "starts_with(%s,'f')", "starts_with('f',%s)", "ends_with(%s,'d')", "ends_with('d',%s)", "match(%s,'f')", "match('failed',%s)", "prod(%s)", "min(1,%s)", "max(%s,1)", "sum([1,%s])", "avg([%s])", "min([1,%s])", "length([%s])", "length(@.o[%s])", "first([%s])", "keys(@.t[%s])"}

func nothingSweep(every int) func(tier string, emit func(ProbeCase)) {
	return func(tier string, emit func(ProbeCase)) {
		if tier == "thorough" {
			every = 1
		}
		n := 0
		for _, like := range likeNothings {
			doc := docText([]any{nothingDoc(like), nothingDoc("none"), 4.0, "failed"})
			for i, f := range nothingForms {
				for j := range nothings {
					n++
					// each form with each nothing at least once
					if (i+j)%len(likeNothings) != 0 && n%every != 0 && tier != "thorough" && like != "failed" {
						continue
					}
					emit(ProbeCase{Text(fillAll(f, nothings[j], nothings[(j*7+3)%len(nothings)])), doc})
				}
			}
		}
	}
}

// fillAll puts a for the first %s, b for the second, and % for %%.
func fillAll(f, a, b string) string {
	var out []byte
	for i := 0; i < len(f); i++ {
		if f[i] == '%' && i+1 < len(f) {
			i++
			if f[i] == 's' {
				out = append(out, a...)
				a = b
				continue
			}
		}
		out = append(out, f[i])
	}
	return string(out)
}

// nothingKeys uses what is not there as a subscript in a path.
func nothingKeys(tier string, emit func(PathCase)) {
	for _, like := range likeNothings {
		e := nothingDoc(like)
		e["l"] = []any{nothingDoc(like), []any{1.0, 2.0}, "failed", nil}
		doc := docText(e)
		for _, k := range nothings {
			for _, f := range []string{"$[(%s)]", "$.o[(%s)]", "$.t[(%s)]", "$.(%s)", "$..[(%s)]", "$..(%s)", "$.l[*][(%s)]", "$.*[(%s)]", "$.l[?(@[%s])]", "$.l[?(@.o[%s]=='wrong')]", "$[?(@[%s])]", "$..[?(@[%s])]", "$.l[(%s)].o", "$.l[0][(%s)]"} {
				emit(PathCase{Text(fillAll(f, strings.ReplaceAll(k, "@", "$"), "")), doc})
			}
		}
	}
}

func init() {
	add := func(id string, f ...*Family) { checks[id].Families = append(f, checks[id].Families...) }
	add("C05", sweep("what is not there as a key", nothingKeys, withSteps))
	add("C10", sweep("what is not there", nothingSweep(7), execProbe), sweep("what is not there as a key", nothingKeys, withSteps))
	for _, id := range []string{"C06", "C07", "C11", "C12", "C13", "C14"} {
		add(id, sweep("what is not there", nothingSweep(40), execProbe))
	}
}
