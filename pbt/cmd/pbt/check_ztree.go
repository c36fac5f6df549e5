//go:build tree

package main

import (
	"fmt"
	"strings"
)

// The texts of other checks, as trees.

// treeTexts has the tables of other checks.
func treeTexts(tier string, emit func(TreeTextCase)) {
	n := 0
	paths := func(every int, sws ...func(string, func(PathCase))) {
		for _, sw := range sws {
			sw(tier, func(c PathCase) {
				n++
				if n%every == 0 || tier == "thorough" {
					emit(TreeTextCase{Text: c.Path, Doc: c.Doc})
				}
			})
		}
	}
	paths(1, anyTable)
	paths(11, literalNumbers)
	paths(7, nameSweep("$[%s]", "$..[%s,'p']", "$[?(@[%s]==%s)]", "$[(%s)]"))
	syntax := func(every int, sws ...func(string, func(SyntaxCase))) {
		for _, sw := range sws {
			sw(tier, func(c SyntaxCase) {
				n++
				if n%every == 0 || tier == "thorough" {
					emit(TreeTextCase{Text: c.Text, Expr: c.Expr, Doc: map[bool]string{false: `{"a":[1,{"b":"a"}],"b":{"a":2}}`}[c.Expr]})
				}
			})
		}
	}
	syntax(13, positionSweep)
}

// treeLiterals has strings, names, expressions and numbers of many lengths, of every sort of character.
func treeLiterals(tier string, emit func(TreeTextCase)) {
	sorts := []struct{ unit, kinds string }{
		{"a", "snr"}, {"é", "snr"}, {"日", "snr"}, {"😀", "snr"}, {"\x80", "sn"}, {"\xc3", "sn"}, {"\xf0\x9f", "sn"}, {"\xed\xa0\x80", "sn"}, {"\\\\", "sr"}, {"\\n", "sr"}, {"\\u00e9", "s"}, {"\\ud83d\\ude00", "s"}, {"\\u0000", "s"}, {"\\ud800", "s"}, {" ", "sr"}, {"\"", "r"}, {"\\'", "s"}, {"_", "n"}, {"7", "d"}, {"0", "d"}, {"[a]", "r"}, {"(", "s"}, {"%", "sr"}, {"%s%d", "sr"}, {"\x7f", "sr"}, {"a日", "snr"}, {"\xffa", "sn"}, {"`", "sr"}, {"\\/", "sr"}, {"\u2028", "snr"}, {"x{1,2}", "s"}, {"\\t", "r"}, {"A9_", "n"},
	}
	var sizes []int
	for n := 1; n <= 70; n++ {
		sizes = append(sizes, n)
	}
	sizes = append(sizes, 80, 99, 100, 101, 127, 128, 129, 199, 200, 255, 256, 257, 300, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 4095, 4096, 4097)
	if tier == "thorough" {
		sizes = append(sizes, 8191, 8192, 16384, 32767, 32768, 65535, 65536, 65537, 100000, 1<<20)
	}
	for _, s := range sorts {
		for _, n := range sizes {
			for shift := 0; shift < 2; shift++ {
				body := strings.Repeat(s.unit, n)
				if shift == 1 {
					body = "b" + body // other places within the units
				}
				for _, k := range s.kinds {
					var e, p string
					switch k {
					case 's':
						e, p = "'"+body+"'", "$['"+body+"',\"b\"]"
					case 'n':
						e, p = "@."+body, "$."+body+".."+body
					case 'r':
						e, p = "@=~/"+body+"/", "$[?(@.a=~/"+body+"/)]"
					case 'd':
						if shift == 1 {
							body = "1." + body[1:] + "1e-5"
						}
						e, p = body, "$[?(@<"+body+")]"
						if n > 18 && shift == 0 {
							p = "$[?(@<1." + body + ")]"
						}
					}
					emit(TreeTextCase{Text: Text(e), Expr: true})
					emit(TreeTextCase{Text: Text(p), Doc: `{"a":"aé日😀","b":1}`})
					if k == 'n' && shift == 0 {
						emit(TreeTextCase{Text: Text(body + "(" + body + ",1)"), Expr: true})
					}
				}
			}
		}
	}
	// many arguments, elements, steps
	for _, n := range sizes {
		if n > 5000 {
			break
		}
		emit(TreeTextCase{Text: Text("[" + strings.Repeat("1,", n) + "'x']"), Expr: true})
		emit(TreeTextCase{Text: Text("f(" + strings.Repeat("@,", n) + "$)"), Expr: true})
		emit(TreeTextCase{Text: Text(strings.Repeat("-", n) + "1"), Expr: true})
		emit(TreeTextCase{Text: Text(strings.Repeat("1-", n) + "@"), Expr: true})
		emit(TreeTextCase{Text: Text("@" + strings.Repeat(".a", n)), Expr: true})
		emit(TreeTextCase{Text: Text("@" + strings.Repeat("[0]", n)), Expr: true})
		emit(TreeTextCase{Text: Text(strings.Repeat("(", n) + "1" + strings.Repeat(")", n)), Expr: true})
		emit(TreeTextCase{Text: Text("$" + strings.Repeat(".a", n)), Doc: `{"a":1}`})
		emit(TreeTextCase{Text: Text("$[" + strings.Repeat("0,", n) + "1:]"), Doc: `[1,2]`})
		emit(TreeTextCase{Text: Text(fmt.Sprintf("$[%d:-%d:%d]", n, n, -n)), Doc: `[1,2]`})
		emit(TreeTextCase{Text: Text("$" + strings.Repeat("[?(@)]", n)), Doc: `[]`})
	}
}

func init() {
	c := checks["C21"]
	c.Families = append([]*Family{sweep("literals of every length", treeLiterals, execTreeText), sweep("texts of other checks", treeTexts, execTreeText)}, c.Families...)
}
