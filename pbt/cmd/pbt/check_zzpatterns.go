package main

// Regular expressions with every construct, on texts made for them, for every
// user of a pattern: =~ and ~ with a literal and a computed pattern, tokenize.

var patternAtoms = []string{"a", ".", "[ab]", "[^a]", "\\d", "\\s", "\\W", "é", "(a)", "(?:ab)", "(a|b)", "(a|)", "(|b)", "x|y", "a|", "|a", "|", "(?i)a", "(?s).", "(?m)^a$", "^", "$", "\\b", "\\B", "\\.", "\\pL", "[[:digit:]]", ",", "", "a.b", "\\x{65e5}", "(?U)a+"}

var patternSuffixes = []string{"", "*", "+", "?", "{2}", "{0,1}", "*?", "+?", "??", "{0}", "{1,}"}

var patternSubjects = []any{"", "a", "b", "ab", "ba", "aa", "aab", "abab", "a,b", ",", ",,", ",a,", "a,,b", "x1y", "1", "12", "a1b2", " a ", "a\nb", "\n", "a.b", "é", "éa日", "日本", "A", "AbA", "aXb", "xyx", "yaab", "no match", "a|b", "^", "$", "aaaa", 5.0, nil}

// allPatterns has atoms with suffixes, and pairs of atoms.
func allPatterns(every int) []string {
	var l []string
	for i, a := range patternAtoms {
		for _, s := range patternSuffixes {
			l = append(l, a+s)
		}
		for j, b := range patternAtoms {
			if (i*7+j)%every == 0 {
				l = append(l, a+b, a+"|"+b, "("+a+")"+b+"*", "^"+a+b+"$", a+"+|"+b+"?")
			}
		}
	}
	return l
}

func patternSweep(every int, forms ...string) func(tier string, emit func(ProbeCase)) {
	return func(tier string, emit func(ProbeCase)) {
		if tier == "thorough" {
			every = 1
		}
		for i, p := range allPatterns(every) {
			if !validRE("", p) {
				continue
			}
			var l []any
			for _, s := range patternSubjects {
				if _, text := s.(string); text {
					l = append(l, map[string]any{"s": s, "p": p})
				}
			}
			for _, f := range forms {
				switch f {
				case "literal":
					emit(ProbeCase{Text("@.s=~" + regexText(p)), docText(l)})
				case "string":
					emit(ProbeCase{Text("@.s~" + plainExpr(eStr(p))), docText(l)})
				case "computed":
					emit(ProbeCase{"@.s=~@.p", docText(l)})
				default:
					emit(ProbeCase{Text(f), docText(append(l, map[string]any{"s": patternSubjects[len(patternSubjects)-1-i%2], "p": p}))})
				}
			}
		}
	}
}

func init() {
	add := func(id string, f ...*Family) { checks[id].Families = append(f, checks[id].Families...) }
	add("C12", sweep("patterns", patternSweep(3, "tokenize(@.s,@.p)", "length(tokenize(@.s,@.p))"), execProbe))
	add("C13", sweep("patterns", patternSweep(3, "literal", "string", "computed"), execProbe))
	add("C15", sweep("patterns", func(tier string, emit func(HistCase)) {
		n := 0
		patternSweep(9, "literal", "tokenize(@.s,@.p)", "computed")(tier, func(c ProbeCase) {
			n++
			emit(histOf(probeOf(c, n)))
		})
	}, execHist))
}
