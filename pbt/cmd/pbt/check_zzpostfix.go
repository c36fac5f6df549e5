package main

// Indices and members of every kind of expression in parentheses, and of every
// kind that can have them without (C03, C10).

var postfixOf = []string{"@", "-@", "!@", "-@.a", "!@.a", "-@[0]", "!@[0]", "- -@", "!!@", "-!@", "!-@", "-(@)", "!(@)", "(@)", "((@))", "(-@)", "(-@.a)", "@.a", "@['a']", "@[0]", "@[1].a", "$[0]", "$[1]", "-$[0]", "!$[1]", "[@]", "[@,1]", "[-@,!@]", "-[@]", "![@]", "[[@,2],@.a]", "[@][0]", "'ab'", "-'5'", "5", "-5", "null", "true", "!true", "length(@)", "-length(@)", "!length(@)", "keys(@)", "max(@,1)", "abs(@)", "-abs(@)",
	"@+@", "1+@", "@-1", "@*2", "@/2", "@%2", "@==@", "@!=1", "@<1", "@>=1", "@&&@", "@||@", "1||@", "null||@", "0&&@", "1&&@", "@&&1", "@||$[1]", "@.a||@", "@.a&&@", "@ in [@]", "1 nin @.l", "@.s=~/a/", "-@+@", "@+-@", "1-@", "@-@.a", "!@&&@", "!@||@", "@==@&&@", "@==1||@"}

var postfixes = []string{"[0]", "[1]", "[-1]", "['a']", ".a", ".length", "[0][0]", "[0].a", ".a[0]", ".a.a", "['a'][0]", "[@.n]", "[(0)]", "[-@.n]", "[@[0]]", "[0]['a']", "['0']", ".l[0]"}

var postfixAfter = []string{"", "==1", "+1", "&&1", "||1", "==null", "*2==2", " in [1]", "<2", "==-1", "==0"}

func postfixSweep(every int) func(tier string, emit func(ProbeCase)) {
	return func(tier string, emit func(ProbeCase)) {
		if tier == "thorough" {
			every = 1
		}
		var docs []string
		for _, d := range []string{
			`[[1,2],{"a":1,"0":5},[[1,3],{"a":2}],{"a":[1],"n":0,"s":"a","l":[1]},{"a":{"a":1},"l":[]},[1],[0],[],{}]`,
			`[1,-1,0,2.5,"5","ab","",true,false,null]`,
			`[[["x"],[0]],{"a":-1,"s":"b","l":[2,1],"n":1},[-1,{"a":[3]}],{"0":1,"1":2,"-1":3,"a":0,"l":[1]},{"a":true,"l":[1,2],"s":"a"},[true],[null],["1"],{"a":"2","l":[0],"s":"x"}]`,
		} {
			docs = append(docs, docText(parseDoc(d)))
		}
		n := 0
		for i, e := range postfixOf {
			for j, p := range postfixes {
				for k, after := range postfixAfter {
					for _, t := range []string{"(" + e + ")" + p + after, e + p + after, "-(" + e + ")" + p + after, "!(" + e + ")" + p + after, "1+(" + e + ")" + p + after, "(-(" + e + "))" + p + after, "(!(" + e + "))" + p + after, "((" + e + ")" + p + ")" + postfixes[(i+j+k)%len(postfixes)] + after, "[(" + e + ")" + p + after + "]==[1]", "abs((" + e + ")" + p + ")" + after} {
						if n++; n%every == 0 {
							for _, d := range docs {
								emit(ProbeCase{Text(t), d})
							}
						}
					}
				}
			}
		}
	}
}

func init() {
	add := func(id string, f ...*Family) { checks[id].Families = append(f, checks[id].Families...) }
	add("C03", sweep("indices of everything", postfixSweep(7), execProbe))
	add("C10", sweep("indices of everything", postfixSweep(29), execProbe))
}
