package main

import (
	"fmt"

	"pgregory.net/rapid"
)

// Cases of other checks, under the properties that hold of every evaluation.
// (The file's name keeps its init after those of the others.)

// probePaths are the paths by which the value of an expression shows.
var probePaths = []string{"$[?(%s)]", "$[?((%s)==null)]", "$[?([%s]==[true])]", "$[?(!(%s)||@==$[0])]", "$[?(@[%s])]", "$..[?(%s)]", "$[?(%s)][?(%[1]s)]", "$[?((%s)==(%[1]s))]"}

func probeOf(c ProbeCase, k int) PathCase {
	return PathCase{Text(fmt.Sprintf(probePaths[k%len(probePaths)], string(c.Expr))), c.Doc}
}

// anyCase has a case of another check.
func anyCase(t *rapid.T) PathCase {
	probe := func(c ProbeCase) PathCase { return probeOf(c, below(t, len(probePaths))) }
	switch weighted(t, 3, 3, 2, 3, 2, 2, 2, 2, 2, 2, 1, 1, 2, 2) {
	case 0:
		return probe(genFn(t))
	case 1:
		return probe(genLongCall(t))
	case 2:
		return probe(genMatch(t))
	case 3:
		return probe(genLongMatch(t))
	case 4:
		return probe(genChain(t))
	case 5:
		return probe(genProbe(3, nil)(t))
	case 6:
		return genPlaced(t)
	case 7:
		return genError(t)
	case 8:
		return genKey(t)
	case 9:
		return genPathCase(stdDoc, slicePath)(t)
	case 10:
		return probe(genNull(t))
	case 11:
		return genLongSlice(t).path()
	case 12:
		return genPathCase(stdDoc, filterPath)(t)
	}
	return genPathCase(stdDoc, pathCfg{steps: 3, w: [8]int{4, 1, 2, 1, 1, 10, 1}, nest: 5, depth: 3})(t)
}

// anyTable has the tables of other checks, with those of most cases thinned.
func anyTable(tier string, emit func(PathCase)) {
	n := 0
	probes := func(sw func(string, func(ProbeCase)), every int) {
		sw(tier, func(c ProbeCase) {
			n++
			if n%every == 0 || tier == "thorough" {
				emit(probeOf(c, n/every))
			}
		})
	}
	probes(fnSweep, 1)
	probes(opSweep(allOps, nil), 3)
	probes(unarySweep, 1)
	probes(matchSweep, 1)
	probes(numberTextSweep("-@.s", "@.l[@.s]", "@.s<@.n", "@.s==@.n", "to_number(@.s)"), 4)
	paths := func(sw func(string, func(PathCase)), every int) {
		sw(tier, func(c PathCase) {
			n++
			if n%every == 0 || tier == "thorough" {
				emit(c)
			}
		})
	}
	paths(keySweep, 2)
	paths(pathSweep, 2)
	paths(errorSweep, 7)
}

func histOf(c PathCase) HistCase {
	ops := []HistOp{{K: "eval"}, {K: "overwrite"}, {K: "eval"}, {K: "append"}, {K: "eval"}}
	return HistCase{[]Text{c.Path}, []string{c.Doc}, ops}
}

func genAnyHist(t *rapid.T) HistCase {
	var c HistCase
	for i, n := 0, between(t, 1, 3); i < n; i++ {
		p := anyCase(t)
		c.Paths = append(c.Paths, p.Path)
		c.Docs = append(c.Docs, p.Doc)
	}
	for i, n := 0, between(t, 2, 6); i < n; i++ {
		k := below(t, len(c.Paths))
		op := HistOp{K: pick(t, []string{"eval", "eval", "eval", "overwrite", "append"}), P: k, D: k, N: below(t, 6)}
		if chance(t, 1, 5) {
			op.D = below(t, len(c.Docs))
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func genAnyConc(t *rapid.T) ConcCase {
	c := ConcCase{Workers: between(t, 2, 6), Rounds: between(t, 1, 6), Compile: between(t, 2, 8), Procs: pick(t, []int{8, 2, 4})}
	for i, n := 0, between(t, 1, 4); i < n; i++ {
		p := anyCase(t)
		c.Paths = append(c.Paths, p.Path)
		c.Docs = append(c.Docs, p.Doc)
	}
	return c
}

// panicsOnly is a family of another check, of which only panics (and the end of the process) count.
func panicsOnly(id string, f *Family) *Family {
	g := *f
	g.Name = id + ": " + f.Name
	g.Quick, g.Deep = f.Quick/6, f.Deep/6
	g.Exec = func(c any) Result {
		res := f.Exec(c) // a panic passes
		return Result{Skip: res.Skip, Trivia: res.Trivia}
	}
	return &g
}

func init() {
	c1 := checks["C01"]
	for _, id := range []string{"C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C20"} {
		for _, f := range checks[id].Families {
			if f.Name == "sizes" || id == "C04" && f.Name == "many constants" {
				continue // C19 has those
			}
			c1.Families = append(c1.Families, panicsOnly(id, f))
		}
	}
	c1.Families = append(c1.Families, sweep("positions", func(tier string, emit func(AnyCase)) {
		positionSweep(tier, func(c SyntaxCase) { emit(AnyCase{c.Text, `{"a":[1,{"b":"a"}],"b":{"a":2}}`}) })
	}, execAny))
	c15 := checks["C15"]
	c15.Families = append([]*Family{sweep("tables of other checks", func(tier string, emit func(HistCase)) {
		anyTable(tier, func(c PathCase) { emit(histOf(c)) })
	}, execHist)}, c15.Families...)
	c15.Families = append(c15.Families, family("cases of other checks", 12000, 600000, genAnyHist, execHist))
	c16 := checks["C16"]
	c16.Families = append(c16.Families, family("cases of other checks", 1500, 80000, genAnyConc, execConc))
	c17 := checks["C17"]
	c17.Families = append([]*Family{sweep("tables of other checks", func(tier string, emit func(LeakCase)) {
		anyTable(tier, func(c PathCase) { emit(LeakCase{c.Path, c.Doc, 1}) })
	}, execLeak)}, c17.Families...)
	c17.Families = append(c17.Families, family("cases of other checks", 12000, 600000, func(t *rapid.T) LeakCase {
		c := anyCase(t)
		return LeakCase{c.Path, c.Doc, between(t, 1, 3)}
	}, execLeak))
}
