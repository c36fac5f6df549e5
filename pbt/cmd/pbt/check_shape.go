package main

import (
	"encoding/json"
	"fmt"
	"strconv"

	"github.com/forsyth/jsonpath"
	"verif/pbt/ref"

	"pgregory.net/rapid"
)

// C20 selection by structure alone.

func genShape(t *rapid.T) PathCase {
	cfg := stdDoc
	if chance(t, 1, 3) {
		cfg.single = true
	}
	doc := document(t, cfg)
	if chance(t, 1, 12) {
		doc = (&docGen{t: t, cfg: cfg}).scalar()
	}
	pc := stdPath
	pc.w = [8]int{8, 5, 5, 4, 4, 0, 0}
	pc.nest = 4
	pc.bigIdx = chance(t, 1, 8)
	return PathCase{Text(style(t).path(genPath(t, doc, pc))), docText(doc)}
}

// replaceScalars copies v with each scalar replaced by what f says of the nth.
func replaceScalars(v any, n *int, f func(n int, old any) any) any {
	switch v := v.(type) {
	case []any:
		l := make([]any, len(v))
		for i, x := range v {
			l[i] = replaceScalars(x, n, f)
		}
		return l
	case map[string]any:
		m := make(map[string]any, len(v))
		for _, k := range sortedKeys(v) {
			m[k] = replaceScalars(v[k], n, f)
		}
		return m
	}
	*n++
	return f(*n-1, v)
}

func token(n int) string { return fmt.Sprintf("\u00a7%d", n) }

// kinds of replacement; the first marks each scalar's place
var replacements = []replacement{
	{"tokens", func(n int, old any) any { return token(n) }},
	{"as they were", func(n int, old any) any { return old }},
	{"nulls", func(n int, old any) any { return nil }},
	{"falses", func(n int, old any) any { return false }},
	{"zeroes", func(n int, old any) any { return 0.0 }},
	{"numbers", func(n int, old any) any { return float64(n) + 0.25 }},
	{"empty strings", func(n int, old any) any { return "" }},
	{"undecoded numbers", func(n int, old any) any { return json.Number(fmt.Sprintf("%d.50", n)) }},
	{"undecoded integers", func(n int, old any) any { return json.Number(decimal(n)) }},
	{"undecoded as they were", func(n int, old any) any {
		if f, ok := old.(float64); ok {
			return json.Number(docText(f))
		}
		return json.Number("-" + decimal(n))
	}},
	{"names", func(n int, old any) any { return []any{"length", "0", "a", "-1", "*", "1.5"}[n%6] }},
	{"a mixture", func(n int, old any) any { return []any{nil, "x", 1.0, true, json.Number("9e0"), "0", false}[n%7] }},
}

type replacement struct {
	name string
	f    func(n int, old any) any
}

// jsonTexts puts strings in the scalars' places that are JSON, and have the
// names that the document has and the path selects by.
func jsonTexts(base any, p *ref.Path) replacement {
	names := map[string]any{}
	var walk func(v any)
	walk = func(v any) {
		switch v := v.(type) {
		case []any:
			for _, e := range v {
				walk(e)
			}
		case map[string]any:
			for k, e := range v {
				if len(names) < 20 {
					names[k] = "in text"
				}
				walk(e)
			}
		}
	}
	walk(base)
	for _, st := range p.Steps {
		for _, s := range st.Sels {
			if s.K == ref.SName {
				names[s.S] = []any{1.0, map[string]any{s.S: "further"}}
			}
		}
	}
	object := docText(names)
	quoted, _ := json.Marshal(object)
	texts := []any{object, "[" + object + ",[1,2,[3]],\"x\",4]", string(quoted), "[1,2,3,4,5,6,7,8]", " " + object + "\n", "{\"a\":1,\"length\":3,\"0\":[2]}", "\"a\"", "{}", "[]"}
	return replacement{"JSON texts", func(n int, old any) any { return texts[n%len(texts)] }}
}

func execShape(c PathCase) Result {
	p, rp, res := compileBoth(string(c.Path))
	if p == nil {
		return res
	}
	for _, st := range rp.Steps {
		if st.E != nil {
			return Result{Skip: "has an expression"}
		}
	}
	base := parseDoc(c.Doc)
	ordered := sequential(base)
	var places []any // what is selected of the document of tokens
	for i, r := range append(replacements, jsonTexts(base, rp)) {
		n := 0
		subst := map[string]any{}
		doc := replaceScalars(base, &n, func(n int, old any) any {
			v := r.f(n, old)
			subst[token(n)] = v
			return v
		})
		before := ref.Canon(doc)
		got, err := p.Eval(doc)
		if err != nil {
			return failf("%s on %s: %v", c.Path, clip(before, 2000), err)
		}
		if got == nil {
			return failf("%s on %s: neither results nor an error", c.Path, clip(before, 2000))
		}
		if after := ref.Canon(doc); after != before {
			return failf("%s alters %s to %s", c.Path, clip(before, 2000), clip(after, 2000))
		}
		if i == 0 {
			places = got
			continue
		}
		k := 0
		want := replaceScalars(places, &k, func(_ int, old any) any { return subst[old.(string)] }).([]any)
		if !sameResults(got, want, ordered) {
			return failf("%s on %s (%s in place of the scalars) gives\n%s\nbut with tokens in their places gives\n%s", c.Path, clip(before, 2000), r.name, clip(ref.Canon(got), 1000), clip(ref.Canon(places), 1000))
		}
	}
	res = Result{Trivia: len(places) == 0, Labels: stepLabels(rp)}
	if len(places) > 0 {
		res.Labels = append(res.Labels, "results "+bucket(len(places)))
	}
	return res
}

var newNames = []string{"", "*", "$", "@", "length", "'", "\"", "\\", "a", "b", "c", "d", "true", "null", "a.b", "..", "[", "]", "?", "/", "\n", "\u00a7", "\U0001F600", "keys", "in", "nin", " ", "1.5", "-", "A", "__proto__", "[0]", "$.a", "'a'", "\x00", ",", ":", "é", "e\u0301", "(1)"}

// nearNames are names that differ little.
var nearNames = [][]string{
	{"ab", "Ab", "AB", "aB", "ab1", "AB1", "\u00e9b", "\u00c9B", "AB_", "ab_"},
	{"a", "aa", "aaa", "aaaa", "aaaaa", "b", "ba", "ab"},
	{"n", " n", "n ", "\tn", "n\n", "'n'", "n-", "-n", "n_", "_n", "n.", "$.n", "\u00a0n"},
	{"caf\u00e9", "cafe\u0301", "cafe", "caf\u00c9", "CAFE", "caf\ufffd", "\ufb01", "fi", "\uff41", "\u212a", "k", "K", "\u017f", "s", "S"},
	{"length", "Length", "LENGTH", "len", "lengt", "lengths", "size"},
	{"1.0", "01x", "1e0", "1.", "+1", "1 ", " 1", "0x1", "1_0", "true", "True", "null", "NULL", "None", "nil"},
}

// execRename gives keys other names, in the document and in the path. A key that is
// the text of an integer keeps it, since an index may mean it.
func execRename(c PathCase) Result {
	p, rp, res := compileBoth(string(c.Path))
	if p == nil {
		return res
	}
	names := map[string]bool{}
	for _, st := range rp.Steps {
		if st.E != nil {
			return Result{Skip: "has an expression"}
		}
		for _, s := range st.Sels {
			if s.K == ref.SName {
				names[s.S] = true
			}
		}
	}
	base := parseDoc(c.Doc)
	for _, v := range subvalues(base, 1<<20) {
		if m, ok := v.(map[string]any); ok {
			for k := range m {
				names[k] = true
			}
		}
	}
	all := make(map[string]any)
	for k := range names {
		all[k] = nil
	}
	keys := sortedKeys(all)
	got, err := p.Eval(base)
	if err != nil {
		return failf("%s on %s: %v", c.Path, clip(c.Doc, 2000), err)
	}
	ordered := sequential(base)
	for shift := 0; shift < 5; shift++ {
		to := map[string]string{}
		newNames := newNames
		if shift > 2 {
			newNames = nearNames[(shift*7+len(c.Doc))%len(nearNames)]
		}
		n := shift*13 + len(c.Doc) + len(c.Path)
		for _, k := range keys {
			if _, err := strconv.ParseInt(k, 10, 64); err == nil {
				to[k] = k
				continue
			}
			s := newNames[n%len(newNames)]
			if n/len(newNames) > (shift*13+len(c.Doc)+len(c.Path))/len(newNames) {
				s += fmt.Sprint("#", n) // the list has been used
			}
			to[k] = s
			n++
		}
		var rename func(v any) any
		rename = func(v any) any {
			switch v := v.(type) {
			case []any:
				l := make([]any, len(v))
				for i, x := range v {
					l[i] = rename(x)
				}
				return l
			case map[string]any:
				m := make(map[string]any, len(v))
				for k, x := range v {
					m[to[k]] = rename(x)
				}
				return m
			}
			return v
		}
		q := &ref.Path{}
		for _, st := range rp.Steps {
			c := *st
			c.Sels = append([]ref.Sel{}, st.Sels...)
			for i := range c.Sels {
				if s := &c.Sels[i]; s.K == ref.SName {
					s.S, s.Text = to[s.S], ""
					if s.Bare && !identifier(s.S, true) {
						s.Bare, c.Bracket = false, true
					}
				}
			}
			q.Steps = append(q.Steps, &c)
		}
		text := plainPath(q)
		ip, err := jsonpath.Compile(text)
		if err != nil {
			return failf("%s (renamed from %s): %v", text, c.Path, err)
		}
		doc := rename(base)
		other, err := ip.Eval(doc)
		if err != nil {
			return failf("%s on %s: %v", text, ref.Canon(doc), err)
		}
		if want := rename(got).([]any); !sameResults(other, want, ordered) {
			return failf("%s on %s gives\n%s\nbut %s on %s, the same with other names, gives\n%s", text, clip(ref.Canon(doc), 2000), clip(ref.Canon(other), 1000), c.Path, clip(c.Doc, 2000), clip(ref.Canon(got), 1000))
		}
	}
	return Result{Trivia: len(got) == 0, Labels: stepLabels(rp)}
}

func init() {
	register(&Check{
		ID:   "C20",
		Rule: "something is selected",
		Families: []*Family{
			family("replaced scalars", 25000, 1500000, genShape, execShape),
			family("renamed members", 15000, 800000, genShape, execRename),
		},
	})
}
