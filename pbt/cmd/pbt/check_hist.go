package main

import (
	"fmt"
	"reflect"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/forsyth/jsonpath"
	"verif/pbt/ref"

	"pgregory.net/rapid"
)

// C15 repeatability and isolation, C16 concurrency, C17 goroutines.

// HistOp is one operation of a history.
type HistOp struct {
	K string `json:"k"`           // eval, overwrite, append, change, recompile
	P int    `json:"p,omitempty"` // path
	D int    `json:"d,omitempty"` // document
	N int    `json:"n,omitempty"` // which earlier list, or which part of the document
	V string `json:"v,omitempty"` // new value
}

// HistCase is a history over compiled paths and documents.
type HistCase struct {
	Paths []Text   `json:"paths"`
	Docs  []string `json:"docs"`
	Ops   []HistOp `json:"ops"`
}

func genHist(t *rapid.T) HistCase {
	cfg := stdDoc
	cfg.budget = 30
	cfg.depth = 3
	if chance(t, 1, 4) {
		cfg.single = true
	}
	base := document(t, cfg)
	docs := []any{base}
	g := &docGen{t: t, cfg: cfg}
	for i, n := 0, below(t, 3); i < n; i++ {
		if chance(t, 3, 4) { // a near copy
			docs = append(docs, g.mutate(parseDoc(docText(base)), 3))
		} else {
			docs = append(docs, document(t, cfg))
		}
	}
	var c HistCase
	for _, d := range docs {
		c.Docs = append(c.Docs, docText(d))
	}
	for i, n := 0, between(t, 1, 3); i < n; i++ {
		if chance(t, 1, 8) {
			p := genPlaced(t)
			c.Paths = append(c.Paths, p.Path)
			c.Docs = append(c.Docs, p.Doc)
			continue
		}
		pc := stdPath
		pc.steps = 3
		if chance(t, 1, 3) {
			pc.errs = 3
		}
		if bit.Draw(t, "") {
			pc.w = [8]int{4, 2, 4, 4, 5, 2, 8}
		}
		c.Paths = append(c.Paths, Text(plainPath(genPath(t, pick(t, docs), pc))))
	}
	n := between(t, 2, 10)
	for i := 0; i < n; i++ {
		op := HistOp{K: "eval"}
		switch weighted(t, 16, 4, 3, 1, 4) {
		case 4:
			op.K = "append"
		case 1:
			op.K = "overwrite"
		case 2:
			op.K = "change"
		case 3:
			op.K = "recompile"
		}
		op.P = below(t, len(c.Paths))
		op.D = below(t, len(c.Docs))
		op.N = below(t, 6)
		if op.K == "change" {
			op.V = docText(g.value(1))
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

type part struct {
	p uintptr
	n int
}

// parts identifies the containers and the scalars of a document.
func parts(v any, in map[part]bool, texts map[string]bool) {
	switch x := v.(type) {
	case []any:
		in[part{reflect.ValueOf(x).Pointer(), len(x)}] = true
		if len(x) == 0 {
			texts["[]"] = true
		}
		for _, e := range x {
			parts(e, in, texts)
		}
	case map[string]any:
		in[part{reflect.ValueOf(x).Pointer(), -1}] = true
		for _, e := range x {
			parts(e, in, texts)
		}
	default:
		texts[ref.Canon(x)] = true
	}
}

func foreign(list []any, doc any) (any, bool) {
	in := map[part]bool{}
	texts := map[string]bool{}
	parts(doc, in, texts)
	for _, v := range list {
		ok := false
		switch x := v.(type) {
		case []any:
			ok = in[part{reflect.ValueOf(x).Pointer(), len(x)}] || len(x) == 0 && texts["[]"]
		case map[string]any:
			ok = in[part{reflect.ValueOf(x).Pointer(), -1}]
		default:
			ok = texts[ref.Canon(x)]
		}
		if !ok {
			return v, true
		}
	}
	return nil, false
}

type kept struct {
	list []any
	text string
	by   int
}

const overwritten = "overwritten by the caller"

func execHist(c HistCase) Result {
	var ps []*jsonpath.JSONPath
	var rps []*ref.Path
	for _, p := range c.Paths {
		ip, rp, res := compileBoth(string(p))
		if ip == nil {
			return res
		}
		ps = append(ps, ip)
		rps = append(rps, rp)
	}
	var docs []any
	var snaps []string
	for _, d := range c.Docs {
		v := parseDoc(d)
		docs = append(docs, v)
		snaps = append(snaps, ref.Canon(v))
	}
	var lists []kept
	evals, changed, undecided := 0, 0, 0
	labels := map[string]bool{}
	where := func(i int) string { return fmt.Sprintf("operation %d (%s)", i, c.Ops[i].K) }
	for i, op := range c.Ops {
		labels["op "+op.K] = true
		switch op.K {
		case "eval":
			evals++
			doc := docs[op.D]
			got, err := ps[op.P].Eval(doc)
			// the definition
			out := ref.Eval(rps[op.P], doc)
			res := judge(string(c.Paths[op.P]), snaps[op.D], out, got, err)
			if res.Fail != "" {
				res.Fail = where(i) + ": " + res.Fail
				return res
			}
			// a fresh path on a fresh document
			fresh, ferr := jsonpath.MustCompile(string(c.Paths[op.P])).Eval(parseDoc(docText(doc)))
			if (err == nil) != (ferr == nil) {
				if out.Status != ref.Unspec {
					return failf("%s: error %v, but a fresh path gives error %v", where(i), err, ferr)
				}
			}
			if out.Status == ref.Unspec {
				undecided++
			} else if err == nil && !sameResults(got, fresh, sequential(doc)) {
				return failf("%s: %s on %s gives %s, but a fresh path gives %s", where(i), c.Paths[op.P], snaps[op.D], ref.Canon(got), ref.Canon(fresh))
			}
			if err != nil {
				labels["failed evaluation"] = true
				break
			}
			if v, bad := foreign(got, doc); bad {
				return failf("%s: %s on %s returns %s, which is not a value of the document", where(i), c.Paths[op.P], snaps[op.D], ref.Canon(v))
			}
			if len(got) > 0 {
				labels["results"] = true
			}
			lists = append(lists, kept{got, ref.Canon(got), i})
		case "overwrite":
			if len(lists) == 0 {
				continue
			}
			k := &lists[len(lists)-1-op.N%len(lists)]
			all := k.list[:cap(k.list)]
			for j := range all {
				all[j] = overwritten
			}
			k.text = ref.Canon(k.list)
			if len(all) > 0 {
				labels["overwritten"] = true
				changed++
			}
		case "append":
			if len(lists) == 0 {
				continue
			}
			k := &lists[len(lists)-1-op.N%len(lists)]
			k.list = append(k.list, fmt.Sprintf("appended by the caller in operation %d", i))
			k.text = ref.Canon(k.list)
			changed++
		case "change":
			if !change(docs[op.D], op.N, parseDoc(op.V)) {
				continue
			}
			changed++
			for j := range docs {
				snaps[j] = ref.Canon(docs[j])
			}
			for j := range lists {
				lists[j].text = ref.Canon(lists[j].list)
			}
		case "recompile":
			ps[op.P] = jsonpath.MustCompile(string(c.Paths[op.P]))
		}
		for j := range docs {
			if s := ref.Canon(docs[j]); s != snaps[j] {
				return failf("%s: document %d was %s, now %s", where(i), j, snaps[j], s)
			}
		}
		for _, k := range lists {
			if s := ref.Canon(k.list); s != k.text {
				return failf("%s: the list returned by operation %d was %s, now %s", where(i), k.by, k.text, s)
			}
		}
	}
	for i, p := range ps {
		if p.String() != string(c.Paths[i]) {
			return failf("path %q reports %q", c.Paths[i], p.String())
		}
	}
	res := Result{Trivia: evals < 2 || !labels["results"]}
	if undecided == evals && evals > 0 {
		res = Result{Skip: "unspecified throughout"}
	}
	for l := range labels {
		res.Labels = append(res.Labels, l)
	}
	return res
}

// change alters the n-th container of a document in place.
func change(doc any, n int, v any) bool {
	var l []any
	for _, x := range subvalues(doc, 100) {
		switch x := x.(type) {
		case []any:
			if len(x) > 0 {
				l = append(l, x)
			}
		case map[string]any:
			if len(x) > 0 {
				l = append(l, x)
			}
		}
	}
	if len(l) == 0 {
		return false
	}
	switch x := l[n%len(l)].(type) {
	case []any:
		x[n%len(x)] = v
	case map[string]any:
		x[sortedKeys(x)[n%len(x)]] = v
	}
	return true
}

// C16

// ConcCase is a set of paths and documents shared by goroutines.
type ConcCase struct {
	Paths   []Text   `json:"paths"`
	Docs    []string `json:"docs"`
	Workers int      `json:"workers"`
	Rounds  int      `json:"rounds"`
	Compile int      `json:"compile"` // one round in this many compiles its own path
	Procs   int      `json:"procs"`
}

// paths that exercise whatever may be shared or cached
var sharedPaths = []string{
	"$..[?(@.s =~ @.r)]", "$[?(@.s =~ 'a.*')]", "$[?(@.s=~/b/)].s", "$..*", "$..s", "$[0:2]", "$[::-1].l[0]", "$[?(@.k in [1,2,3])]", "$[?(@.k nin @.l)].k",
	"$[?(max(@.l)>1)]", "$[?(min(@.k,2)==1)]", "$[?(tokenize(@.s,'b')[0]=='a')]", "$[?(length(keys(@))>3)]", "$[?(@.l==[1,2])]", "$[(1)]", "$[0,2,0].s", "$[?(@.s =~ 'x' && nosuch(1))]",
	"$[?(@.x in 3)]", "$..[?(@.k<2)]", "$[?(avg(@.l)>=1)].k", "$[?(sum(@.l)==3)].k", "$[?([1,'a',@.k]==[1,'a',1])]", "$..[(@.length-1)]", "$[?(@.s==$[0].s)]",
	"$[?(@.s =~ $[1].r)]", "$[?(to_number(@.k)==1)]", "$[?(contains(@.s,'b'))].k", "$[?(4611686018427387904 > @.k)].k", "$[?(@.k*1.5>1)].k", "$[?(-@.k<0)].k", "$[?(@.s =~ @.q || @.r ~ @.r)].r", "$..[?(@.q in [$[0].q])]",
}

func concDoc(t *rapid.T) any {
	g := &docGen{t: t, cfg: docCfg{depth: 2, budget: 15, plain: true}}
	n := between(t, 1, 6)
	l := []any{}
	for i := 0; i < n; i++ {
		m := map[string]any{
			"s": pick(t, []any{"abc", "ab", "b", "xyz", "a"}), "r": pick(t, []any{"a", "b", "^x", "c$", "[a-c]+", "."}),
			"q": randomString(t, 3), "k": float64(below(t, 4)), "l": []any{float64(below(t, 3)), float64(below(t, 3))}, "x": g.value(1),
		}
		if bit.Draw(t, "") { // a pattern not seen before
			m["r"] = regexp.QuoteMeta(randomString(t, 3)) + pick(t, []string{"", "*", "|a"})
			if _, err := regexp.Compile(m["r"].(string)); err != nil {
				m["r"] = "a"
			}
		}
		if chance(t, 1, 12) {
			m["r"] = pick(t, []any{"[", 1.0, "("})
		}
		if chance(t, 1, 12) {
			m["s"] = 5.0
		}
		l = append(l, m)
	}
	return l
}

func genConc(t *rapid.T) ConcCase {
	c := ConcCase{Workers: between(t, 2, 8), Rounds: between(t, 2, 12), Compile: between(t, 2, 8), Procs: pick(t, []int{8, 2, 4, 1, 3})}
	var docs []any
	for i, n := 0, between(t, 1, 3); i < n; i++ {
		var d any
		if bit.Draw(t, "") {
			d = concDoc(t)
		} else {
			d = document(t, docCfg{depth: 3, budget: 30, single: bit.Draw(t, "")})
		}
		docs = append(docs, d)
		c.Docs = append(c.Docs, docText(d))
	}
	for i, n := 0, between(t, 1, 4); i < n; i++ {
		if bit.Draw(t, "") {
			c.Paths = append(c.Paths, Text(pick(t, sharedPaths)))
			continue
		}
		pc := stdPath
		pc.steps = 3
		pc.w = [8]int{4, 2, 4, 4, 4, 2, 8}
		if chance(t, 1, 4) {
			pc.errs = 3
		}
		c.Paths = append(c.Paths, Text(plainPath(genPath(t, pick(t, docs), pc))))
	}
	return c
}

// wideConc has long evaluations, so that they overlap.
func wideConc(t *rapid.T) ConcCase {
	c := genConc(t)
	c.Paths = c.Paths[:1]
	for i, n := 0, between(t, 1, 2); i < n; i++ {
		c.Paths = append(c.Paths, Text(pick(t, sharedPaths)))
	}
	for i := range c.Docs {
		var l []any
		for j, n := 0, between(t, 2, 5); j < n; j++ {
			l = append(l, concDoc(t).([]any)...)
		}
		for j, n := 0, between(t, 1, 5); j < n; j++ {
			l = append(l, l...)
			if len(l) > 300 {
				break
			}
		}
		c.Docs[i] = docText(l)
	}
	c.Workers = between(t, 4, 8)
	c.Rounds = between(t, 2, 4)
	return c
}

// marker is what a goroutine appends to a list it got.
type marker struct{ worker, round int }

type concResult struct {
	worker, round int
	path, doc     int
	got           []any
	err           error
	extended      []any // got and a value of the worker's own
}

// execConc starts with the concurrent evaluations, while nothing can have been
// cached, and then compares their results with evaluations alone.
func execConc(c ConcCase) Result {
	before := raceErrors()
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(c.Procs))
	docs := make([]any, len(c.Docs))
	for i, d := range c.Docs {
		docs[i] = parseDoc(d)
	}
	shared := make([]*jsonpath.JSONPath, len(c.Paths))
	rps := make([]*ref.Path, len(c.Paths))
	for i, p := range c.Paths {
		ip, rp, res := compileBoth(string(p))
		if ip == nil {
			return res
		}
		shared[i] = ip
		rps[i] = rp
	}
	start := make(chan bool)
	bad := make(chan string, c.Workers)
	results := make([][]concResult, c.Workers)
	var wg sync.WaitGroup
	for w := 0; w < c.Workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					bad <- fmt.Sprintf("panic: %v", r)
				}
			}()
			<-start
			for k := 0; k < c.Rounds; k++ {
				i := (w*7 + k) % len(c.Paths)
				d := (w + k/len(c.Paths)) % len(docs)
				p := shared[i]
				if (k+w)%c.Compile == 0 {
					text := string(c.Paths[i])
					if k%2 == 0 { // each its own text
						text += strings.Repeat(" ", 1+k/2)
					}
					var err error
					p, err = jsonpath.Compile(text)
					if err != nil {
						bad <- fmt.Sprintf("goroutine %d: Compile(%q): %v", w, text, err)
						return
					}
					if p.String() != text {
						bad <- fmt.Sprintf("goroutine %d: Compile(%q) made %q", w, text, p.String())
						return
					}
					jsonpath.Compile(text[:len(text)/2]) // perhaps invalid
				}
				if s := shared[i].String(); s != string(c.Paths[i]) {
					bad <- fmt.Sprintf("goroutine %d: String() of %q gives %q", w, c.Paths[i], s)
					return
				}
				got, err := p.Eval(docs[d])
				results[w] = append(results[w], concResult{w, k, i, d, got, err, append(got, marker{w, k})})
			}
		}(w)
	}
	close(start)
	wg.Wait()
	close(bad)
	for msg := range bad {
		return Result{Fail: msg}
	}
	if n := raceErrors() - before; n > 0 {
		return failf("%d data race(s) detected while %d goroutines evaluated %q", n, c.Workers, c.Paths)
	}
	type key struct{ path, doc int }
	type alone struct {
		got []any
		err error
		out ref.Outcome
	}
	solo := map[key]*alone{}
	decided, some, fails := 0, 0, 0
	for _, l := range results {
		for _, r := range l {
			if m := r.extended[len(r.got)]; m != (marker{r.worker, r.round}) {
				return failf("goroutine %d round %d appended to the list %s gave it, but another value replaced its own: %v", r.worker, r.round, c.Paths[r.path], m)
			}
			k := key{r.path, r.doc}
			p, d := string(c.Paths[r.path]), docs[r.doc]
			s := solo[k]
			if s == nil {
				s = &alone{}
				s.got, s.err = jsonpath.MustCompile(p).Eval(d)
				s.out = ref.Eval(rps[r.path], d)
				if res := judge(p, ref.Canon(d), s.out, s.got, s.err); res.Fail != "" {
					return res
				}
				solo[k] = s
			}
			if s.out.Status == ref.Unspec || s.out.Status == ref.MaybeErr {
				continue
			}
			decided++
			if s.err != nil {
				fails++
			} else if len(s.got) > 0 {
				some++
			}
			if (r.err != nil) != (s.err != nil) {
				return failf("goroutine %d round %d: %s on %s: error %v, but alone %v", r.worker, r.round, p, clip(c.Docs[r.doc], 1000), r.err, s.err)
			}
			if r.err == nil && !sameResults(r.got, s.got, sequential(d)) {
				return failf("goroutine %d round %d: %s on %s gives %s, but alone %s", r.worker, r.round, p, clip(c.Docs[r.doc], 1000), clip(ref.Canon(r.got), 1000), clip(ref.Canon(s.got), 1000))
			}
		}
	}
	if decided == 0 {
		return Result{Skip: "unspecified throughout"}
	}
	res := Result{Trivia: some == 0 && fails == 0}
	res.Labels = append(res.Labels, fmt.Sprintf("goroutines %d", c.Workers), fmt.Sprintf("GOMAXPROCS %d", c.Procs))
	if fails > 0 {
		res.Labels = append(res.Labels, "with failing evaluations")
	}
	if raceBuild {
		res.Labels = append(res.Labels, "under the race detector")
	}
	return res
}

// C17

// LeakCase is an evaluation repeated.
type LeakCase struct {
	Path  Text   `json:"path"`
	Doc   string `json:"doc"`
	Times int    `json:"times"`
}

func genLeak(t *rapid.T) LeakCase {
	c := LeakCase{Times: between(t, 1, 3)}
	switch weighted(t, 3, 3, 3, 2) {
	case 0:
		p := genPlaced(t)
		c.Path, c.Doc = p.Path, p.Doc
	case 1:
		p := genError(t)
		c.Path, c.Doc = p.Path, p.Doc
	case 2:
		p := genPathCase(stdDoc, pathCfg{steps: 4, w: [8]int{3, 2, 3, 2, 3, 2, 8}, nest: 5, depth: 2, errs: 3})(t)
		c.Path, c.Doc = p.Path, p.Doc
	case 3: // fails at a chosen candidate of a long walk
		n := between(t, 1, 200)
		at := below(t, n+1)
		l := make([]any, n)
		for i := range l {
			l[i] = map[string]any{"s": "abc", "l": []any{1.0}, "r": "b"}
		}
		if at < n {
			l[at] = map[string]any{"s": 5.0, "l": 5.0, "r": "["}
		}
		var doc any = l
		op := pick(t, []string{"@.s=~/b/", "1 in @.l", "@.s=~@.r", "2 nin @.l", "'b'=~@.r", "!(1 in @.l)", "[@.s=~/b/][0]", "@.s=~/b/ && 1 in @.l"})
		switch below(t, 6) {
		case 0:
			c.Path = Text("$[?(" + op + ")]")
		case 1:
			c.Path = Text("$..[?(" + op + ")]")
		case 2:
			c.Path = Text("$..[(" + op + ")]")
		case 3:
			c.Path = Text("$.a.*[?(" + op + ")].s")
			doc = map[string]any{"a": []any{l, l}}
		case 4: // deep
			var v any = []any{}
			for _, x := range l {
				x.(map[string]any)["z"] = v
				v = []any{x}
			}
			doc = v
			c.Path = Text("$..[?(" + op + ")]")
		case 5:
			c.Path = Text("$[?(@)][?(@.none)][?(" + op + ")]")
			if bit.Draw(t, "") {
				c.Path = Text("$..l..*[?(" + op + ")]")
			}
		}
		c.Doc = docText(doc)
	}
	return c
}

// ours lists the goroutines running code of the package.
func ours() []string {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var l []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "forsyth/jsonpath") && !strings.Contains(g, "main.ours") {
			l = append(l, g)
		}
	}
	return l
}

const leakPatience = 10 * time.Second

// leftover waits for there to be no more goroutines than base; if there still
// are, it says which, and whether the package runs there.
func leftover(base int) (string, bool) {
	begin := time.Now()
	for n := 0; runtime.NumGoroutine() > base; n++ {
		if n < 100 {
			runtime.Gosched()
			continue
		}
		time.Sleep(time.Millisecond)
		if time.Since(begin) > leakPatience {
			left := ours()
			if len(left) == 0 {
				return "another goroutine started", false
			}
			return left[len(left)-1], true
		}
	}
	return "", false
}

// execSizeLeak evaluates a path of some size, or on a document of some size, and
// counts goroutines.
func execSizeLeak(c SizeCase) Result {
	base := runtime.NumGoroutine()
	res := execSize(c)
	if res.Fail != "" {
		return res
	}
	left, mine := leftover(base)
	if left != "" && mine {
		return failf("%s of size %d: %d more goroutines %v after; one is\n%s", c.Kind, c.N, runtime.NumGoroutine()-base, leakPatience, clip(left, 1500))
	} else if left != "" {
		return Result{Skip: left}
	}
	return res
}

func execLeak(c LeakCase) Result {
	ip, _, res := compileBoth(string(c.Path))
	if ip == nil {
		return res
	}
	doc := parseDoc(c.Doc)
	base := runtime.NumGoroutine()
	failed, some := false, false
	for i := 0; i < c.Times; i++ {
		got, err := ip.Eval(doc)
		failed = failed || err != nil
		some = some || len(got) > 0
	}
	left, mine := leftover(base)
	if left != "" && mine {
		return failf("%s on %s: %d more goroutines %v after %d evaluations (failed: %v); one is\n%s", c.Path, clip(c.Doc, 2000), runtime.NumGoroutine()-base, leakPatience, c.Times, failed, clip(left, 1500))
	} else if left != "" {
		return Result{Skip: left}
	}
	loops := strings.Contains(string(c.Path), "..") || strings.Contains(string(c.Path), "?")
	res = Result{Trivia: !loops || !failed && !some}
	switch {
	case failed:
		res.Labels = append(res.Labels, "failed evaluation")
	case some:
		res.Labels = append(res.Labels, "results")
	}
	if loops {
		res.Labels = append(res.Labels, "with a loop")
	}
	return res
}

// AccumCase is many evaluations, and then a count.
type AccumCase struct {
	Cases []PathCase `json:"cases"`
	Times int        `json:"times"`
}

func genAccum(t *rapid.T) AccumCase {
	c := AccumCase{Times: between(t, 50, 300)}
	for i, n := 0, between(t, 1, 3); i < n; i++ {
		l := genLeak(t)
		c.Cases = append(c.Cases, PathCase{l.Path, l.Doc})
	}
	return c
}

func execAccum(c AccumCase) Result {
	var ps []*jsonpath.JSONPath
	var docs []any
	for _, k := range c.Cases {
		ip, _, res := compileBoth(string(k.Path))
		if ip == nil {
			return res
		}
		ps = append(ps, ip)
		docs = append(docs, parseDoc(k.Doc))
	}
	base := runtime.NumGoroutine()
	peak := 0
	for i := 0; i < c.Times; i++ {
		for j, p := range ps {
			p.Eval(docs[j])
		}
		if n := runtime.NumGoroutine() - base; n > peak {
			peak = n
		}
	}
	begin := time.Now()
	for runtime.NumGoroutine() > base {
		time.Sleep(time.Millisecond)
		if time.Since(begin) > leakPatience {
			left := ours()
			if len(left) == 0 {
				return Result{Skip: "another goroutine started"}
			}
			return failf("%d goroutines left after %d evaluations; one is\n%s", len(left), c.Times*len(ps), clip(left[len(left)-1], 1500))
		}
	}
	return Result{Labels: []string{"most goroutines seen " + bucket(peak)}}
}

func init() {
	register(&Check{
		ID:   "C15",
		Rule: "the history evaluates at least twice and selects something",
		Families: []*Family{
			family("histories", 60000, 3000000, genHist, execHist),
		},
	})
	register(&Check{
		ID:   "C16",
		Rule: "some concurrent evaluation selects something or fails",
		Families: []*Family{
			family("shared paths", 4000, 200000, genConc, execConc),
			family("long evaluations", 400, 20000, wideConc, execConc),
		},
	})
	register(&Check{
		ID:   "C17",
		Rule: "the path has a filter or '..' and the evaluation selects something or fails",
		Families: []*Family{
			sweep("sizes", leakSizes, execSizeLeak),
			family("one evaluation", 40000, 2000000, genLeak, execLeak),
			family("many evaluations", 300, 15000, genAccum, execAccum),
		},
	})
}
