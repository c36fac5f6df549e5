package main

import (
	"encoding/json"
	"fmt"
	"os"

	"github.com/forsyth/jsonpath"
	"verif/pbt/ref"
)

// PathCase is a path applied to a document.
type PathCase struct {
	Path Text   `json:"path"`
	Doc  string `json:"doc"`
}

// Expectation is a path applied to a document with results written out:
// used for defects that have been repaired, and for known findings.
type Expectation struct {
	Path    Text   `json:"path"`
	Doc     string `json:"doc"`
	Results string `json:"results,omitempty"` // JSON array
	Error   bool   `json:"error,omitempty"`   // Eval fails
	Refused bool   `json:"refused,omitempty"` // Compile fails
}

func runExpectation(c Expectation) Result {
	p, err := jsonpath.Compile(string(c.Path))
	if c.Refused {
		if err == nil {
			return failf("%q was accepted", c.Path)
		}
		return Result{}
	}
	if err != nil {
		return failf("%q was refused: %v", c.Path, err)
	}
	got, err := p.Eval(parseDoc(c.Doc))
	if c.Error {
		if err == nil {
			return failf("%s on %s: no error", c.Path, c.Doc)
		}
		return Result{}
	}
	if err != nil {
		return failf("%s on %s: %v", c.Path, c.Doc, err)
	}
	if g, w := ref.Canon(got), ref.Canon(parseDoc(c.Results)); g != w {
		return failf("%s on %s gives %s, not %s", c.Path, c.Doc, g, w)
	}
	return Result{}
}

var expectFamily = family("expect", 0, 0, nil, runExpectation)

func sharedFamily(name string) *Family {
	if name == "expect" {
		return expectFamily
	}
	return nil
}

// Finding is a known defect: a path applied to a document, with the results it
// should have and those it has.
type Finding struct {
	Expectation
	Got      string `json:"got,omitempty"` // JSON array
	GotError bool   `json:"got_error,omitempty"`
}

// runFinding says whether a known defect is still as it was.
func runFinding(args []string) {
	data, err := os.ReadFile(args[0])
	if err != nil {
		fatal(err)
	}
	var c Finding
	if err := json.Unmarshal(data, &c); err != nil {
		fatal(err)
	}
	if runExpectation(c.Expectation).Fail == "" {
		fmt.Println("ABSENT")
		return
	}
	asIs := Expectation{Path: c.Path, Doc: c.Doc, Results: c.Got, Error: c.GotError}
	if r := runExpectation(asIs); r.Fail != "" {
		fmt.Println("DIFFERENT", r.Fail)
		return
	}
	fmt.Println("PRESENT")
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// judge compares an evaluation with the reference.
func judge(path, doc string, out ref.Outcome, got []any, err error) Result {
	if err != nil && got != nil {
		return failf("%s on %s: both results and an error (%v)", path, clip(doc, 2000), err)
	}
	if err == nil && got == nil {
		return failf("%s on %s: neither results nor an error", path, clip(doc, 2000))
	}
	switch out.Status {
	case ref.Unspec:
		return Result{Skip: "unspecified: " + out.Why}
	case ref.Error:
		if err == nil {
			return failf("%s on %s: should fail, but gives %s", path, clip(doc, 2000), clip(ref.Canon(got), 1000))
		}
		return Result{Labels: []string{"outcome error"}}
	case ref.MaybeErr:
		if err != nil {
			return Result{Labels: []string{"outcome maybe-error"}}
		}
	}
	if err != nil {
		return failf("%s on %s: fails (%v), but should give %s", path, clip(doc, 2000), err, clip(ref.Canon(out.Tree.Flat()), 1000))
	}
	if !ref.Matches(out.Tree, got) {
		return failf("%s on %s: gives\n%s\nnot\n%s", path, clip(doc, 2000), clip(ref.Canon(got), 1000), clip(ref.Canon(out.Tree.Flat()), 1000))
	}
	l := "outcome some results"
	if len(got) == 0 {
		l = "outcome no results"
	}
	return Result{Labels: []string{l}}
}

// compile checks acceptance, returning nil parts if there is nothing to evaluate.
func compileBoth(text string) (*jsonpath.JSONPath, *ref.Path, Result) {
	ip, ierr := jsonpath.Compile(text)
	rp, rerr := ref.ParsePath(text)
	switch {
	case ierr == nil && ip == nil:
		return nil, nil, failf("Compile(%q) returned neither a path nor an error", text)
	case ierr != nil && ip != nil:
		return nil, nil, failf("Compile(%q) returned both a path and an error", text)
	case ierr != nil && rerr == nil:
		return nil, nil, failf("%q was refused (%v), but is valid", text, ierr)
	case ierr == nil && rerr != nil:
		return nil, nil, failf("%q was accepted, but is invalid (%v)", text, rerr)
	case ierr != nil:
		return nil, nil, Result{Skip: "invalid path"}
	}
	return ip, rp, Result{}
}

// checkPath is the common differential check.
func checkPath(c PathCase) (Result, ref.Outcome) {
	ip, rp, res := compileBoth(string(c.Path))
	if ip == nil {
		return res, ref.Outcome{}
	}
	doc := parseDoc(c.Doc) // neither alters it (see C15)
	out := ref.Eval(rp, doc)
	got, err := ip.Eval(doc)
	res = judge(string(c.Path), c.Doc, out, got, err)
	if out.Tree != nil && res.Fail == "" {
		if n := out.Tree.Len(); n > 0 {
			res.Labels = append(res.Labels, fmt.Sprintf("results %s", bucket(n)))
		}
	}
	return res, out
}

func bucket(n int) string {
	switch {
	case n == 0:
		return "0"
	case n == 1:
		return "1"
	case n <= 4:
		return "2-4"
	case n <= 16:
		return "5-16"
	case n <= 100:
		return "17-100"
	}
	return ">100"
}

func stepLabels(p *ref.Path) []string {
	var l []string
	seen := map[string]bool{}
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			l = append(l, "step "+s)
		}
	}
	for _, st := range p.Steps {
		pre := ""
		if st.Nest {
			pre = ".."
		}
		switch st.K {
		case ref.TWild:
			add(pre + "*")
		case ref.TExpr:
			add(pre + "(e)")
		case ref.TFilter:
			add(pre + "[?]")
		default:
			if len(st.Sels) > 1 {
				add(pre + "union")
				continue
			}
			switch st.Sels[0].K {
			case ref.SName:
				add(pre + "name")
			case ref.SInt:
				add(pre + "index")
			default:
				add(pre + "slice")
			}
		}
	}
	return l
}
