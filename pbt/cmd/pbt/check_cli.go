package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"verif/pbt/ref"

	"pgregory.net/rapid"
)

// C18: the command jpath.

// CliItem is a value, or something that is not one.
type CliItem struct {
	Text Text `json:"text"`
	Bad  bool `json:"bad,omitempty"`
	Rep  int  `json:"rep,omitempty"` // pad: white space, or elements, to make it long
}

// CliFile is an input.
type CliFile struct {
	Name  string    `json:"name"`
	Kind  string    `json:"kind,omitempty"` // "missing" or "dir" cannot be read; "link" is a symbolic link
	Items []CliItem `json:"items,omitempty"`
	Seps  []string  `json:"seps,omitempty"` // after each item
}

// CliCase is a run of the command.
type CliCase struct {
	Path  Text      `json:"path"`
	Line  bool      `json:"line,omitempty"`
	Files []CliFile `json:"files"`           // with Stdin, just one
	Stdin bool      `json:"stdin,omitempty"` // read standard input
	Full  bool      `json:"full,omitempty"`  // standard output is full
	Chunk int       `json:"chunk,omitempty"` // standard input is written in pieces of this size; if negative, it's a file
	Args  []int     `json:"args,omitempty"`  // the files, in the order named, if not all of them once
}

// named are the files in the order in which they are named.
func (c CliCase) named() []CliFile {
	if c.Args == nil {
		return c.Files
	}
	var l []CliFile
	for _, i := range c.Args {
		l = append(l, c.Files[i])
	}
	return l
}

var badTexts = []string{"x", "{", "[1,", `{"a":}`, "]", "nul", "'a'", "{\"a\" 1}", "\"abc", "[1 2]", "{,}", "\x00", "tru e", "-", "1.e5", "\"\\x\"", "\"\t\"", "{'a':1}", "[1,]", "NaN", "}"}

var fileNames = []string{"in", "a file ", "x.json", "in", "x.json", "-", "-l", "é", "a:", "d.gz", "%d%s", "$", ".x", "in.jsonl", "~", "*", "#", "x.ndjson.", "=", "@"}

func genCli(t *rapid.T) CliCase {
	c := CliCase{Line: bit.Draw(t, "")}
	cfg := docCfg{depth: 3, budget: 14}
	if chance(t, 1, 8) {
		cfg.single = true
	}
	var docs []any
	for i, n := 0, between(t, 1, 3); i < n; i++ {
		if chance(t, 1, 4) {
			docs = append(docs, (&docGen{t: t, cfg: cfg}).scalar())
		} else {
			docs = append(docs, document(t, cfg))
		}
	}
	switch {
	case chance(t, 1, 24):
		c.Path = Text(pick(t, []string{"", "$[", "$x", "$.a[?(@.b]", "$..", "$['a]", "$[?(]"}))
	case chance(t, 1, 10): // fails on some values
		c.Path = Text(pick(t, []string{"$[?(@.a=~/a/)]", "$[?(1 in @)]", "$..[?(@ in $.a)]", "$.a[?(nosuch(@))]", "$[?(@=~'b')]", "$[(1 in $)]"}))
	case chance(t, 1, 3):
		c.Path = Text(pick(t, []string{"$", "$.*", "$..*", "$.a", "$[0]", "$..a", "$[?(@)]", "$[:2]"}))
	default:
		pc := stdPath
		pc.steps = 3
		c.Path = Text(plainPath(genPath(t, pick(t, docs), pc)))
	}
	nf := 1
	if chance(t, 1, 3) {
		c.Stdin = true
	} else {
		nf = between(t, 1, 3)
		if chance(t, 1, 10) {
			nf = size(t, 5)
		}
	}
	bads := 0
	for i := 0; i < nf; i++ {
		f := CliFile{Name: fmt.Sprintf("%s%d", pick(t, fileNames), i)}
		if chance(t, 1, 12) {
			f.Kind = "link"
		}
		if !c.Stdin && chance(t, 1, 12) && (nf < 4 || i > nf-3) {
			f.Kind = pick(t, []string{"missing", "dir"})
		}
		n := between(t, 0, 4)
		switch {
		case nf > 3:
			n = below(t, 3)
		case chance(t, 1, 16):
			n = between(t, 20, 60)
		case chance(t, 1, 80):
			n = size(t, 9)
		}
		badAt := -1
		if bads == 0 && chance(t, 1, 6) && (nf < 4 || i > nf-3) {
			badAt = below(t, n+1)
			n++
			bads++
		}
		for j := 0; j < n; j++ {
			if j == badAt {
				it := CliItem{Text: Text(pick(t, badTexts)), Bad: true}
				if c.Line && chance(t, 1, 3) {
					it.Text = Text(pick(t, []string{"", " ", "1 2", "[] {}", "01", "[", "{\"a\":", "\r"}))
				}
				f.Items = append(f.Items, it)
				f.Seps = append(f.Seps, "\n")
				continue
			}
			it := CliItem{Text: Text(docText(pick(t, docs)))}
			if chance(t, 1, 20) {
				it.Rep = pick(t, []int{100, 4000, 4096, 65535, 65536, 65537, 200000, 70000, 1 << 20, -100, -4001, -5000, -70000, -70001, -300, -301, -1025, -1026})
			}
			if !c.Line && chance(t, 1, 6) {
				var b bytes.Buffer
				json.Indent(&b, []byte(it.Text), "", pick(t, []string{"\t", " ", ""}))
				it.Text = Text(b.String())
			}
			f.Items = append(f.Items, it)
			sep := "\n"
			if c.Line {
				sep = pick(t, []string{"\n", "\n", " \n", "\r\n", "\t\n"})
				if j == n-1 && chance(t, 1, 3) {
					sep = ""
				}
			} else {
				sep = pick(t, []string{"\n", " ", "\n\n", "\t", "\r\n", " \n "})
				if j == n-1 && bit.Draw(t, "") || strings.HasSuffix(string(it.Text), "}") && chance(t, 1, 4) {
					sep = ""
				}
			}
			f.Seps = append(f.Seps, sep)
		}
		c.Files = append(c.Files, f)
	}
	c.Full = chance(t, 1, 12)
	if c.Stdin && chance(t, 1, 2) {
		c.Chunk = pick(t, []int{1, 7, 100, 4096, -1, -1})
	}
	if !c.Stdin && chance(t, 1, 5) { // some again, in another order
		for i, n := 0, between(t, 1, 2*nf); i < n; i++ {
			c.Args = append(c.Args, below(t, nf))
		}
	}
	return c
}

// value is the text of an item, perhaps made long: padding within a string.
func (it CliItem) value() string {
	if it.Rep == 0 {
		return string(it.Text)
	}
	if it.Bad { // long, and wrong at its start or at its end
		if it.Rep < 0 {
			return strings.Repeat("1", -it.Rep) + string(it.Text)
		}
		return string(it.Text) + strings.Repeat("1", it.Rep)
	}
	if it.Rep < 0 { // a long string, or a long array
		if it.Rep%2 == 0 {
			return `"` + strings.Repeat("p", -it.Rep) + `"`
		}
		return "[" + strings.Repeat("1,", -it.Rep/2) + string(it.Text) + "]"
	}
	return `{"pad":"` + strings.Repeat("p", it.Rep) + `","a":` + string(it.Text) + `,"b":[` + strings.Repeat("1,", it.Rep%1000) + `2]}`
}

func (f CliFile) content() string {
	var b strings.Builder
	for i, it := range f.Items {
		b.WriteString(it.value())
		if i < len(f.Seps) {
			b.WriteString(f.Seps[i])
		}
	}
	return b.String()
}

type chunks struct {
	s string
	n int
}

func (c *chunks) Read(b []byte) (int, error) {
	if c.s == "" {
		return 0, io.EOF
	}
	n := min(c.n, len(c.s), len(b))
	copy(b, c.s[:n])
	c.s = c.s[n:]
	return n, nil
}

// expectCli says what a run should print, and whether it should fail.
func expectCli(c CliCase) (outs []ref.Outcome, fails bool, name string, skip string) {
	rp, err := ref.ParsePath(string(c.Path))
	if err != nil {
		return nil, true, "", ""
	}
	for _, f := range c.named() {
		if f.Kind != "" && f.Kind != "link" {
			return outs, true, f.Name, ""
		}
		if c.Stdin {
			f.Name = ""
		}
		for _, it := range f.Items {
			if it.Bad {
				return outs, true, f.Name, ""
			}
			out := ref.Eval(rp, parseDoc(it.value()))
			switch out.Status {
			case ref.Unspec, ref.MaybeErr:
				return nil, false, "", "unspecified: " + out.Why
			case ref.Error:
				return outs, true, f.Name, ""
			}
			outs = append(outs, out)
		}
	}
	return outs, false, "", ""
}

// execCliOnce runs the command in a directory of its own.
func runCli(c CliCase) (stdout, stderr string, status int, timeout bool) {
	bin := os.Getenv("PBT_JPATH")
	if bin == "" {
		harness("PBT_JPATH is not set")
	}
	dir, err := os.MkdirTemp("", "jpath-")
	if err != nil {
		harness("%v", err)
	}
	defer os.RemoveAll(dir)
	args := []string{}
	if c.Line {
		args = append(args, "-l")
	}
	args = append(args, string(c.Path))
	for _, f := range c.named() {
		if !c.Stdin {
			args = append(args, f.Name)
		}
	}
	for _, f := range c.Files {
		if c.Stdin && c.Chunk >= 0 {
			break
		}
		name := filepath.Join(dir, f.Name)
		if i := strings.LastIndex(f.Name, "/"); i >= 0 && f.Kind != "missing" {
			os.MkdirAll(dir+"/"+f.Name[:i], 0o700)
		}
		switch f.Kind {
		case "missing":
			continue
		case "dir":
			err = os.Mkdir(name, 0o700)
		case "link":
			err = os.WriteFile(name+" target", []byte(f.content()), 0o600)
			if err == nil {
				err = os.Symlink(f.Name+" target", name)
			}
		default:
			err = os.WriteFile(name, []byte(f.content()), 0o600)
		}
		if err != nil {
			harness("%v", err)
		}
	}
	cmd := exec.Command(bin, args...)
	cmd.Dir = dir
	var out, errs bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &errs
	if c.Full {
		fd, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			harness("%v", err)
		}
		defer fd.Close()
		cmd.Stdout = fd
	}
	if c.Stdin {
		cmd.Stdin = strings.NewReader(c.Files[0].content())
		if c.Chunk > 0 {
			cmd.Stdin = &chunks{c.Files[0].content(), c.Chunk}
		}
		if c.Chunk < 0 {
			fd, err := os.Open(filepath.Join(dir, c.Files[0].Name))
			if err != nil {
				harness("%v", err)
			}
			defer fd.Close()
			cmd.Stdin = fd
		}
	}
	if err := cmd.Start(); err != nil {
		harness("cannot start %s: %v", bin, err)
	}
	timer := time.AfterFunc(60*time.Second, func() { timeout = true; cmd.Process.Kill() })
	err = cmd.Wait()
	timer.Stop()
	var xe *exec.ExitError
	if err != nil && !errors.As(err, &xe) && cmd.ProcessState == nil {
		harness("running %s: %v", bin, err)
	}
	return out.String(), errs.String(), cmd.ProcessState.ExitCode(), timeout
}

func execCli(c CliCase) Result {
	if strings.ContainsRune(string(c.Path), 0) || strings.HasPrefix(string(c.Path), "-") {
		return Result{Skip: "not an argument"}
	}
	outs, fails, name, skip := expectCli(c)
	if skip != "" {
		return Result{Skip: skip}
	}
	stdout, stderr, status, timeout := runCli(c)
	desc := fmt.Sprintf("jpath (line %v, stdin %v) %q", c.Line, c.Stdin, c.Path)
	if timeout {
		return failf("%s does not finish", desc)
	}
	full := c.Full && len(outs) > 0
	labels := []string{fmt.Sprintf("-l %v", c.Line), "values " + bucket(len(outs))}
	switch {
	case full:
		labels = append(labels, "output cannot be written")
	case fails:
		labels = append(labels, "input fails")
	}
	if fails || full {
		if status == 0 {
			return failf("%s exits 0, though it should fail (output full: %v)", desc, full)
		}
		if strings.TrimSpace(stderr) == "" {
			return failf("%s fails without a message", desc)
		}
		if name != "" && !full && !strings.Contains(stderr, name) {
			return failf("%s: message %q does not name %q", desc, stderr, name)
		}
	} else if status != 0 {
		return failf("%s exits %d (%q), though all is well", desc, status, clip(stderr, 500))
	}
	if c.Full {
		return Result{Labels: labels}
	}
	// the output, value by value
	if c.Line {
		lines := strings.SplitAfter(stdout, "\n")
		if lines[len(lines)-1] == "" {
			lines = lines[:len(lines)-1]
		}
		if len(lines) != len(outs) {
			return failf("%s writes %d lines for %d values: %q", desc, len(lines), len(outs), clip(stdout, 1000))
		}
		for i, l := range lines {
			if !strings.HasSuffix(l, "\n") {
				return failf("%s: line %d is not finished: %q", desc, i, clip(l, 1000))
			}
			if !json.Valid([]byte(l)) {
				return failf("%s: line %d is not one JSON value: %q", desc, i, clip(l, 1000))
			}
		}
	}
	dec := json.NewDecoder(strings.NewReader(stdout))
	for i := 0; ; i++ {
		var v any
		err := dec.Decode(&v)
		if err == io.EOF {
			if i < len(outs) {
				return failf("%s writes %d results for %d values: %q", desc, i, len(outs), clip(stdout, 1000))
			}
			break
		}
		if err != nil {
			return failf("%s writes something that is not JSON (%v): %q", desc, err, clip(stdout, 1000))
		}
		if i >= len(outs) {
			return failf("%s writes more than %d results: %q", desc, len(outs), clip(stdout, 1000))
		}
		got, ok := v.([]any)
		if !ok {
			return failf("%s: result %d is not an array: %s", desc, i, clip(ref.Canon(v), 500))
		}
		if !ref.Matches(outs[i].Tree, got) {
			return failf("%s: result %d is %s, not %s", desc, i, clip(ref.Canon(got), 1000), clip(ref.Canon(outs[i].Tree.Flat()), 1000))
		}
	}
	return Result{Trivia: len(outs) == 0 && !fails, Labels: labels}
}

// UsageCase is a run without what it needs.
type UsageCase struct {
	Args []string `json:"args"`
}

func usageSweep(tier string, emit func(UsageCase)) {
	for _, a := range [][]string{{}, {"-l"}, {"-z"}, {"-z", "$"}, {"-l", "-q", "$"}} {
		emit(UsageCase{a})
	}
}

func execUsage(c UsageCase) Result {
	bin := os.Getenv("PBT_JPATH")
	if bin == "" {
		harness("PBT_JPATH is not set")
	}
	cmd := exec.Command(bin, c.Args...)
	var out, errs bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &errs
	cmd.Stdin = strings.NewReader("[1]\n")
	cmd.Run()
	if cmd.ProcessState == nil {
		harness("cannot run %s", bin)
	}
	if cmd.ProcessState.ExitCode() == 0 || errs.Len() == 0 || out.Len() != 0 {
		return failf("jpath %q: exit %d, output %q, messages %q", c.Args, cmd.ProcessState.ExitCode(), out.String(), errs.String())
	}
	return Result{}
}

// lineSweep has lines of lengths about the sizes of buffers.
func lineSweep(tier string, emit func(CliCase)) {
	sizes := []int{}
	for _, n := range []int{512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144, 1 << 20} {
		for d := -20; d <= 3; d++ {
			sizes = append(sizes, n+d)
		}
	}
	for _, n := range append(sizes, 3<<20, 5<<20) {
		items := []CliItem{{Text: `[1]`}, {Text: "2", Rep: n}, {Text: `{"a":3}`}}
		for _, line := range []bool{true, false} {
			for _, rep := range []int{-n, -n - 1} {
				if n < 70000 {
					emit(CliCase{Path: "$", Line: line, Stdin: true, Files: []CliFile{{Name: "in", Items: []CliItem{{Text: "7", Rep: rep}, {Text: "8"}}, Seps: []string{"\n", "\n"}}}})
				}
			}
			emit(CliCase{Path: "$.a", Line: line, Stdin: true, Files: []CliFile{{Name: "in", Items: items, Seps: []string{"\n", "\n", "\n"}}}})
		}
	}
	// long things that are not values
	for i, n := range sizes {
		if (n&(n-1) != 0 || n > 1<<18) && tier != "thorough" && i%11 != 0 {
			continue
		}
		for j, bad := range []string{"[", "\"", "x", "{\"a\":", "[2,\"", "{\"a\":2,\"", "[[", "nul", "-x", "]", "}", "\"", "x", ",", "]]", " 2", ":"} {
			it := CliItem{Text: Text(bad), Bad: true, Rep: n}
			if j >= 9 {
				it.Rep = -n
			}
			for _, line := range []bool{true, false} {
				if !line && j >= 9 {
					continue
				}
				for _, items := range [][]CliItem{{{Text: `[1]`}, it, {Text: `{"a":3}`}}, {it}, {{Text: "1"}, it}} {
					emit(CliCase{Path: "$", Line: line, Stdin: (i+j)%2 == 0, Files: []CliFile{{Name: "in", Items: items, Seps: []string{"\n", "\n", "\n"}[:len(items)-(i+j+len(items))/2%2]}}})
				}
			}
		}
	}
	// characters about a value: only white space may be there
	strs := []string{"\uFEFF", "\u0085", "\u00A0", "\u2028", "\u3000", "\r\r", " \r", "\r ", ";;", "//", "#", ",,", "/**/", "\t\t", "\x00\x00", "\x1a", "\x1e", "null ", "[]", "{}", "\"\"", "--"}
	for b := 0; b < 256; b++ {
		if b != '\n' {
			strs = append(strs, string([]byte{byte(b)}))
		}
	}
	for _, x := range strs {
		space := strings.Trim(x, " \t\r") == ""
		for _, text := range []string{"[1]" + x, x + "[1]", x} {
			items := []CliItem{{Text: `{"a":3}`}, {Text: Text(text), Bad: !json.Valid([]byte(text))}, {Text: "[2]"}}
			if text == x && space {
				items[1].Bad = true // an empty line
			}
			emit(CliCase{Path: "$.*", Line: true, Stdin: true, Files: []CliFile{{Name: "in", Items: items, Seps: []string{"\n", "\n", "\n"}}}})
			if x[0] >= '0' && x[0] <= '9' || json.Valid([]byte(strings.TrimSpace(x))) {
				continue // several values
			}
			items = append([]CliItem{}, items...)
			if text == x && space {
				items = append(items[:1], items[2])
			} else if strings.HasPrefix(text, "[1]") && !space {
				items = []CliItem{items[0], {Text: "[1]"}, {Text: Text(x), Bad: true}}
				emit(CliCase{Path: "$.*", Stdin: true, Files: []CliFile{{Name: "in", Items: items, Seps: []string{"\n", "", "\n[2]\n"}}}})
				continue
			}
			emit(CliCase{Path: "$.*", Stdin: true, Files: []CliFile{{Name: "in", Items: items, Seps: []string{"\n", "\n", "\n"}}}})
		}
	}
	// failures after much output
	for _, n := range []int{100, 1000, 4090, 5000, 70000} {
		for _, bad := range []string{"x", "[", `"a`} {
			items := []CliItem{{Text: `1`, Rep: n}, {Text: "2", Rep: n}, {Text: Text(bad), Bad: true}, {Text: `{"a":3}`}}
			for _, line := range []bool{true, false} {
				for _, stdin := range []bool{true, false} {
					emit(CliCase{Path: "$.*", Line: line, Stdin: stdin, Files: []CliFile{{Name: "in", Items: items, Seps: []string{"\n", "\n", "\n", "\n"}}}})
					emit(CliCase{Path: "$.*", Line: line, Stdin: stdin, Full: true, Files: []CliFile{{Name: "in", Items: items[:2], Seps: []string{"\n", "\n"}}}})
				}
			}
		}
	}
}

// inputNames has inputs of every kind of name, there or not, among others.
func inputNames(tier string, emit func(CliCase)) {
	names := []string{"", " ", "  ", "--", "-", "-1", "-l", "--help", "-h", "...", ".in", "in.", "a b", " a", "a ", "a\nb", "\n", "\t", "é", "日本", "\xff", "$", "$.a", "*", "?", "[a]", "{a,b}", "a,b", "a:b", "a;b", "~", "~root", "%s", "%", "'a'", "\"", "\\", "`a`", "|", "&", ">", "<", "#", "!", "@", "=", "+", "a=b", "http:x", "file:in", "in.json", "in.JSON", "in.gz", "in.tar", "in.zip", "in.bz2", "in.xz", "in.zst", "in.txt", "in.csv", "in.yaml", "in.toml", "in.go", "in.bak", "in~", "null", "stdin", "0", "1", "d/in", "./in", "d/../in", "d//in", "./-", "d/-l", "NUL", "con", strings.Repeat("n", 255), strings.Repeat("d/", 100) + "in"}
	good := func(n string) CliFile {
		return CliFile{Name: n, Items: []CliItem{{Text: `{"a":1}`}, {Text: "[2]"}}, Seps: []string{"\n", "\n"}}
	}
	for i, name := range names {
		for at := 0; at < 3; at++ {
			for _, kind := range []string{"", "missing", "dir", "link"} {
				if name == "" && kind != "missing" || kind == "link" && (strings.Contains(name, "/") || len(name) > 200) {
					continue
				}
				var fs []CliFile
				for j := 0; j < 3; j++ {
					f := good("other" + decimal(j))
					if j == at {
						f = good(name)
						f.Kind = kind
						if kind == "missing" || kind == "dir" {
							f.Items, f.Seps = nil, nil
						}
					}
					fs = append(fs, f)
				}
				emit(CliCase{Path: "$.*", Line: (i+at)%2 == 0, Files: fs[at:]})
				emit(CliCase{Path: "$.*", Line: (i+at)%2 == 1, Files: fs[:at+1]})
			}
		}
	}
	// empty files, among others
	for at := 0; at < 4; at++ {
		for _, text := range []string{"", "\n", "x\n", "[1"} {
			var fs []CliFile
			for j := 0; j < 4; j++ {
				f := good("f" + decimal(j))
				if j == at {
					f.Items, f.Seps = nil, nil
					if text != "" {
						f.Items, f.Seps = []CliItem{{Text: Text(text[:len(text)-1]), Bad: true}}, []string{text[len(text)-1:]}
						if text == "[1" {
							f.Items[0].Text, f.Seps = "[1", nil
						}
					}
				}
				fs = append(fs, f)
			}
			for _, line := range []bool{true, false} {
				if text == "\n" && !line {
					continue
				}
				emit(CliCase{Path: "$", Line: line, Files: fs})
				emit(CliCase{Path: "$", Line: line, Files: fs, Args: []int{at, at, 0, 3}})
			}
		}
	}
}

func init() {
	register(&Check{
		ID:   "C18",
		Rule: "the command is given a value, or an input that fails",
		Families: []*Family{
			sweep("usage", usageSweep, execUsage),
			sweep("names of inputs", inputNames, execCli),
			sweep("long lines", lineSweep, execCli),
			family("runs", 6000, 400000, genCli, execCli),
		},
	})
}
