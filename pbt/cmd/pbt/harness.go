// Command pbt runs the property checks: generated cases against explicit oracles.
//
//	pbt worker -check C05 -seed N -shard I -shards N -tier quick -out FILE -cur FILE
//	pbt replay FILE
//
// See /verif/DESIGN.md.
package main

import (
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"time"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// Text is a string that survives JSON even when it is not UTF-8.
type Text string

func (s Text) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(s)) {
		return json.Marshal(string(s))
	}
	return json.Marshal(map[string]string{"base64": base64.StdEncoding.EncodeToString([]byte(s))})
}

func (s *Text) UnmarshalJSON(b []byte) error {
	var p string
	if json.Unmarshal(b, &p) == nil {
		*s = Text(p)
		return nil
	}
	var m struct{ Base64 []byte }
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	*s = Text(m.Base64)
	return nil
}

// Result is the verdict on a case.
type Result struct {
	Fail   string   // non-empty: the property is broken
	Skip   string   // nothing was decided, and why
	Trivia bool     // the case is trivial by the family's rule
	Labels []string // classification
}

func failf(format string, args ...any) Result {
	return Result{Fail: fmt.Sprintf(format, args...)}
}

// Family is one kind of generated case of a check.
type Family struct {
	Name  string
	Quick int // number of cases, all shards together
	Deep  int
	Gen   func(t *rapid.T) any
	Sweep func(tier string, emit func(any)) // deterministic enumeration, in place of Gen
	Exec  func(c any) Result
	New   func() any // for decoding
	Reps  int        // repetitions of a replay (for schedules)
}

func family[C any](name string, quick, deep int, gen func(t *rapid.T) C, exec func(c C) Result) *Family {
	return &Family{
		Name: name, Quick: quick, Deep: deep,
		Gen:  func(t *rapid.T) any { return gen(t) },
		Exec: func(c any) Result { return exec(c.(C)) },
		New:  func() any { return new(C) },
		Reps: 20,
	}
}

func sweep[C any](name string, enum func(tier string, emit func(C)), exec func(c C) Result) *Family {
	return &Family{
		Name:  name,
		Sweep: func(tier string, emit func(any)) { enum(tier, func(c C) { emit(c) }) },
		Exec:  func(c any) Result { return exec(c.(C)) },
		New:   func() any { return new(C) },
		Reps:  20,
	}
}

// Check decides one property.
type Check struct {
	ID       string
	Rule     string
	Families []*Family
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// Record is a saved case.
type Record struct {
	Property string          `json:"property"`
	Family   string          `json:"family"`
	Case     json.RawMessage `json:"case"`
	Failure  string          `json:"failure,omitempty"`
	Note     string          `json:"note,omitempty"`
}

func (c *Check) family(name string) *Family {
	for _, f := range c.Families {
		if f.Name == name {
			return f
		}
	}
	return nil
}

func (f *Family) decode(raw json.RawMessage) (any, error) {
	p := f.New()
	if err := json.Unmarshal(raw, p); err != nil {
		return nil, err
	}
	return deref(p), nil
}

// run executes a case, turning a panic of the code under test into a failure.
func (f *Family) run(c any) (res Result) {
	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(harnessError); ok {
				fmt.Fprintf(os.Stderr, "HARNESS: %s\n", string(h))
				os.Exit(3)
			}
			res = Result{Fail: fmt.Sprintf("panic: %v\n%s", r, trimStack(string(debug.Stack())))}
		}
	}()
	return f.Exec(c)
}

// harnessError is a panic that means the machinery itself is broken.
type harnessError string

func harness(format string, args ...any) {
	panic(harnessError(fmt.Sprintf(format, args...)))
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "jsonpath") && len(out) < 12 {
			out = append(out, strings.TrimSpace(l))
		}
	}
	return strings.Join(out, "\n")
}

// FamilyStats is what a worker reports of a family.
type FamilyStats struct {
	Evaluations int            `json:"evaluations"`
	Decided     int            `json:"decided"`
	Nontrivial  int            `json:"nontrivial"`
	Skips       map[string]int `json:"skips"`
	Labels      map[string]int `json:"labels"`
	Samples     []any          `json:"samples"`
	Seconds     float64        `json:"seconds"`
	Slowest     float64        `json:"slowest"` // single case
	Cut         bool           `json:"cut"`     // stopped by the deadline
}

// Report is what a worker reports.
type Report struct {
	Families  map[string]*FamilyStats `json:"families"`
	Violation *Record                 `json:"violation,omitempty"`
	Log       []string                `json:"log,omitempty"`
}

// tb implements rapid.TB outside of go test.
type tb struct {
	name   string
	failed bool
	log    []string
}

type tbStop struct{}

func (t *tb) Helper()      {}
func (t *tb) Name() string { return t.name }
func (t *tb) Logf(format string, args ...any) {
	if len(t.log) < 50 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 2000 {
			s = s[:2000]
		}
		t.log = append(t.log, s)
	}
}
func (t *tb) Log(args ...any)                   { t.Logf("%s", fmt.Sprint(args...)) }
func (t *tb) Skipf(format string, args ...any)  { t.Logf(format, args...); panic(tbStop{}) }
func (t *tb) Skip(args ...any)                  { panic(tbStop{}) }
func (t *tb) SkipNow()                          { panic(tbStop{}) }
func (t *tb) Errorf(format string, args ...any) { t.Logf(format, args...); t.failed = true }
func (t *tb) Error(args ...any)                 { t.Log(args...); t.failed = true }
func (t *tb) Fatalf(format string, args ...any) { t.Errorf(format, args...); panic(tbStop{}) }
func (t *tb) Fatal(args ...any)                 { t.Error(args...); panic(tbStop{}) }
func (t *tb) FailNow()                          { t.failed = true; panic(tbStop{}) }
func (t *tb) Fail()                             { t.failed = true }
func (t *tb) Failed() bool                      { return t.failed }

// current is the shared record of the case being executed: it survives the death of the worker.
type current struct {
	mem []byte
	n   uint64
}

const curSize = 64 << 20

func openCurrent(name string) *current {
	if name == "" {
		return &current{}
	}
	fd, err := os.OpenFile(name, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		fatal(err)
	}
	if err := fd.Truncate(curSize); err != nil {
		fatal(err)
	}
	mem, err := syscall.Mmap(int(fd.Fd()), 0, curSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		fatal(err)
	}
	fd.Close()
	return &current{mem: mem}
}

func (c *current) set(family string, data []byte) {
	if c.mem == nil {
		return
	}
	c.n++
	binary.LittleEndian.PutUint64(c.mem[0:], c.n)
	rec := 32 + len(family)
	if rec+len(data) > len(c.mem) {
		binary.LittleEndian.PutUint64(c.mem[8:], 0)
		return
	}
	binary.LittleEndian.PutUint64(c.mem[8:], uint64(len(family)))
	binary.LittleEndian.PutUint64(c.mem[16:], uint64(len(data)))
	copy(c.mem[32:], family)
	copy(c.mem[rec:], data)
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "pbt:", err)
	os.Exit(3)
}

type worker struct {
	check  *Check
	tier   string
	seed   uint64
	shard  int
	shards int
	report Report
	hashes map[uint64]bool
	cur    *current

	deadline time.Time
}

func hashCase(family string, data []byte) uint64 {
	h := fnv.New64a()
	h.Write([]byte(family))
	h.Write([]byte{0})
	h.Write(data)
	return h.Sum64()
}

// slowCase is how many seconds a case may take before it is written to standard error.
var slowCase = func() float64 {
	if s, err := strconv.ParseFloat(os.Getenv("PBT_SLOW"), 64); err == nil {
		return s
	}
	return math.Inf(1)
}()

// try executes one case, and records it.
func (w *worker) try(f *Family, st *FamilyStats, c any) (string, *Record) {
	data, err := json.Marshal(c)
	if err != nil {
		harness("cannot encode case: %v", err)
	}
	w.cur.set(f.Name, data)
	begin := time.Now()
	res := f.run(c)
	if d := time.Since(begin).Seconds(); d > st.Slowest {
		st.Slowest = d
		if d > slowCase {
			fmt.Fprintf(os.Stderr, "%s: %.1f s: %s\n", f.Name, d, clip(string(data), 20000))
		}
	}
	st.Evaluations++
	for _, l := range res.Labels {
		st.Labels[l]++
	}
	if res.Fail != "" {
		return res.Fail, &Record{Property: w.check.ID, Family: f.Name, Case: data, Failure: res.Fail}
	}
	if res.Skip != "" {
		st.Skips[res.Skip]++
		return "", nil
	}
	st.Decided++
	if !res.Trivia {
		st.Nontrivial++
		h := hashCase(f.Name, data)
		if !w.hashes[h] {
			w.hashes[h] = true
			// a few spread-out samples
			if len(data) < 3000 && (len(st.Samples) == 0 || len(st.Samples) < 6 && h%97 == 0) {
				st.Samples = append(st.Samples, json.RawMessage(data))
			}
		}
	}
	return "", nil
}

func (w *worker) stats(f *Family) *FamilyStats {
	st := w.report.Families[f.Name]
	if st == nil {
		st = &FamilyStats{Skips: map[string]int{}, Labels: map[string]int{}}
		w.report.Families[f.Name] = st
	}
	return st
}

// runSweep runs an enumeration, returning false at a violation.
func (w *worker) runSweep(f *Family) bool {
	st := w.stats(f)
	begin := time.Now()
	defer func() { st.Seconds += time.Since(begin).Seconds() }()
	i := 0
	var bad *Record
	f.Sweep(w.tier, func(c any) {
		i++
		if bad != nil || i%w.shards != w.shard {
			return
		}
		if w.late() {
			st.Cut = true
			return
		}
		_, bad = w.try(f, st, c)
	})
	if bad != nil {
		w.report.Violation = bad
		return false
	}
	return true
}

func (w *worker) late() bool {
	return !w.deadline.IsZero() && time.Now().After(w.deadline)
}

// runBatch runs n random cases of a family, the first of which is number first.
func (w *worker) runBatch(f *Family, first, n int) bool {
	st := w.stats(f)
	begin := time.Now()
	defer func() { st.Seconds += time.Since(begin).Seconds() }()
	// rapid advances its seed by the iteration number, so keep campaigns far apart
	h := fnv.New64a()
	h.Write([]byte(w.check.ID + "/" + f.Name))
	seed := h.Sum64()>>20 + w.seed*1_000_000_000_000_000 + uint64(w.shard)*10_000_000_000_000 + uint64(first)*20_000_000
	if seed == 0 {
		seed = 1
	}
	flag.Set("rapid.seed", fmt.Sprint(seed))
	flag.Set("rapid.checks", fmt.Sprint(n))
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "20s")
	t := &tb{name: w.check.ID + "_" + f.Name}
	var last *Record
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(tbStop); !ok {
					panic(r)
				}
			}
		}()
		rapid.Check(t, func(rt *rapid.T) {
			c := f.Gen(rt)
			msg, rec := w.try(f, st, c)
			if msg != "" {
				last = rec
				rt.Fatalf("violation")
			}
		})
	}()
	if last != nil {
		last.Note = clip(strings.Join(t.log, "\n"), 300)
		w.report.Violation = last
		return false
	}
	if t.failed {
		harness("rapid: %s", strings.Join(t.log, "\n"))
	}
	return true
}

// quickScale multiplies the families' quick counts.
const quickScale = 4

// runFamilies runs the enumerations, and then the random families in turn, so
// that a deadline leaves none out.
func (w *worker) runFamilies(fs []*Family) bool {
	type job struct {
		f          *Family
		done, todo int
		batch      int
	}
	var jobs []*job
	for _, f := range fs {
		if f.Sweep != nil {
			if !w.runSweep(f) {
				return false
			}
			continue
		}
		n := f.Quick * quickScale
		if w.tier == "thorough" {
			n = f.Deep
		}
		n = n/w.shards + 1
		jobs = append(jobs, &job{f: f, todo: n, batch: max(n/20, 20)})
	}
	for len(jobs) > 0 {
		var next []*job
		for _, j := range jobs {
			if w.late() {
				w.stats(j.f).Cut = true
				continue
			}
			n := min(j.batch, j.todo-j.done)
			if !w.runBatch(j.f, j.done, n) {
				return false
			}
			j.done += n
			if j.done < j.todo {
				next = append(next, j)
			}
		}
		jobs = next
	}
	return true
}

func runWorker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	id := fs.String("check", "", "property")
	seed := fs.Uint64("seed", 1, "seed")
	shard := fs.Int("shard", 0, "shard")
	shards := fs.Int("shards", 1, "shards")
	tier := fs.String("tier", "quick", "tier")
	out := fs.String("out", "", "report")
	cur := fs.String("cur", "", "current case")
	only := fs.String("only", "", "only this family")
	scale := fs.Float64("scale", 1, "multiply case counts")
	corpus := fs.String("corpus", "", "saved cases to run first")
	prof := fs.String("cpuprofile", "", "write a profile")
	seconds := fs.Float64("seconds", 0, "stop after this time")
	fs.Parse(args)
	if *prof != "" {
		fd, err := os.Create(*prof)
		if err != nil {
			fatal(err)
		}
		pprof.StartCPUProfile(fd)
		defer pprof.StopCPUProfile()
	}
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(2500 << 20)
	check := checks[*id]
	if check == nil {
		fatal(fmt.Errorf("unknown check %q", *id))
	}
	w := &worker{check: check, tier: *tier, seed: *seed, shard: *shard, shards: *shards, hashes: map[uint64]bool{}, cur: openCurrent(*cur)}
	if *seconds > 0 {
		w.deadline = time.Now().Add(time.Duration(*seconds * float64(time.Second)))
	}
	w.report.Families = map[string]*FamilyStats{}
	ok := true
	if *corpus != "" {
		ok = w.runCorpus(*corpus)
	}
	var fams []*Family
	for _, f := range check.Families {
		if *only != "" && f.Name != *only {
			continue
		}
		g := *f
		g.Quick = int(float64(g.Quick) * *scale)
		g.Deep = int(float64(g.Deep) * *scale)
		fams = append(fams, &g)
	}
	ok = ok && w.runFamilies(fams)
	data, err := json.Marshal(&w.report)
	if err != nil {
		fatal(err)
	}
	if *out == "" {
		summary(&w.report)
		return
	}
	hs := make([]uint64, 0, len(w.hashes))
	for h := range w.hashes {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
	buf := make([]byte, 8*len(hs))
	for i, h := range hs {
		binary.LittleEndian.PutUint64(buf[8*i:], h)
	}
	if err := os.WriteFile(*out+".hashes", buf, 0o644); err != nil {
		fatal(err)
	}
	// under its name only once it's whole: the driver may end this process at any time
	if err := os.WriteFile(*out+".part", data, 0o644); err != nil {
		fatal(err)
	}
	if err := os.Rename(*out+".part", *out); err != nil {
		fatal(err)
	}
}

func summary(r *Report) {
	for name, st := range r.Families {
		fmt.Printf("%s: %d evaluations, %d decided, %d nontrivial, %.2fs (slowest %.3fs)\n", name, st.Evaluations, st.Decided, st.Nontrivial, st.Seconds, st.Slowest)
		show := func(what string, m map[string]int) {
			keys := make([]string, 0, len(m))
			for k := range m {
				keys = append(keys, k)
			}
			sort.Slice(keys, func(i, j int) bool { return m[keys[i]] > m[keys[j]] })
			for i, k := range keys {
				if i > 40 {
					break
				}
				fmt.Printf("   %s %-40s %d\n", what, k, m[k])
			}
		}
		show("label", st.Labels)
		show("skip ", st.Skips)
		for i, s := range st.Samples {
			if i < 3 {
				b, _ := json.Marshal(s)
				if len(b) > 400 {
					b = b[:400]
				}
				fmt.Printf("   sample %s\n", b)
			}
		}
	}
	if r.Violation != nil {
		b, _ := json.MarshalIndent(r.Violation, "", " ")
		fmt.Printf("VIOLATION %s\n", b)
		os.Exit(1)
	}
}

// runCorpus runs saved cases, one JSON record to a line.
func (w *worker) runCorpus(name string) bool {
	data, err := os.ReadFile(name)
	if os.IsNotExist(err) {
		return true
	}
	if err != nil {
		fatal(err)
	}
	for i, line := range strings.Split(string(data), "\n") {
		if strings.TrimSpace(line) == "" {
			continue
		}
		var rec Record
		if err := json.Unmarshal([]byte(line), &rec); err != nil {
			harness("corpus %s:%d: %v", name, i+1, err)
		}
		f := w.check.family(rec.Family)
		if f == nil {
			f = sharedFamily(rec.Family)
		}
		if f == nil {
			harness("corpus %s:%d: no family %q", name, i+1, rec.Family)
		}
		c, err := f.decode(rec.Case)
		if err != nil {
			harness("corpus %s:%d: %v", name, i+1, err)
		}
		g := *f
		st := w.stats(&Family{Name: "saved cases"})
		if _, bad := w.try(&g, st, c); bad != nil {
			w.report.Violation = bad
			return false
		}
	}
	return true
}

// runReplay re-executes a saved case without the property library.
func runReplay(args []string) {
	if len(args) < 1 {
		fatal(fmt.Errorf("usage: pbt replay FILE"))
	}
	data, err := os.ReadFile(args[0])
	if err != nil {
		fatal(err)
	}
	var rec Record
	if err := json.Unmarshal(data, &rec); err != nil {
		fatal(err)
	}
	check := checks[rec.Property]
	if check == nil {
		fatal(fmt.Errorf("unknown property %q", rec.Property))
	}
	f := check.family(rec.Family)
	if f == nil {
		f = sharedFamily(rec.Family)
	}
	if f == nil {
		fatal(fmt.Errorf("unknown family %q", rec.Family))
	}
	for i := 0; i < f.Reps; i++ {
		c, err := f.decode(rec.Case)
		if err != nil {
			fatal(err)
		}
		res := f.run(c)
		if res.Fail != "" {
			fmt.Printf("REPRODUCED property=%s family=%s\n%s\n", rec.Property, rec.Family, res.Fail)
			os.Exit(1)
		}
		if res.Skip != "" {
			fmt.Printf("not decided: %s\n", res.Skip)
		}
	}
	fmt.Println("held")
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: pbt worker|replay|list ...")
		os.Exit(2)
	}
	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(harnessError); ok {
				fmt.Fprintf(os.Stderr, "HARNESS: %s\n", string(h))
				os.Exit(3)
			}
			panic(r)
		}
	}()
	testing.Init() // the property library asks for testing's flags
	flag.CommandLine.Parse(nil)
	switch os.Args[1] {
	case "worker":
		runWorker(os.Args[2:])
	case "replay":
		runReplay(os.Args[2:])
	case "finding":
		runFinding(os.Args[2:])
	case "list":
		for id, c := range checks {
			fmt.Printf("%s\t%s\n", id, c.Rule)
		}
	default:
		os.Exit(2)
	}
}
