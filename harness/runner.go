package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------
// Facets and properties

// A Facet is one generated check: a generator of JSON-marshalable cases, and a
// check which is a function of the case and of the code under test only.
type Facet struct {
	Name     string
	Rule     string // how cases are made and which of them are non-trivial
	Quick    int    // cases in the quick tier
	Thorough int    // cases in the thorough tier
	// gen draws a case; the result is a pointer to the case type.
	gen        func(t *rapid.T) any
	fresh      func() any
	check      func(c any) error
	nontrivial func(c any) bool
	classes    func(c any) []string
}

func facet[C any](name, rule string, quick, thorough int, gen func(t *rapid.T) C, check func(c *C) error, nontrivial func(c *C) bool, classes func(c *C) []string) Facet {
	return Facet{
		Name: name, Rule: rule, Quick: quick, Thorough: thorough,
		gen:        func(t *rapid.T) any { c := gen(t); return &c },
		fresh:      func() any { return new(C) },
		check:      func(c any) error { return check(c.(*C)) },
		nontrivial: func(c any) bool { return nontrivial(c.(*C)) },
		classes: func(c any) []string {
			if classes == nil {
				return nil
			}
			return classes(c.(*C))
		},
	}
}

type Property struct {
	ID          string
	Assumptions []string
	Facets      []Facet
	// Probes of the known findings of the property. A probe returns true while
	// the finding is still there.
	Findings map[string]func() bool
}

var properties []*Property

func findProperty(id string) *Property {
	for _, p := range properties {
		if p.ID == id {
			return p
		}
	}
	return nil
}

func (p *Property) facet(name string) *Facet {
	for i := range p.Facets {
		if p.Facets[i].Name == name {
			return &p.Facets[i]
		}
	}
	return nil
}

// envError is a problem of the sandbox, not of the code under test.
type envError struct{ err error }

func (e *envError) Error() string { return "environment: " + e.err.Error() }

func envErr(err error) error {
	if err == nil {
		return nil
	}
	return &envError{err}
}

// guarded runs the check and turns a panic of the code under test into an error.
func guarded(f *Facet, c any) (err error) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if len(st) > 4000 {
				st = st[:4000]
			}
			err = fmt.Errorf("panic: %v\n%s", r, st)
		}
	}()
	return f.check(c)
}

// ---------------------------------------------------------------------------
// Child: runs one shard of one facet

type childResult struct {
	Facet       string         `json:"facet"`
	Evaluations int            `json:"evaluations"`
	Nontrivial  int            `json:"nontrivial"`
	Hashes      []uint64       `json:"hashes"`
	Classes     map[string]int `json:"classes"`
	Samples     []string       `json:"samples"`
	Failed      bool           `json:"failed"`
	Error       string         `json:"error,omitempty"`
	Case        string         `json:"case,omitempty"`
	Env         string         `json:"env,omitempty"`
	Done        bool           `json:"done"`
}

type tbAdapter struct {
	name   string
	mu     sync.Mutex
	failed bool
	log    []string
}

func (b *tbAdapter) Helper()      {}
func (b *tbAdapter) Name() string { return b.name }
func (b *tbAdapter) add(s string) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if len(b.log) < 50 {
		b.log = append(b.log, s)
	}
}
func (b *tbAdapter) Logf(format string, a ...any) {}
func (b *tbAdapter) Log(a ...any)                 {}
func (b *tbAdapter) Skipf(format string, a ...any) {
	b.add("SKIP " + fmt.Sprintf(format, a...))
	runtime.Goexit()
}
func (b *tbAdapter) Skip(a ...any) { b.add("SKIP " + fmt.Sprint(a...)); runtime.Goexit() }
func (b *tbAdapter) SkipNow()      { b.add("SKIP"); runtime.Goexit() }
func (b *tbAdapter) Errorf(format string, a ...any) {
	b.add(fmt.Sprintf(format, a...))
	b.Fail()
}
func (b *tbAdapter) Error(a ...any) { b.add(fmt.Sprint(a...)); b.Fail() }
func (b *tbAdapter) Fatalf(format string, a ...any) {
	b.add(fmt.Sprintf(format, a...))
	b.FailNow()
}
func (b *tbAdapter) Fatal(a ...any) { b.add(fmt.Sprint(a...)); b.FailNow() }
func (b *tbAdapter) FailNow()       { b.Fail(); runtime.Goexit() }
func (b *tbAdapter) Fail()          { b.mu.Lock(); b.failed = true; b.mu.Unlock() }
func (b *tbAdapter) Failed() bool   { b.mu.Lock(); defer b.mu.Unlock(); return b.failed }

func cpuSeconds() float64 {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return float64(ru.Utime.Sec) + float64(ru.Utime.Usec)/1e6 + float64(ru.Stime.Sec) + float64(ru.Stime.Usec)/1e6
}

const (
	hangCPU   = 25.0 // CPU seconds in one case (cases normally take milliseconds)
	heapLimit = 1500 << 20
)

var watchSeq atomic.Int64 // odd while a case runs

// watchdog reports a case which never ends or eats all memory. It measures CPU
// time of this process, so that a busy machine can't cause an alarm.
func watchdog(report func(why string)) {
	last, since := int64(-1), 0.0
	var base uint64
	for {
		time.Sleep(40 * time.Millisecond)
		s := watchSeq.Load()
		if s%2 == 0 {
			last = -1
			continue
		}
		if s != last {
			last, since = s, cpuSeconds()
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			base = ms.HeapAlloc
		}
		if d := cpuSeconds() - since; d > hangCPU {
			if watchSeq.Load() == s {
				report(fmt.Sprintf("the case is still running after %.0f CPU seconds", d))
			}
			continue
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		// What was there before the case (shrinking keeps a lot) isn't counted.
		if ms.HeapAlloc > base+heapLimit && watchSeq.Load() == s {
			runtime.GC()
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc < base+heapLimit || watchSeq.Load() != s {
				continue
			}
			report(fmt.Sprintf("the case uses %d MB of heap", ms.HeapAlloc>>20))
		}
	}
}

func setFlag(name, val string) {
	if err := flag.Set(name, val); err != nil {
		fmt.Fprintln(os.Stderr, "harness: flag", name, err)
		os.Exit(2)
	}
}

func runChild(args []string) {
	var propID, facetName, out, cur string
	var checks int
	var seed uint64
	fs := flag.NewFlagSet("child", flag.ExitOnError)
	fs.StringVar(&propID, "prop", "", "")
	fs.StringVar(&facetName, "facet", "", "")
	fs.StringVar(&out, "out", "", "")
	fs.StringVar(&cur, "cur", "", "")
	fs.IntVar(&checks, "checks", 100, "")
	fs.Uint64Var(&seed, "seed", 1, "")
	_ = fs.Parse(args)
	f := findProperty(propID).facet(facetName)

	testing.Init()
	_ = flag.CommandLine.Parse(nil)
	setFlag("rapid.checks", strconv.Itoa(checks))
	setFlag("rapid.seed", strconv.FormatUint(seed, 10))
	setFlag("rapid.nofailfile", "true")
	shrink := "25s"
	if v := os.Getenv("HARNESS_SHRINK"); v != "" { // tools/mutants.py only
		shrink = v
	}
	setFlag("rapid.shrinktime", shrink)
	debug.SetMaxStack(256 << 20)

	res := &childResult{Facet: facetName, Classes: map[string]int{}}
	var resMu sync.Mutex
	write := func() {
		b, err := json.Marshal(res)
		if err == nil {
			err = os.WriteFile(out+".tmp", b, 0o644)
		}
		if err == nil {
			err = os.Rename(out+".tmp", out)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "harness: cannot write the result:", err)
			os.Exit(2)
		}
	}
	curFile, err := os.Create(cur)
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(2)
	}
	var curCase string
	go watchdog(func(why string) {
		resMu.Lock()
		defer resMu.Unlock()
		if !res.Failed {
			res.Error, res.Case = why, curCase
		}
		res.Failed, res.Done = true, true
		write()
		os.Exit(0)
	})

	seen := map[uint64]bool{}
	failing := false
	prop := func(t *rapid.T) {
		c := f.gen(t)
		b, err := json.Marshal(c)
		if err != nil {
			t.Fatalf("case is not JSON: %v", err)
		}
		if _, err := curFile.WriteAt(append([]byte(fmt.Sprintf("%010d", len(b))), b...), 0); err != nil {
			fmt.Fprintln(os.Stderr, "harness:", err)
			os.Exit(2)
		}
		resMu.Lock()
		curCase = string(b)
		if !failing {
			res.Evaluations++
			if f.nontrivial(c) {
				h := fnv.New64a()
				h.Write(b)
				k := h.Sum64()
				res.Nontrivial++
				if !seen[k] {
					seen[k] = true
					n := len(seen)
					if n == 3 || n == 40 || n == 300 {
						res.Samples = append(res.Samples, curCase)
					}
				}
			}
			for _, k := range f.classes(c) {
				res.Classes[k]++
			}
		}
		resMu.Unlock()
		// The check gets a decoded copy, so that it sees exactly what a replay sees.
		d := f.fresh()
		if err := json.Unmarshal(b, d); err != nil {
			t.Fatalf("case doesn't decode: %v", err)
		}
		watchSeq.Add(1)
		err = guarded(f, d)
		watchSeq.Add(1)
		if err != nil {
			if e, ok := err.(*envError); ok {
				fmt.Fprintln(os.Stderr, "harness:", e)
				os.Exit(2)
			}
			failing = true
			resMu.Lock()
			res.Failed, res.Error, res.Case = true, err.Error(), string(b)
			resMu.Unlock()
			// The message is constant: rapid treats another message as another failure
			// and would stop shrinking.
			t.Fatalf("the property is violated")
		}
	}
	tb := &tbAdapter{name: propID + "/" + facetName}
	done := make(chan struct{})
	go func() {
		defer close(done)
		rapid.Check(tb, prop)
	}()
	<-done
	resMu.Lock()
	defer resMu.Unlock()
	if tb.Failed() && !res.Failed {
		res.Env = "the generator failed: " + strings.Join(tb.log, " | ")
	} else if !tb.Failed() && len(tb.log) > 0 {
		res.Env = "the run was cut short: " + strings.Join(tb.log, " | ")
	}
	for k := range seen {
		res.Hashes = append(res.Hashes, k)
	}
	sort.Slice(res.Hashes, func(i, j int) bool { return res.Hashes[i] < res.Hashes[j] })
	res.Done = true
	write()
}

// ---------------------------------------------------------------------------
// Parent

type job struct {
	facet *Facet
	shard int
	n     int
	seed  uint64
	out   string
	cur   string
	dir   string
	res   *childResult
	err   string // error of the check itself
}

func deriveSeed(parts ...any) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprintf(h, "%v\x00", p)
	}
	s := h.Sum64() >> 1
	if s == 0 {
		s = 1
	}
	return s
}

type replayFile struct {
	Property string          `json:"property"`
	Facet    string          `json:"facet"`
	Error    string          `json:"error"`
	Case     json.RawMessage `json:"case"`
}

func runCheck(args []string) int {
	var propID, tier, scratch, verif, only string
	var seed, scale int
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	fs.StringVar(&propID, "prop", "", "")
	fs.StringVar(&tier, "tier", "quick", "")
	fs.StringVar(&only, "facet", "", "")
	fs.StringVar(&scratch, "scratch", "", "")
	fs.StringVar(&verif, "verif", "/verif", "")
	fs.IntVar(&seed, "seed", 1, "")
	fs.IntVar(&scale, "scale", 100, "percent of the tier's case count")
	_ = fs.Parse(args)
	p := findProperty(propID)
	if p == nil {
		fmt.Fprintln(os.Stderr, "harness: no such property:", propID)
		return 2
	}
	if tier != "thorough" {
		tier = "quick"
	}
	start := time.Now()
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		return 2
	}
	par := runtime.NumCPU()
	if par > 8 {
		par = 8
	}
	if par < 2 {
		par = 2
	}
	var jobs []*job
	for i := range p.Facets {
		f := &p.Facets[i]
		if only != "" && f.Name != only {
			continue
		}
		n := f.Quick
		if tier == "thorough" {
			n = f.Thorough
		}
		n = n * scale / 100
		if n < 1 {
			n = 1
		}
		// The number of shards is fixed, not a function of the machine, so that a
		// run is a function of the code and the seed.
		shards := 4
		if tier == "thorough" {
			shards = 8
		}
		if n < 200 {
			shards = 1
		}
		for s := 0; s < shards; s++ {
			k := n / shards
			if s < n%shards {
				k++
			}
			dir := filepath.Join(scratch, fmt.Sprintf("%s.%d", f.Name, s))
			if err := os.MkdirAll(dir, 0o755); err != nil {
				fmt.Fprintln(os.Stderr, "harness:", err)
				return 2
			}
			jobs = append(jobs, &job{facet: f, shard: s, n: k, seed: deriveSeed(seed, p.ID, f.Name, s), dir: dir,
				out: filepath.Join(scratch, fmt.Sprintf("%s.%d.out", f.Name, s)),
				cur: filepath.Join(scratch, fmt.Sprintf("%s.%d.cur", f.Name, s))})
		}
	}
	limit := 850 * time.Second
	if tier == "thorough" {
		limit = 3 * time.Hour
	}
	deadline := start.Add(limit)
	sem := make(chan struct{}, par)
	var wg sync.WaitGroup
	for _, j := range jobs {
		wg.Add(1)
		go func(j *job) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			runJob(self, p, j, deadline)
		}(j)
	}
	wg.Wait()

	// Gather
	type facetStat struct {
		Facet       string         `json:"facet"`
		Rule        string         `json:"rule"`
		Evaluations int            `json:"evaluations"`
		Nontrivial  int            `json:"nontrivial"`
		Distinct    int            `json:"distinct_nontrivial"`
		Classes     map[string]int `json:"classes,omitempty"`
		hashes      map[uint64]bool
		samples     []string
	}
	stats := map[string]*facetStat{}
	var order []string
	exit := 0
	violations := 0
	reported := map[string]bool{}
	for _, j := range jobs {
		st := stats[j.facet.Name]
		if st == nil {
			st = &facetStat{Facet: j.facet.Name, Rule: j.facet.Rule, Classes: map[string]int{}, hashes: map[uint64]bool{}}
			stats[j.facet.Name] = st
			order = append(order, j.facet.Name)
		}
		if j.err != "" {
			fmt.Fprintf(os.Stderr, "harness: %s/%s shard %d: %s\n", p.ID, j.facet.Name, j.shard, j.err)
			exit = 2
			continue
		}
		r := j.res
		st.Evaluations += r.Evaluations
		st.Nontrivial += r.Nontrivial
		for _, h := range r.Hashes {
			st.hashes[h] = true
		}
		for k, v := range r.Classes {
			st.Classes[k] += v
		}
		if j.shard == 0 || len(st.samples) == 0 {
			st.samples = append(st.samples, r.Samples...)
		}
		if r.Failed {
			violations++
			if !reported[j.facet.Name] {
				reported[j.facet.Name] = true
				path := filepath.Join(verif, "evidence", "replay", p.ID+"-"+j.facet.Name+".json")
				if err := writeReplay(path, p.ID, j.facet.Name, r); err != nil {
					fmt.Fprintln(os.Stderr, "harness:", err)
				}
				msg := r.Error
				if len(msg) > 3000 {
					msg = msg[:3000] + "..."
				}
				fmt.Printf("%s/%s: %s\n", p.ID, j.facet.Name, msg)
				cs := r.Case
				if len(cs) > 3000 {
					cs = cs[:3000] + "..."
				}
				fmt.Printf("  case: %s\n", cs)
				fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
			}
		}
	}
	findings, err := knownFindings(verif, p)
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		exit = 2
	}
	for _, l := range findings {
		fmt.Println(l)
	}
	total, distinct := 0, 0
	var rules []string
	var facets []*facetStat
	samples := []any{}
	for _, n := range order {
		st := stats[n]
		st.Distinct = len(st.hashes)
		total += st.Evaluations
		distinct += st.Distinct
		rules = append(rules, n+": "+st.Rule)
		facets = append(facets, st)
		for i, s := range st.samples {
			if i < 2 {
				var v any
				if json.Unmarshal([]byte(s), &v) == nil {
					samples = append(samples, map[string]any{"facet": n, "case": v})
				}
			}
		}
	}
	assumptions := append([]string{"Generated-input search: what was not generated is not covered."}, p.Assumptions...)
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations": total, "distinct_nontrivial": distinct, "rule": strings.Join(rules, " || "),
			"samples": samples, "facets": facets,
		},
		"assumptions": assumptions,
		"wall_s":      time.Since(start).Seconds(), "violations": violations,
	}
	if only == "" {
		b, err := json.MarshalIndent(ev, "", " ")
		if err == nil {
			err = os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
		}
		if err == nil {
			err = os.WriteFile(filepath.Join(verif, "evidence", p.ID+".json"), append(b, '\n'), 0o644)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "harness: evidence:", err)
			exit = 2
		}
	} else {
		b, _ := json.MarshalIndent(facets, "", " ")
		fmt.Println(string(b))
	}
	fmt.Printf("%s %s: %d cases, %d distinct non-trivial, %d failing shards, %.1f s\n", p.ID, tier, total, distinct, violations, time.Since(start).Seconds())
	if violations > 0 {
		return 1
	}
	return exit
}

func writeReplay(path, prop, fct string, r *childResult) error {
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		return err
	}
	b, err := json.MarshalIndent(&replayFile{Property: prop, Facet: fct, Error: r.Error, Case: json.RawMessage(r.Case)}, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0o644)
}

func runJob(self string, p *Property, j *job, deadline time.Time) {
	cmd := exec.Command(self, "child", "-prop", p.ID, "-facet", j.facet.Name, "-out", j.out, "-cur", j.cur,
		"-checks", strconv.Itoa(j.n), "-seed", strconv.FormatUint(j.seed, 10))
	cmd.Dir = j.dir
	var stderr bytes.Buffer
	cmd.Stderr = &tailWriter{buf: &stderr}
	cmd.Stdout = cmd.Stderr
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOMAXPROCS=4")
	if err := cmd.Start(); err != nil {
		j.err = err.Error()
		return
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(time.Until(deadline)):
		_ = cmd.Process.Kill()
		<-done
		j.err = "out of time"
		return
	}
	if b, e := os.ReadFile(j.out); e == nil {
		r := &childResult{}
		if json.Unmarshal(b, r) == nil && r.Done {
			if r.Env != "" && !r.Failed {
				j.err = r.Env
				return
			}
			j.res = r
			return
		}
	}
	// The child died. That is a violation if the code under test made the Go
	// runtime abort (stack overflow, data race, concurrent map writes, ...).
	msg := stderr.String()
	abort := ""
	for _, pat := range []string{"stack exceeds", "stack overflow", "DATA RACE", "concurrent map", "all goroutines are asleep", "unexpected signal", "invalid memory address"} {
		if strings.Contains(msg, pat) {
			abort = pat
		}
	}
	if abort != "" {
		if c := readCur(j.cur); c != "" {
			if len(msg) > 6000 {
				msg = msg[:6000]
			}
			j.res = &childResult{Facet: j.facet.Name, Failed: true, Error: "the process aborted (" + abort + "):\n" + msg, Case: c, Evaluations: 1}
			return
		}
	}
	if len(msg) > 3000 {
		msg = msg[:3000]
	}
	j.err = fmt.Sprintf("child died: %v: %s", err, msg)
}

type tailWriter struct{ buf *bytes.Buffer }

func (w *tailWriter) Write(b []byte) (int, error) {
	if w.buf.Len() < 64<<10 {
		w.buf.Write(b)
	}
	return len(b), nil
}

func readCur(path string) string {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 10 {
		return ""
	}
	n, err := strconv.Atoi(string(b[:10]))
	if err != nil || len(b) < 10+n {
		return ""
	}
	return string(b[10 : 10+n])
}

// knownFindings prints the listed findings of the property which are still there.
func knownFindings(verif string, p *Property) ([]string, error) {
	fh, err := os.Open(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return nil, err
	}
	defer fh.Close()
	var r []string
	sc := bufio.NewScanner(fh)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		rest, ok := strings.CutPrefix(l, "finding: property="+p.ID+" ")
		if !ok {
			continue
		}
		id, text, _ := strings.Cut(rest, " ")
		probe := p.Findings[id]
		if probe == nil {
			return r, fmt.Errorf("no probe for the finding %s of %s", id, p.ID)
		}
		if probe() {
			r = append(r, fmt.Sprintf("KNOWN-FINDING: property=%s %s %s", p.ID, id, text))
		}
	}
	return r, sc.Err()
}

func runReplay(args []string) int {
	var scratch string
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	fs.StringVar(&scratch, "scratch", "", "")
	_ = fs.Parse(args)
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := findProperty(rf.Property)
	if p == nil || p.facet(rf.Facet) == nil {
		fmt.Fprintln(os.Stderr, "no such property or facet")
		return 2
	}
	f := p.facet(rf.Facet)
	c := f.fresh()
	if err := json.Unmarshal(rf.Case, c); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if scratch != "" {
		dir := filepath.Join(scratch, "replay")
		if os.MkdirAll(dir, 0o755) != nil || os.Chdir(dir) != nil {
			return 2
		}
	}
	debug.SetMaxStack(256 << 20)
	go watchdog(func(why string) {
		fmt.Println("FAIL:", why)
		os.Exit(1)
	})
	watchSeq.Add(1)
	err = guarded(f, c)
	watchSeq.Add(1)
	if err != nil {
		if _, ok := err.(*envError); ok {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		fmt.Println("FAIL:", err)
		return 1
	}
	fmt.Println("PASS")
	return 0
}

// runGen prints a few generated cases, for looking at what a generator makes.
func runGen(args []string) int {
	var propID, facetName string
	var n int
	var seed uint64
	fs := flag.NewFlagSet("gen", flag.ExitOnError)
	fs.StringVar(&propID, "prop", "", "")
	fs.StringVar(&facetName, "facet", "", "")
	fs.IntVar(&n, "n", 5, "")
	fs.Uint64Var(&seed, "seed", 1, "")
	_ = fs.Parse(args)
	f := findProperty(propID).facet(facetName)
	testing.Init()
	_ = flag.CommandLine.Parse(nil)
	setFlag("rapid.checks", strconv.Itoa(n))
	setFlag("rapid.seed", strconv.FormatUint(seed, 10))
	setFlag("rapid.nofailfile", "true")
	done := make(chan struct{})
	go func() {
		defer close(done)
		rapid.Check(&tbAdapter{name: "gen"}, func(t *rapid.T) {
			c := f.gen(t)
			b, _ := json.MarshalIndent(c, "", " ")
			fmt.Printf("%s\n", strings.NewReplacer(`\n`, "\n", `\u003c`, "<", `\u003e`, ">", `\u0026`, "&", `\"`, `"`).Replace(string(b)))
			if err := guarded(f, c); err != nil {
				fmt.Println("  FAIL:", err)
			} else {
				fmt.Println("  ok; nontrivial:", f.nontrivial(c), f.classes(c))
			}
		})
	}()
	<-done
	return 0
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness check|child|replay|gen ...")
		os.Exit(2)
	}
	silenceLog()
	switch os.Args[1] {
	case "check":
		os.Exit(runCheck(os.Args[2:]))
	case "child":
		runChild(os.Args[2:])
	case "replay":
		os.Exit(runReplay(os.Args[2:]))
	case "gen":
		os.Exit(runGen(os.Args[2:]))
	default:
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(2)
	}
}
