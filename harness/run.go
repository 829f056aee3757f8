package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// ---------------------------------------------------------------- properties

// Prop is one property together with the deterministic list of cases that exercise it.
type Prop struct {
	ID   string
	Rule string
	// Cases returns the case list; it depends on nothing but its arguments.
	Cases func(quick bool, seed int64) []Case
	// MinEvents are counters that must be positive, or the run observed nothing.
	MinEvents   []string
	Assumptions []string
	MemLimit    uint64 // address space of a worker
}

type Case struct {
	ID  string
	Run func(c *Ctx)
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// N picks a case count by tier.
func N(quick bool, q, t int) int {
	if quick {
		return q
	}
	return t
}

// ---------------------------------------------------------------- case context

type Ctx struct {
	Prop, ID string
	Seed     int64
	Rng      *rand.Rand
	Quick    bool

	mu       sync.Mutex
	fails    []string
	findings []string
	counts   map[string]int64
	sigs     map[uint64]struct{}
	samples  []string
	evals    int64
	scratch  string
}

func caseSeed(prop, id string, seed int64) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s|%s|%d", prop, id, seed)
	return int64(h.Sum64() >> 1)
}

// Fail records a violation of the property under check.
func (c *Ctx) Fail(format string, args ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.fails) < 8 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 2000 {
			s = s[:2000] + "..."
		}
		c.fails = append(c.fails, s)
	}
}

func (c *Ctx) Failed() bool { c.mu.Lock(); defer c.mu.Unlock(); return len(c.fails) > 0 }

// Finding reports that a listed known finding still manifests.
func (c *Ctx) Finding(key string) { c.mu.Lock(); c.findings = append(c.findings, key); c.mu.Unlock() }

func (c *Ctx) Count(name string, n int64) { c.mu.Lock(); c.counts[name] += n; c.mu.Unlock() }

// Eval counts one executed evaluation (an input or history run through the oracle). sig identifies it;
// nontrivial says whether it counts as a non-trivial one.
func (c *Ctx) Eval(sig []byte, nontrivial bool) {
	h := sha256.Sum256(sig)
	var k uint64
	for i := 0; i < 8; i++ {
		k = k<<8 | uint64(h[i])
	}
	if started.Load() != 0 { // a sign of life
		started.Store(time.Now().UnixNano())
	}
	c.mu.Lock()
	c.evals++
	if nontrivial {
		c.sigs[k] = struct{}{}
	}
	c.mu.Unlock()
}

// started is when the current case began or last evaluated something; the watchdog looks at it.
var started atomic.Int64

func (c *Ctx) Sample(format string, args ...any) {
	c.mu.Lock()
	if len(c.samples) < 1 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.samples = append(c.samples, c.ID+": "+s)
	}
	c.mu.Unlock()
}

// Scratch returns a scratch directory that is removed after the case.
func (c *Ctx) Scratch() string {
	if c.scratch == "" {
		d, err := os.MkdirTemp("", "vmon-")
		if err != nil {
			panic(harnessErr{err})
		}
		c.scratch = d
	}
	return c.scratch
}

// harnessErr marks a panic as an error of the harness, not of the code under test.
type harnessErr struct{ err error }

func (h harnessErr) Error() string { return "harness: " + h.err.Error() }

func must(err error) {
	if err != nil {
		panic(harnessErr{err})
	}
}

// ---------------------------------------------------------------- worker

type violation struct {
	Case    string   `json:"case"`
	Details []string `json:"details"`
}

type workerResult struct {
	Cases      int64            `json:"cases"`
	Evals      int64            `json:"evals"`
	Sigs       []uint64         `json:"sigs"`
	Counts     map[string]int64 `json:"counts"`
	Samples    []string         `json:"samples"`
	Violations []violation      `json:"violations"`
	Findings   []string         `json:"findings"`
	HarnessErr string           `json:"harness_err,omitempty"`
	Truncated  bool             `json:"truncated,omitempty"`
}

const (
	exitHang = 66
	maxViol  = 4
)

func runCase(p *Prop, cs Case, seed int64, quick bool) (ctx *Ctx, herr string) {
	ctx = &Ctx{Prop: p.ID, ID: cs.ID, Seed: seed, Quick: quick,
		Rng:    rand.New(rand.NewSource(caseSeed(p.ID, cs.ID, seed))),
		counts: map[string]int64{}, sigs: map[uint64]struct{}{}}
	defer func() {
		if ctx.scratch != "" {
			_ = os.RemoveAll(ctx.scratch)
		}
	}()
	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(harnessErr); ok {
				herr = h.Error() + "\n" + string(debug.Stack())
				return
			}
			ctx.Fail("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	cs.Run(ctx)
	return ctx, ""
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for _, l := range lines {
		out = append(out, l)
		if len(out) > 40 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func worker(args []string) int {
	fl := flag.NewFlagSet("work", flag.ExitOnError)
	prop := fl.String("prop", "", "")
	tier := fl.String("tier", "quick", "")
	seed := fl.Int64("seed", 1, "")
	shard := fl.Int("shard", 0, "")
	of := fl.Int("of", 1, "")
	after := fl.String("after", "", "skip cases up to and including this one")
	only := fl.String("only", "", "run only this case")
	dir := fl.String("dir", "", "")
	budget := fl.Int("budget", 400, "seconds after which no further case is started")
	hang := fl.Int("hang", 100, "seconds without an evaluation or a finished case before giving up")
	_ = fl.Parse(args)

	debug.SetMaxStack(256 << 20)
	p := props[*prop]
	if p.MemLimit > 0 {
		must(syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: p.MemLimit, Max: p.MemLimit}))
	}
	quick := *tier == "quick"
	cases := p.Cases(quick, *seed)

	journal, err := os.OpenFile(filepath.Join(*dir, fmt.Sprintf("journal.%d", *shard)), os.O_CREATE|os.O_RDWR, 0o644)
	must(err)

	var current atomic.Value
	current.Store("")
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			s := started.Load()
			if s != 0 && time.Now().UnixNano()-s > int64(*hang)*int64(time.Second) {
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				fmt.Fprintf(os.Stderr, "watchdog: case %v made no progress for %d s\n%s\n", current.Load(), *hang, buf)
				os.Exit(exitHang)
			}
		}
	}()

	res := workerResult{Counts: map[string]int64{}}
	sigs := map[uint64]struct{}{}
	skipping := *after != ""
	begin := time.Now()
	for i, cs := range cases {
		if *only == "" && time.Since(begin) > time.Duration(*budget)*time.Second {
			res.Truncated = true // a slow machine explores less
			break
		}
		if *only != "" {
			if cs.ID != *only {
				continue
			}
		} else {
			if i%*of != *shard {
				continue
			}
			if skipping {
				if cs.ID == *after {
					skipping = false
				}
				continue
			}
		}
		rec := fmt.Sprintf("%-200s", cs.ID)
		_, _ = journal.WriteAt([]byte(rec), 0)
		current.Store(cs.ID)
		started.Store(time.Now().UnixNano())
		ctx, herr := runCase(p, cs, *seed, quick)
		started.Store(0)
		res.Cases++
		if herr != "" {
			res.HarnessErr = cs.ID + ": " + herr
			break
		}
		res.Evals += ctx.evals
		for k := range ctx.sigs {
			sigs[k] = struct{}{}
		}
		for k, n := range ctx.counts {
			res.Counts[k] += n
		}
		if len(res.Samples) < 2 {
			res.Samples = append(res.Samples, ctx.samples...)
		}
		res.Findings = append(res.Findings, ctx.findings...)
		if len(ctx.fails) > 0 {
			res.Violations = append(res.Violations, violation{cs.ID, ctx.fails})
			if len(res.Violations) >= maxViol {
				break
			}
		}
	}
	for k := range sigs {
		res.Sigs = append(res.Sigs, k)
	}
	b, err := json.Marshal(&res)
	must(err)
	name := filepath.Join(*dir, fmt.Sprintf("result.%d.%s.json", *shard, hex.EncodeToString([]byte(*after + "|" + *only))[:min(40, 2*len(*after+"|"+*only))]))
	must(os.WriteFile(name, b, 0o644))
	fmt.Fprintln(os.Stdout, name)
	return 0
}

// ---------------------------------------------------------------- driver

type merged struct {
	sync.Mutex
	workerResult
	sigset map[uint64]struct{}
	incon  []string
	races  []string
}

func (m *merged) add(r *workerResult) {
	m.Lock()
	defer m.Unlock()
	m.Cases += r.Cases
	m.Evals += r.Evals
	for _, k := range r.Sigs {
		m.sigset[k] = struct{}{}
	}
	for k, n := range r.Counts {
		m.Counts[k] += n
	}
	m.Samples = append(m.Samples, r.Samples...)
	m.Violations = append(m.Violations, r.Violations...)
	m.Findings = append(m.Findings, r.Findings...)
	m.Truncated = m.Truncated || r.Truncated
	if r.HarnessErr != "" {
		m.incon = append(m.incon, "harness error: "+r.HarnessErr)
	}
}

func check(args []string) int {
	fl := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fl.String("prop", "", "")
	tier := fl.String("tier", "quick", "")
	seed := fl.Int64("seed", 1, "")
	root := fl.String("root", "/verif", "")
	jobs := fl.Int("jobs", 8, "")
	replay := fl.String("replay", "", "")
	_ = fl.Parse(args)

	p := props[*prop]
	if p == nil {
		fmt.Println("unknown property", *prop)
		return 2
	}
	if *replay != "" {
		return doReplay(p, *replay)
	}
	start := time.Now()
	known := loadKnown(filepath.Join(*root, "known_findings.json"), *prop)

	dir, err := os.MkdirTemp("", "vmon-run-")
	must(err)
	defer os.RemoveAll(dir)
	covdir := filepath.Join(dir, "cov")
	must(os.Mkdir(covdir, 0o755))

	m := &merged{sigset: map[uint64]struct{}{}}
	m.Counts = map[string]int64{}
	self, err := os.Executable()
	must(err)

	budget := 400
	if *tier != "quick" {
		budget = 3600
	}
	stop, cancel := context.WithCancel(context.Background())
	defer cancel()
	spawn := func(extra ...string) (*workerResult, string, int) {
		a := append([]string{"work", "-prop", *prop, "-tier", *tier, "-seed", strconv.FormatInt(*seed, 10), "-dir", dir, "-budget", strconv.Itoa(budget)}, extra...)
		cmd := exec.CommandContext(stop, self, a...)
		var so, se bytes.Buffer
		cmd.Stdout, cmd.Stderr = &so, &limitWriter{w: &se, n: 4 << 20}
		cmd.Env = append(os.Environ(),
			"GORACE=halt_on_error=0 exitcode=0 history_size=5 log_path="+filepath.Join(dir, "race"),
			"GOTRACEBACK=all", "GOCOVERDIR="+covdir, "TMPDIR="+dir)
		err := cmd.Run()
		code := 0
		if err != nil {
			code = 1
			if ee, ok := err.(*exec.ExitError); ok {
				code = ee.ExitCode()
			}
			return nil, se.String(), code
		}
		b, err := os.ReadFile(strings.TrimSpace(so.String()))
		if err != nil {
			return nil, se.String() + so.String(), 1
		}
		var r workerResult
		if err := json.Unmarshal(b, &r); err != nil {
			return nil, err.Error(), 1
		}
		return &r, "", 0
	}

	var wg sync.WaitGroup
	for i := 0; i < *jobs; i++ {
		wg.Add(1)
		go func(shard int) {
			defer wg.Done()
			after := ""
			for restarts := 0; restarts < 4; restarts++ {
				a := []string{"-shard", strconv.Itoa(shard), "-of", strconv.Itoa(*jobs)}
				if after != "" {
					a = append(a, "-after", after)
				}
				r, msg, code := spawn(a...)
				if r != nil {
					m.add(r)
					return
				}
				if stop.Err() != nil {
					return
				}
				jb, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("journal.%d", shard)))
				cur := strings.TrimSpace(string(jb))
				if cur == "" {
					m.Lock()
					m.incon = append(m.incon, fmt.Sprintf("worker %d died before its first case (exit %d): %s", shard, code, tail(msg)))
					m.Unlock()
					return
				}
				// Confirm alone in a fresh process, with twice the time for a hang.
				r2, msg2, code2 := spawn("-shard", strconv.Itoa(1000+shard), "-only", cur, "-hang", "200")
				m.Lock()
				switch {
				case stop.Err() != nil:
					m.Unlock()
					return
				case r2 != nil && len(r2.Violations) > 0:
					m.Violations = append(m.Violations, r2.Violations...)
				case r2 != nil:
					m.incon = append(m.incon, fmt.Sprintf("case %s killed a worker (exit %d) but passes alone: %s", cur, code, tail(msg)))
				case code2 == exitHang:
					m.Violations = append(m.Violations, violation{cur, []string{"did not terminate (twice, the second time alone within 200 s): " + tail(msg2)}})
					m.Unlock()
					cancel() // enough seen, and others may hang as well
					return
				default:
					m.Violations = append(m.Violations, violation{cur, []string{fmt.Sprintf("process died (exit %d): %s", code2, tail(msg2))}})
				}
				m.Unlock()
				after = cur
			}
		}(i)
	}
	wg.Wait()

	// Race detector reports.
	logs, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	for _, l := range logs {
		b, _ := os.ReadFile(l)
		for _, blk := range strings.Split(string(b), "==================") {
			if strings.Contains(blk, "WARNING: DATA RACE") {
				m.races = append(m.races, strings.TrimSpace(blk))
			}
		}
	}
	m.Counts["race_reports"] = int64(len(m.races))
	for _, blk := range m.races {
		if inRepo(blk) {
			m.Violations = append(m.Violations, violation{"race-detector", []string{blk}})
			break
		}
	}
	for _, blk := range m.races {
		if !inRepo(blk) {
			m.incon = append(m.incon, "race report outside the code under test:\n"+blk)
			break
		}
	}

	// Coverage of the code under test by this run, when the binary is instrumented.
	cov := coverage(covdir)

	for _, e := range p.MinEvents {
		if m.Counts[e] == 0 && !m.Truncated {
			m.incon = append(m.incon, "no event observed for "+e)
		}
	}

	code := 0
	if len(m.Violations) > 0 {
		code = 1
		sort.Slice(m.Violations, func(i, j int) bool { return m.Violations[i].Case < m.Violations[j].Case })
		rdir := filepath.Join(*root, "replays")
		_ = os.MkdirAll(rdir, 0o755)
		path := filepath.Join(rdir, fmt.Sprintf("%s-%s-%d.json", *prop, *tier, *seed))
		b, _ := json.MarshalIndent(map[string]any{"property": *prop, "tier": *tier, "seed": *seed, "violations": m.Violations}, "", " ")
		_ = os.WriteFile(path, b, 0o644)
		for i, v := range m.Violations {
			if i < 5 {
				fmt.Printf("violated by case %s:\n", v.Case)
				for _, d := range v.Details {
					fmt.Println("   ", strings.ReplaceAll(d, "\n", "\n    "))
				}
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
	} else if len(m.incon) > 0 {
		code = 2
		for _, s := range m.incon {
			fmt.Println("INCONCLUSIVE:", s)
		}
	}
	seen := map[string]bool{}
	for _, f := range m.Findings {
		if !seen[f] {
			seen[f] = true
			if desc, ok := known[f]; ok {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, desc)
			}
		}
	}

	if len(m.Samples) > 6 {
		m.Samples = m.Samples[:6]
	}
	covj := map[string]any{
		"evaluations":         m.Evals,
		"distinct_nontrivial": len(m.sigset),
		"rule":                p.Rule,
		"samples":             m.Samples,
		"cases":               m.Cases,
		"observed":            m.Counts,
	}
	if m.Truncated {
		covj["stopped_at_time_budget"] = true
	}
	if cov != nil {
		covj["statement_coverage_of_repo"] = cov
	}
	if len(seen) > 0 {
		covj["known_findings_seen"] = seen
	}
	ev := map[string]any{
		"property": *prop, "tier": *tier, "seed": *seed, "level": "exploration",
		"coverage": covj, "assumptions": p.Assumptions,
		"wall_s":     time.Since(start).Seconds(),
		"violations": len(m.Violations),
	}
	if p.Assumptions == nil {
		delete(ev, "assumptions")
	}
	b, err := json.MarshalIndent(ev, "", " ")
	must(err)
	_ = os.MkdirAll(filepath.Join(*root, "evidence"), 0o755)
	must(os.WriteFile(filepath.Join(*root, "evidence", *prop+".json"), b, 0o644))
	fmt.Printf("%s %s seed=%d: cases=%d evaluations=%d distinct=%d violations=%d inconclusive=%d wall=%.1fs\n",
		*prop, *tier, *seed, m.Cases, m.Evals, len(m.sigset), len(m.Violations), len(m.incon), time.Since(start).Seconds())
	keys := make([]string, 0, len(m.Counts))
	for k := range m.Counts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("   observed %-32s %d\n", k, m.Counts[k])
	}
	return code
}

func inRepo(blk string) bool {
	return strings.Contains(blk, "github.com/dpeckett/archivefs/") || strings.Contains(blk, "/repo/")
}

func coverage(dir string) map[string]string {
	ents, _ := os.ReadDir(dir)
	if len(ents) == 0 {
		return nil
	}
	out, err := exec.Command("go", "tool", "covdata", "percent", "-i="+dir).CombinedOutput()
	if err != nil {
		return nil
	}
	res := map[string]string{}
	for _, l := range strings.Split(string(out), "\n") {
		f := strings.Fields(l)
		if len(f) >= 3 && strings.HasPrefix(f[0], "github.com/dpeckett/archivefs") {
			res[strings.TrimPrefix(f[0], "github.com/dpeckett/archivefs/")] = f[2]
		}
	}
	return res
}

type limitWriter struct {
	w *bytes.Buffer
	n int
}

func (l *limitWriter) Write(p []byte) (int, error) {
	if l.w.Len() < l.n {
		l.w.Write(p)
	}
	return len(p), nil
}

func tail(s string) string {
	// The head of a Go crash report is the interesting part.
	if len(s) > 3000 {
		s = s[:3000] + "\n..."
	}
	return s
}

func doReplay(p *Prop, path string) int {
	b, err := os.ReadFile(path)
	must(err)
	var r struct {
		Tier       string
		Seed       int64
		Violations []violation
	}
	must(json.Unmarshal(b, &r))
	cases := p.Cases(r.Tier == "quick", r.Seed)
	rc := 0
	for _, v := range r.Violations {
		found := false
		for _, cs := range cases {
			if cs.ID == v.Case {
				found = true
				ctx, herr := runCase(p, cs, r.Seed, r.Tier == "quick")
				fmt.Println("replay", cs.ID, herr)
				for _, f := range ctx.fails {
					fmt.Println("   ", f)
					rc = 1
				}
			}
		}
		if !found {
			fmt.Println("recorded (not replayable as a single case):", v.Case)
			for _, d := range v.Details {
				fmt.Println("   ", d)
			}
		}
	}
	if rc == 1 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
	}
	return rc
}

// loadKnown returns the known findings of a property: key -> description.
func loadKnown(path, prop string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	var k struct {
		Findings []struct{ Property, Key, What string }
	}
	if json.Unmarshal(b, &k) == nil {
		for _, f := range k.Findings {
			if f.Property == prop {
				out[f.Key] = f.What
			}
		}
	}
	return out
}
