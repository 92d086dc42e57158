package main

// The runner: deterministic cases, worker pool, watchdog, evidence, replays
// and known findings.

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// RNG is a splitmix64 generator: cheap to seed, one per case.
type RNG struct {
	s    uint64
	past []string // strings made lately
}

// remember s, one of the strings that again may give.
func (r *RNG) remember(s string) string {
	if len(s) < 400 {
		if len(r.past) < 6 {
			r.past = append(r.past, s)
		} else {
			r.past[r.N(6)] = s
		}
	}
	return s
}

// again gives a string made lately, or something close to it.
func (r *RNG) again() (string, bool) {
	if len(r.past) == 0 {
		return "", false
	}
	s := pick(r, r.past)
	switch r.N(8) {
	case 0:
		s += pick(r, r.past)
	case 1:
		s += " "
	case 2:
		s = strings.ToUpper(s)
	}
	return s, true
}

func (r *RNG) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (r *RNG) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *RNG) P(percent int) bool      { return r.N(100) < percent }
func (r *RNG) Bool() bool              { return r.U64()&1 == 1 }
func (r *RNG) Range(a, b int) int      { return a + r.N(b-a+1) }
func (r *RNG) Pick(l ...string) string { return l[r.N(len(l))] }
func (r *RNG) PickInt(l ...int) int    { return l[r.N(len(l))] }
func pick[T any](r *RNG, l []T) T      { return l[r.N(len(l))] }
func hash64(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		io.WriteString(h, p)
		h.Write([]byte{0})
	}
	return h.Sum64()
}

// failure is what a case panics with when it observed a violation.
type failure struct {
	msg string
	sig string // signature, matched against known findings
}

// Suite is a numbered family of deterministic cases.
type Suite struct {
	Name   string
	Quick  int // number of cases
	Thor   int
	Serial bool
	Run    func(c *Ctx, i int)
}

// Check decides one property.
type Check struct {
	ID     string
	Level  string
	Rule   string
	Race   bool // wants the race detector
	Assume []string
	Suites []Suite
	Exh    bool
}

var checks = map[string]*Check{}

func register(c *Check) {
	if c.Level == "" {
		c.Level = "exploration"
	}
	checks[c.ID] = c
}

// Ctx is what a case gets.
type Ctx struct {
	R     *RNG
	Tier  string
	check *Check
	suite *Suite
	i     int
	w     *worker
	desc  func() string
	tmp   string
}

type worker struct {
	tid      int
	mu       sync.Mutex
	suite    string
	cur      int
	start    time.Time
	startCPU float64
	busy     bool
	desc     string

	evals    int64
	events   map[string]int64
	distinct map[uint64]struct{}
	enum     int64
	samples  []string
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Fail reports a violation of the property by this case.
func (c *Ctx) Fail(format string, args ...interface{}) {
	panic(&failure{msg: fmt.Sprintf(format, args...)})
}

// FailSig reports a violation that has a signature, under which it may be
// listed as a known finding.
func (c *Ctx) FailSig(sig, format string, args ...interface{}) {
	panic(&failure{msg: fmt.Sprintf(format, args...), sig: sig})
}

// Known reports whether the finding with this signature is listed, and
// remembers that it was observed on this run.
func (c *Ctx) Known(sig string) bool {
	if knownListed(c.check.ID, sig) {
		knownMu.Lock()
		knownSeen[sig]++
		knownMu.Unlock()
		return true
	}
	return false
}

// Describe sets the description of the case used if it fails.
func (c *Ctx) Describe(f func() string) { c.desc = f }

// Eval counts n executions judged by the oracle.
func (c *Ctx) Eval(n int) { c.w.evals += int64(n) }

// Event counts what the monitors observed.
func (c *Ctx) Event(name string, n int) { c.w.events[name] += int64(n) }

// Distinct counts a distinct non-trivial case by its content.
func (c *Ctx) Distinct(parts ...string) {
	if len(c.w.distinct) < distinctMax { // the count is a lower bound beyond
		c.w.distinct[hash64(parts...)] = struct{}{}
	}
}

const distinctMax = 2500000 // of one worker

// Enumerated counts n cases that are distinct by construction.
func (c *Ctx) Enumerated(n int) { c.w.enum += int64(n) }

// Sample records an actual case for the evidence.
func (c *Ctx) Sample(format string, args ...interface{}) {
	if len(c.w.samples) < 2 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 700 {
			s = s[:700] + "..."
		}
		c.w.samples = append(c.w.samples, s)
	}
}

// --- known findings ---

type finding struct {
	Property string `json:"property"`
	Sig      string `json:"signature"`
	What     string `json:"what"`
	Example  string `json:"example"`
}

type findingsFile struct {
	Known []finding `json:"known"`
	Fixed []string  `json:"fixed"`
}

var (
	known     findingsFile
	knownMu   sync.Mutex
	knownSeen = map[string]int{}
	verifDir  = "/verif"
	repoDir   = "/repo"
)

func loadKnown() {
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.json"))
	if err != nil {
		die("known findings: %v", err)
	}
	if err := json.Unmarshal(b, &known); err != nil {
		die("known findings: %v", err)
	}
}

func knownListed(prop, sig string) bool {
	for _, k := range known.Known {
		if k.Property == prop && k.Sig == sig {
			return true
		}
	}
	return false
}

func die(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "harness error: "+format+"\n", args...)
	os.Exit(3)
}

// --- replays ---

type replay struct {
	Property string `json:"property"`
	Suite    string `json:"suite"`
	Case     int    `json:"case"`
	Seed     int64  `json:"seed"`
	Tier     string `json:"tier"`
	Message  string `json:"message"`
	Details  string `json:"details"`
}

func writeReplay(r replay) string {
	dir := filepath.Join(verifDir, "out", "replays")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(r, "", "  ")
	name := fmt.Sprintf("%s-%016x.json", r.Property, hash64(string(b)))
	p := filepath.Join(dir, name)
	if err := os.WriteFile(p, b, 0o644); err != nil {
		die("replay: %v", err)
	}
	return p
}

// --- running ---

type runner struct {
	check   *Check
	seed    int64
	tier    string
	workers []*worker
	mu      sync.Mutex
	viol    []replay
	started time.Time
	perS    map[string]int64
}

const nWorkers = 8

func (r *runner) caseCtx(s *Suite, i int, w *worker) *Ctx {
	seed := hash64("case", r.check.ID, s.Name, strconv.Itoa(i), strconv.FormatInt(r.seed, 10))
	return &Ctx{R: &RNG{s: seed}, Tier: r.tier, check: r.check, suite: s, i: i, w: w}
}

// runCase runs one case and returns its violation, if any.
func (r *runner) runCase(s *Suite, i int, w *worker) (v *replay) {
	c := r.caseCtx(s, i, w)
	defer func() {
		e := recover()
		if e == nil {
			return
		}
		msg := ""
		switch f := e.(type) {
		case *failure:
			if f.sig != "" && c.Known(f.sig) {
				return
			}
			msg = f.msg
		default:
			msg = fmt.Sprintf("panic: %v\n%s", e, clip(string(debug.Stack())))
		}
		d := ""
		if c.desc != nil {
			func() {
				defer func() {
					if e := recover(); e != nil {
						d = fmt.Sprint("(description failed: ", e, ")")
					}
				}()
				d = c.desc()
			}()
		}
		v = &replay{r.check.ID, s.Name, i, r.seed, r.tier, msg, d}
	}()
	w.evals++
	s.Run(c, i)
	return nil
}

func threadCPU(tid int) float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/self/task/%d/stat", tid))
	if err != nil {
		return 0
	}
	s := string(b)
	k := strings.LastIndexByte(s, ')')
	f := strings.Fields(s[k+1:])
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	y, _ := strconv.ParseFloat(f[12], 64)
	return (u + y) / 100
}

func rssMB() int {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	n, _ := strconv.Atoi(f[1])
	return n * os.Getpagesize() >> 20
}

// abort ends the process with a violation from the watchdog.
func (r *runner) abort(msg string, ws []*worker) {
	for _, w := range ws {
		w.mu.Lock()
		suite, cur := w.suite, w.cur
		w.mu.Unlock()
		r.report(replay{r.check.ID, suite, cur, r.seed, r.tier, msg, ""})
	}
	r.finish()
}

func (r *runner) watchdog() {
	for {
		time.Sleep(500 * time.Millisecond)
		if m := rssMB(); m > 8000 {
			var busy []*worker
			for _, w := range r.workers {
				if w.busy {
					busy = append(busy, w)
				}
			}
			r.abort(fmt.Sprintf("memory use reached %d MB while running this case (one of those in flight)", m), busy)
		}
		for _, w := range r.workers {
			w.mu.Lock()
			busy, st, tid, scpu := w.busy, w.start, w.tid, w.startCPU
			w.mu.Unlock()
			if !busy || time.Since(st) < 20*time.Second {
				continue
			}
			cpu := threadCPU(tid) - scpu
			lim := 60.0
			if cpu > lim {
				r.abort(fmt.Sprintf("the case does not terminate: %.0f s of CPU time used", cpu), []*worker{w})
			}
			if time.Since(st) > 400*time.Second && cpu < 2 {
				r.abort("the case does not terminate: blocked", []*worker{w})
			}
		}
	}
}

func (r *runner) report(v replay) {
	r.mu.Lock()
	r.viol = append(r.viol, v)
	r.mu.Unlock()
}

func (r *runner) suiteN(s *Suite) int {
	// for developing: a part of the cases only
	if p, err := strconv.Atoi(os.Getenv("VERIF_PERCENT")); err == nil && s.Quick > 300 {
		return s.Quick*p/100 + 1
	}
	if r.tier == "thorough" {
		if s.Thor > 0 {
			return s.Thor
		}
		return s.Quick
	}
	return s.Quick
}

func newWorker() *worker {
	return &worker{events: map[string]int64{}, distinct: map[uint64]struct{}{}}
}

func (r *runner) runSuite(s *Suite) {
	n := r.suiteN(s)
	var next int64 = -1
	var stop int32
	nw := nWorkers
	if s.Serial {
		nw = 1
	}
	var wg sync.WaitGroup
	for k := 0; k < nw; k++ {
		w := r.workers[k]
		wg.Add(1)
		go func() {
			defer wg.Done()
			runtime.LockOSThread()
			defer runtime.UnlockOSThread()
			tid := syscall.Gettid()
			enough := int32(5)
			if os.Getenv("VERIF_PERCENT") != "" {
				enough = 1
				if len(r.viol) > 0 {
					return
				}
			}
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || atomic.LoadInt32(&stop) >= enough {
					return
				}
				w.mu.Lock()
				w.tid, w.suite, w.cur, w.busy, w.start = tid, s.Name, i, true, time.Now()
				w.startCPU = threadCPUFast(tid)
				w.mu.Unlock()
				statusWrite(w, s.Name, i)
				v := r.runCase(s, i, w)
				w.mu.Lock()
				w.busy = false
				w.mu.Unlock()
				if v != nil {
					atomic.AddInt32(&stop, 1)
					r.report(*v)
				}
			}
		}()
	}
	wg.Wait()
	r.perS[s.Name] = int64(n)
}

// threadCPUFast reads the CPU clock of the calling thread.
func threadCPUFast(tid int) float64 {
	var ru syscall.Rusage
	if err := syscall.Getrusage(1 /* RUSAGE_THREAD */, &ru); err != nil {
		return 0
	}
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

var statusFile *os.File

func statusWrite(w *worker, suite string, i int) {
	if statusFile == nil {
		return
	}
	var b [64]byte
	for k := range b {
		b[k] = ' '
	}
	copy(b[:], fmt.Sprintf("%s %d", suite, i))
	b[63] = '\n'
	statusFile.WriteAt(b[:], int64(w.slot())*64)
}

var slots sync.Map
var slotN int32

func (w *worker) slot() int {
	if v, ok := slots.Load(w); ok {
		return v.(int)
	}
	n := int(atomic.AddInt32(&slotN, 1)) - 1
	slots.Store(w, n)
	return n
}

var finishOnce sync.Once

// finish writes the evidence and exits.
func (r *runner) finish() {
	finishOnce.Do(func() {
		var evals, enum int64
		events := map[string]int64{}
		distinct := map[uint64]struct{}{}
		var samples []string
		r.mu.Lock()
		for _, w := range r.workers {
			evals += w.evals
			enum += w.enum
			if len(r.viol) == 0 {
				for k, v := range w.events {
					events[k] += v
				}
				for k := range w.distinct {
					distinct[k] = struct{}{}
				}
				samples = append(samples, w.samples...)
			}
		}
		viol := r.viol
		r.mu.Unlock()
		if len(samples) > 6 {
			samples = samples[:6]
		}
		if len(samples) == 0 {
			samples = []string{"(none recorded)"}
		}
		cov := map[string]interface{}{
			"evaluations":         evals,
			"distinct_nontrivial": int64(len(distinct)) + enum,
			"rule":                r.check.Rule,
			"samples":             samples,
			"observed_events":     events,
			"cases_per_suite":     r.perS,
		}
		if r.check.Exh {
			cov["exhaustive"] = true
		}
		knownMu.Lock()
		if len(knownSeen) > 0 {
			cov["known_findings_seen"] = knownSeen
		}
		knownMu.Unlock()
		writeEvidence(r.check, r.tier, r.seed, cov, time.Since(r.started).Seconds(), len(viol))
		for _, k := range known.Known {
			if k.Property == r.check.ID {
				if knownSeen[k.Sig] > 0 {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", k.Property, k.What)
				} else {
					fmt.Printf("note: known finding %s was not observed on this run\n", k.Sig)
				}
			}
		}
		if len(viol) == 0 && int64(len(distinct))+enum == 0 {
			die("%s observed nothing", r.check.ID)
		}
		if len(viol) > 0 {
			sort.SliceStable(viol, func(i, j int) bool { return len(viol[i].Details) < len(viol[j].Details) })
			for i, v := range viol {
				if i >= 5 {
					break
				}
				p := writeReplay(v)
				fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, p)
				fmt.Printf("  suite %s case %d: %s\n", v.Suite, v.Case, clip(v.Message))
				if v.Details != "" {
					fmt.Printf("  %s\n", clip(v.Details))
				}
			}
			os.Exit(1)
		}
		fmt.Printf("%s: held on %d executions, %d distinct non-trivial (%s, %.1f s)\n",
			r.check.ID, evals, int64(len(distinct))+enum, r.tier, time.Since(r.started).Seconds())
		os.Exit(0)
	})
	select {} // another goroutine is finishing
}

func writeEvidence(c *Check, tier string, seed int64, cov map[string]interface{}, wall float64, viol int) {
	ev := map[string]interface{}{
		"property":    c.ID,
		"tier":        tier,
		"seed":        seed,
		"level":       c.Level,
		"coverage":    cov,
		"assumptions": c.Assume,
		"wall_s":      wall,
		"violations":  viol,
	}
	if c.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, err := json.MarshalIndent(ev, "", "  ")
	if err != nil {
		die("evidence: %v", err)
	}
	dir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, c.ID+".json"), append(b, '\n'), 0o644); err != nil {
		die("evidence: %v", err)
	}
}

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func seedAndTier() (int64, string) {
	seed, err := strconv.ParseInt(env("VERIF_SEED", "1"), 10, 64)
	if err != nil {
		seed = int64(hash64(os.Getenv("VERIF_SEED")) >> 2)
	}
	tier := env("VERIF_TIER", "quick")
	if tier != "thorough" {
		tier = "quick"
	}
	return seed, tier
}

func execCheck(id string, only string, onlyCase int) {
	c := checks[id]
	if c == nil {
		die("unknown check %q", id)
	}
	loadKnown()
	seed, tier := seedAndTier()
	r := &runner{check: c, seed: seed, tier: tier, started: time.Now(), perS: map[string]int64{}}
	for i := 0; i < nWorkers; i++ {
		r.workers = append(r.workers, newWorker())
	}
	if p := os.Getenv("VERIF_STATUS"); p != "" {
		statusFile, _ = os.OpenFile(p, os.O_CREATE|os.O_WRONLY, 0o644)
	}
	go r.watchdog()
	for i := range c.Suites {
		s := &c.Suites[i]
		if only != "" && s.Name != only {
			continue
		}
		if onlyCase >= 0 {
			w := r.workers[0]
			if v := r.runCase(s, onlyCase, w); v != nil {
				r.report(*v)
			}
			continue
		}
		r.runSuite(s)
		if len(r.viol) > 0 {
			break
		}
	}
	r.finish()
}

// runParent runs the check in a child, so that even a fatal error of the Go
// runtime in the code under test ends in a verdict.
func runParent(id string) {
	seed, tier := seedAndTier()
	tmp, err := os.MkdirTemp("", "verif-"+id+"-")
	if err != nil {
		die("%v", err)
	}
	st := filepath.Join(tmp, "status")
	self, err := os.Executable()
	if err != nil {
		die("%v", err)
	}
	cmd := exec.Command(self, "exec", id)
	cmd.Env = append(os.Environ(), "VERIF_STATUS="+st, "TMPDIR="+tmp,
		"GORACE=halt_on_error=0 exitcode=66 log_path="+filepath.Join(tmp, "race"))
	var stderr strings.Builder
	cmd.Stdout = os.Stdout
	cmd.Stderr = &limited{w: io.MultiWriter(os.Stderr, &stderr), n: 1 << 20}
	err = cmd.Run()
	code := 0
	if err != nil {
		code = 3
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
	}
	races, _ := filepath.Glob(filepath.Join(tmp, "race.*"))
	if len(races) > 0 && code != 1 {
		b, _ := os.ReadFile(races[0])
		p := writeReplay(replay{id, "race", 0, seed, tier, "the race detector reported a data race", clip(string(b))})
		fmt.Printf("VIOLATION property=%s replay=%s\n  data race:\n%s\n", id, p, clip(string(b)))
		code = 1
	} else if code != 0 && code != 1 {
		s := stderr.String()
		if code != 3 && (strings.Contains(s, "fatal error:") || strings.Contains(s, "panic:") || strings.Contains(s, "goroutine ") || code < 0) {
			b, _ := os.ReadFile(st)
			p := writeReplay(replay{id, "crash", 0, seed, tier, "the process crashed; cases in flight: " + string(b), clip(s)})
			fmt.Printf("VIOLATION property=%s replay=%s\n  the process crashed (%v)\n  in flight:\n%s\n", id, p, err, string(b))
			code = 1
		}
	}
	removeTree(tmp)
	os.Exit(code)
}

// removeTree removes a scratch directory made by this harness.
func removeTree(dir string) {
	if filepath.IsAbs(dir) && strings.Contains(filepath.Base(dir), "verif-") {
		os.RemoveAll(dir)
	}
}

type limited struct {
	w io.Writer
	n int
}

func (l *limited) Write(b []byte) (int, error) {
	n := len(b)
	if l.n <= 0 {
		return n, nil
	}
	if len(b) > l.n {
		b = b[:l.n]
	}
	l.n -= len(b)
	l.w.Write(b)
	return n, nil
}

func main() {
	flag.Parse()
	if d := os.Getenv("VERIF_DIR"); d != "" {
		verifDir = d
	}
	if d := os.Getenv("VERIF_REPO"); d != "" {
		repoDir = d
	}
	a := flag.Args()
	if len(a) < 1 {
		die("usage: harness run|exec|case|replay|list ...")
	}
	switch a[0] {
	case "run":
		runParent(a[1])
	case "exec":
		execCheck(a[1], "", -1)
	case "case": // ID suite [case]
		n := -1
		if len(a) > 3 {
			n, _ = strconv.Atoi(a[3])
		}
		execCheck(a[1], a[2], n)
	case "replay":
		b, err := os.ReadFile(a[1])
		if err != nil {
			die("%v", err)
		}
		var rp replay
		if err := json.Unmarshal(b, &rp); err != nil {
			die("%v", err)
		}
		os.Setenv("VERIF_SEED", strconv.FormatInt(rp.Seed, 10))
		os.Setenv("VERIF_TIER", rp.Tier)
		execCheck(rp.Property, rp.Suite, rp.Case)
	case "list":
		var l []string
		for id := range checks {
			l = append(l, id)
		}
		sort.Strings(l)
		fmt.Println(strings.Join(l, "\n"))
	default:
		if f := extraCommands[a[0]]; f != nil {
			f(a[1:])
			return
		}
		die("unknown command %q", a[0])
	}
}

var extraCommands = map[string]func(args []string){}
