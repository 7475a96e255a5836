// simctl drives the simulation checks: it builds the instrumented harness from a
// working tree, runs seeded batches in worker processes, confirms and minimises
// violations, and writes the evidence file.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		usage()
	}
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	case "setup":
		os.Exit(cmdSetup(os.Args[2:]))
	}
	usage()
}

func usage() {
	fmt.Fprintln(os.Stderr, "usage: simctl check [flags] PROPERTY | replay [flags] FILE | setup")
	os.Exit(2)
}

// infra reports trouble with the check itself: neither pass nor violation.
func infra(format string, args ...any) int {
	fmt.Fprintf(os.Stderr, "CHECK-ERROR: "+format+"\n", args...)
	return 2
}

// ---- environment and building ----

func goEnv() []string {
	def := map[string]string{
		"GOTOOLCHAIN": "local", "GOPROXY": "off", "GOFLAGS": "-mod=mod", "GOWORK": "off",
		"GOPATH": "/root/go", "GOMODCACHE": "/root/go/pkg/mod", "GOCACHE": "/root/.cache/go-build", "HOME": "/root",
	}
	env := os.Environ()
	for k, v := range def {
		if k == "GOFLAGS" || os.Getenv(k) == "" {
			env = append(env, k+"="+v)
		}
	}
	return env
}

type builder struct {
	verif, repo, dir string
	level            int
	note             string
	gen              map[string]int
}

func (b *builder) run(dir string, env []string, name string, args ...string) ([]byte, error) {
	cmd := exec.Command(name, args...)
	cmd.Dir = dir
	cmd.Env = append(goEnv(), env...)
	return cmd.CombinedOutput()
}

func (b *builder) simgen() error {
	bin := filepath.Join(b.dir, "simgen")
	out, err := b.run(filepath.Join(b.verif, "tools"), nil, "go", "build", "-o", bin, "./simgen")
	if err != nil {
		return fmt.Errorf("building simgen: %v\n%s", err, out)
	}
	return nil
}

// build instruments and compiles the harness; it lowers the level of
// instrumentation if the instrumented sources do not compile.
func (b *builder) build(race bool) (string, error) {
	var last string
	for ; b.level >= 0; b.level-- {
		kind := "plain"
		if race {
			kind = "race"
		}
		gen := filepath.Join(b.dir, fmt.Sprintf("gen-%s-%d", kind, b.level))
		args := []string{"-repo", b.repo, "-sim", filepath.Join(b.verif, "sim"), "-out", gen, "-level", strconv.Itoa(b.level)}
		if race {
			args = append(args, "-race")
		}
		out, err := b.run(b.repo, nil, filepath.Join(b.dir, "simgen"), args...)
		if err != nil {
			last = fmt.Sprintf("simgen level %d: %v\n%s", b.level, err, out)
			continue
		}
		bin := filepath.Join(b.dir, "harness-"+kind)
		gargs := []string{"build", "-overlay", filepath.Join(gen, "overlay.json"), "-o", bin}
		env := []string{"CGO_ENABLED=0"}
		if race {
			gargs = append(gargs, "-race")
			env = []string{"CGO_ENABLED=1"}
		}
		out, err = b.run(b.repo, env, "go", append(gargs, "./zz_verif/harness")...)
		if err != nil {
			last = fmt.Sprintf("level %d: %v\n%s", b.level, err, out)
			if b.note == "" {
				b.note = fmt.Sprintf("instrumentation level %d does not compile on this tree", b.level)
			}
			continue
		}
		if d, err := os.ReadFile(filepath.Join(gen, "gen.json")); err == nil {
			b.gen = map[string]int{}
			_ = json.Unmarshal(d, &b.gen)
		}
		return bin, nil
	}
	return "", errors.New(last)
}

func newBuilder(verif, repo string) (*builder, error) {
	dir, err := os.MkdirTemp("", "simctl")
	if err != nil {
		return nil, err
	}
	c := make(chan os.Signal, 1)
	signal.Notify(c, os.Interrupt, syscall.SIGTERM)
	go func() {
		<-c
		killAll()
		_ = os.RemoveAll(dir)
		os.Exit(2)
	}()
	b := &builder{verif: verif, repo: repo, dir: dir, level: 3}
	return b, b.simgen()
}

func (b *builder) clean() { _ = os.RemoveAll(b.dir) }

// ---- worker processes ----

var (
	procMu sync.Mutex
	procs  = map[*os.Process]bool{}
)

func killAll() {
	procMu.Lock()
	defer procMu.Unlock()
	for p := range procs {
		_ = p.Kill()
	}
}

type procResult struct {
	code     int
	out, err []byte
	timedOut bool
}

func startProc(ctx context.Context, bin string, env []string, args ...string) procResult {
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Env = append(os.Environ(), append([]string{"GORACE=history_size=4 halt_on_error=0", "GODEBUG="}, env...)...)
	cmd.WaitDelay = 5 * time.Second
	var ob, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &ob, &capWriter{b: &eb}
	r := procResult{}
	if err := cmd.Start(); err != nil {
		r.code = -1
		r.err = []byte(err.Error())
		return r
	}
	procMu.Lock()
	procs[cmd.Process] = true
	procMu.Unlock()
	err := cmd.Wait()
	procMu.Lock()
	delete(procs, cmd.Process)
	procMu.Unlock()
	if err != nil {
		r.code = 1
		var ee *exec.ExitError
		if errors.As(err, &ee) {
			r.code = ee.ExitCode()
		}
	}
	r.out, r.err = ob.Bytes(), eb.Bytes()
	r.timedOut = ctx.Err() != nil
	return r
}

type capWriter struct{ b *bytes.Buffer }

func (c *capWriter) Write(p []byte) (int, error) {
	if c.b.Len() < 1<<20 {
		c.b.Write(p)
	}
	return len(p), nil
}

type violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

type summary struct {
	Prop       string          `json:"prop"`
	Runs       int             `json:"runs"`
	Nontrivial int             `json:"nontrivial"`
	Steps      int64           `json:"steps"`
	Preempts   int64           `json:"preempts"`
	Evals      int64           `json:"evals"`
	SimNs      int64           `json:"sim_ns"`
	Fired      map[string]int  `json:"fired"`
	Keys       []uint64        `json:"keys"`
	Cov        []uint64        `json:"cov"`
	Sites      []int           `json:"sites"`
	Digest     uint64          `json:"digest"`
	Next       int             `json:"next"`
	RealClock  int64           `json:"real_clock_reads"`
	Sample     json.RawMessage `json:"sample"`
	V          *violation      `json:"violation"`
	Plan       json.RawMessage `json:"plan"`
	Harness    string          `json:"harness"`
}

type replayFile struct {
	Property  string          `json:"property"`
	Violation *violation      `json:"violation"`
	Seed      uint64          `json:"seed"`
	Index     int             `json:"index"`
	Race      bool            `json:"race"`
	Note      string          `json:"note,omitempty"`
	Report    string          `json:"report,omitempty"`
	Plan      json.RawMessage `json:"plan"`
}

// classify maps the end of a process to a violation; second result false means
// that the process ended in a way that says nothing about the code under test.
func classify(r procResult) (*violation, bool) {
	var s struct {
		V *violation `json:"violation"`
	}
	_ = json.Unmarshal(bytes.TrimSpace(r.out), &s)
	switch {
	case r.timedOut:
		return &violation{"hang", "the process made no progress"}, true
	case r.code == 0:
		return nil, true
	case (r.code == 3 || r.code == 66) && s.V != nil:
		return s.V, true
	case r.code == 66:
		return &violation{"data-race", "data race"}, true
	case r.code == 4:
		return nil, false
	}
	for _, l := range strings.Split(string(r.err), "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime: goroutine stack exceeds") {
			return &violation{"crash", l}, true
		}
	}
	return nil, false
}

func firstRace(b []byte) string {
	s := string(b)
	i := strings.Index(s, "WARNING: DATA RACE")
	if i < 0 {
		return ""
	}
	s = s[i:]
	if j := strings.Index(s, "=================="); j > 0 {
		s = s[:j]
	}
	if len(s) > 6000 {
		s = s[:6000]
	}
	return s
}

// ---- check ----

type job struct {
	race     bool
	from, to int
}

type found struct {
	job   job
	index int
	v     *violation
	plan  json.RawMessage
	res   procResult
}

type aggregate struct {
	sync.Mutex
	runs, nontrivial, raceRuns, raceNontrivial int
	steps, preempts, evals, simNs, realClock   int64
	fired                                      map[string]int
	keys                                       map[uint64]bool
	cov                                        map[uint64]bool
	sites                                      map[int]bool
	samples                                    []json.RawMessage
	digests                                    map[string]uint64
}

func (a *aggregate) add(j job, s *summary) {
	a.Lock()
	defer a.Unlock()
	a.runs += s.Runs
	a.nontrivial += s.Nontrivial
	if j.race {
		a.raceRuns += s.Runs
		a.raceNontrivial += s.Nontrivial
	}
	a.steps += s.Steps
	a.preempts += s.Preempts
	a.evals += s.Evals
	a.simNs += s.SimNs
	a.realClock += s.RealClock
	for k, n := range s.Fired {
		a.fired[k] += n
	}
	for _, k := range s.Keys {
		a.keys[k] = true
	}
	for _, k := range s.Cov {
		a.cov[k] = true
	}
	for _, k := range s.Sites {
		a.sites[k] = true
	}
	if s.Sample != nil && len(a.samples) < 3 {
		a.samples = append(a.samples, s.Sample)
	}
}

type checker struct {
	prop, tier, verif, repo string
	seed                    uint64
	cfg                     propCfg
	b                       *builder
	plain, race             string
	agg                     aggregate
	start                   time.Time
	wall                    time.Duration
	stop                    chan struct{}
	stopOnce                sync.Once
	mu                      sync.Mutex
	hit                     *found
	trouble                 string
	known                   []knownFinding
	knownSeen               map[string]int
}

type knownFinding struct{ line, prop, class, contains string }

// readFindings parses known_findings.txt: lines "fixed: ..." are history, lines
// "known: property=ID class=CLASS contains=TEXT" describe recorded defects.
func readFindings(file string) []knownFinding {
	d, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var r []knownFinding
	for _, l := range strings.Split(string(d), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		k := knownFinding{line: strings.TrimPrefix(l, "known: ")}
		rest := k.line
		if i := strings.Index(rest, " contains="); i >= 0 {
			k.contains = rest[i+len(" contains="):]
			rest = rest[:i]
		}
		for _, f := range strings.Fields(rest) {
			if v, ok := strings.CutPrefix(f, "property="); ok {
				k.prop = v
			}
			if v, ok := strings.CutPrefix(f, "class="); ok {
				k.class = v
			}
		}
		if k.prop != "" && k.class != "" && k.contains != "" {
			r = append(r, k)
		}
	}
	return r
}

func (c *checker) isKnown(v *violation) *knownFinding {
	for i := range c.known {
		k := &c.known[i]
		if k.prop == c.prop && k.class == v.Class && strings.Contains(v.Msg, k.contains) {
			return k
		}
	}
	return nil
}

func (c *checker) halt() { c.stopOnce.Do(func() { close(c.stop) }) }

func (c *checker) stopped() bool {
	select {
	case <-c.stop:
		return true
	default:
		return false
	}
}

func (c *checker) report(f *found) {
	c.mu.Lock()
	if c.hit == nil {
		c.hit = f
	}
	c.mu.Unlock()
	c.halt()
}

func (c *checker) fail(format string, args ...any) {
	c.mu.Lock()
	if c.trouble == "" {
		c.trouble = fmt.Sprintf(format, args...)
	}
	c.mu.Unlock()
	c.halt()
}

func (c *checker) bin(race bool) string {
	if race {
		return c.race
	}
	return c.plain
}

func (c *checker) runArgs(j job, status string) []string {
	left := c.wall - time.Since(c.start)
	if left < time.Second {
		left = time.Second
	}
	return []string{"run", "-prop", c.prop, "-tier", c.tier, "-seed", fmt.Sprint(c.seed), "-from", fmt.Sprint(j.from), "-to", fmt.Sprint(j.to),
		"-status", status, "-wall", left.String(), "-mem", fmt.Sprint(c.cfg.mem)}
}

// doJob runs one batch; it returns false when the check must end.
func (c *checker) doJob(worker int, j job) {
	for j.from < j.to && !c.stopped() {
		status := filepath.Join(c.b.dir, fmt.Sprintf("status-%d", worker))
		_ = os.Remove(status)
		ctx, cancel := context.WithCancel(context.Background())
		// kill a worker whose index does not move
		stall := 60 * time.Second
		if j.race {
			stall = 120 * time.Second
		}
		stalled := false
		done := make(chan struct{})
		go func() {
			last, since := "", time.Now()
			for {
				select {
				case <-done:
					return
				case <-c.stop:
					cancel()
					return
				case <-time.After(200 * time.Millisecond):
				}
				d, _ := os.ReadFile(status)
				if string(d) != last {
					last, since = string(d), time.Now()
				}
				if time.Since(since) > stall {
					stalled = true
					cancel()
					return
				}
			}
		}()
		r := startProc(ctx, c.bin(j.race), []string{"GOMAXPROCS=2"}, c.runArgs(j, status)...)
		close(done)
		cancel()
		if c.stopped() && !stalled && r.code != 3 && r.code != 66 {
			return
		}
		r.timedOut = stalled
		var s summary
		haveSum := json.Unmarshal(bytes.TrimSpace(r.out), &s) == nil && s.Prop == c.prop
		if haveSum {
			c.agg.add(j, &s)
		}
		v, ok := classify(r)
		if !ok {
			msg := s.Harness
			if msg == "" {
				msg = fmt.Sprintf("exit code %d: %s", r.code, tail(r.err, 1500))
			}
			c.fail("worker %s [%d,%d) failed: %s", c.prop, j.from, j.to, msg)
			return
		}
		if v == nil {
			if haveSum && s.Next < j.to {
				return // out of time
			}
			return
		}
		f := &found{job: j, v: v, res: r, index: s.Next - 1, plan: s.Plan}
		if !haveSum || s.V == nil && v.Class != "data-race" {
			d, err := os.ReadFile(status)
			n, err2 := strconv.Atoi(strings.TrimSpace(string(d)))
			if err != nil || err2 != nil {
				c.fail("worker %s [%d,%d) ended with %s before its first run: %s", c.prop, j.from, j.to, v.Msg, tail(r.err, 1500))
				return
			}
			f.index = n
			f.plan = nil
		}
		if k := c.isKnown(v); k != nil {
			c.mu.Lock()
			c.knownSeen[k.line]++
			c.mu.Unlock()
			j.from = f.index + 1
			continue
		}
		c.report(f)
		return
	}
}

func tail(b []byte, n int) string {
	s := strings.TrimSpace(string(b))
	if len(s) > n {
		s = s[:n]
	}
	return s
}

func cmdCheck(args []string) int {
	fl := flag.NewFlagSet("check", flag.ExitOnError)
	tier := fl.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	seed := fl.Uint64("seed", 0, "base seed (default $VERIF_SEED or 1)")
	repo := fl.String("repo", envOr("SIM_REPO", "/repo"), "working tree")
	verif := fl.String("verif", envOr("SIM_VERIF", "/verif"), "verification directory")
	jobs := fl.Int("j", min(runtime.NumCPU(), 8), "worker processes")
	scale := fl.Float64("scale", 1, "multiplies the number of runs")
	noEvidence := fl.Bool("no-evidence", false, "")
	wall := fl.Duration("wall", 0, "overrides the time limit of the search")
	_ = fl.Parse(args)
	if fl.NArg() != 1 {
		usage()
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	if *seed == 0 {
		*seed = 1
		if n, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
			*seed = n
		}
	}
	cfg, ok := props[fl.Arg(0)]
	if !ok {
		return infra("unknown property %s", fl.Arg(0))
	}
	c := &checker{prop: fl.Arg(0), tier: *tier, verif: *verif, repo: *repo, seed: *seed, cfg: cfg, start: time.Now(), stop: make(chan struct{})}
	c.known = readFindings(filepath.Join(*verif, "known_findings.txt"))
	c.knownSeen = map[string]int{}
	c.agg.fired, c.agg.keys, c.agg.cov, c.agg.sites = map[string]int{}, map[uint64]bool{}, map[uint64]bool{}, map[int]bool{}
	plainRuns, raceRuns := cfg.plain, cfg.race
	c.wall = 100 * time.Second
	if *tier == "thorough" {
		plainRuns, raceRuns = plainRuns*20, raceRuns*20
		c.wall = 720 * time.Second
	}
	if *wall > 0 {
		c.wall = *wall
	}
	plainRuns, raceRuns = int(float64(plainRuns)**scale), int(float64(raceRuns)**scale)

	b, err := newBuilder(*verif, *repo)
	if b != nil {
		defer b.clean()
	}
	if err != nil {
		return infra("%v", err)
	}
	c.b = b
	if c.plain, err = b.build(false); err != nil {
		return infra("building the harness: %v", err)
	}
	if raceRuns > 0 {
		if c.race, err = b.build(true); err != nil {
			return infra("building the harness with the race detector: %v", err)
		}
	}
	if b.level < 1 && cfg.needsClock {
		return infra("the tree cannot be instrumented: %s", b.note)
	}
	buildTime := time.Since(c.start)
	c.start = time.Now()

	det := c.determinism()

	// jobs: race batches and plain batches interleaved
	var pl, rc []job
	for i := 0; i < plainRuns; i += cfg.batch() {
		pl = append(pl, job{false, i, min(i+cfg.batch(), plainRuns)})
	}
	for i := 0; i < raceRuns; i += cfg.raceBatch() {
		rc = append(rc, job{true, 1_000_000_000 + i, 1_000_000_000 + min(i+cfg.raceBatch(), raceRuns)})
	}
	all := interleave(pl, rc)
	ch := make(chan job)
	var wg sync.WaitGroup
	for w := 0; w < *jobs; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				c.doJob(w, j)
			}
		}()
	}
	timeUp := false
	for _, j := range all {
		if time.Since(c.start) > c.wall {
			timeUp = true
			break
		}
		select {
		case ch <- j:
		case <-c.stop:
		}
		if c.stopped() {
			break
		}
	}
	close(ch)
	wg.Wait()
	searchTime := time.Since(c.start)

	for _, k := range c.known {
		if k.prop == c.prop {
			fmt.Printf("KNOWN-FINDING: %s\n", k.line)
		}
	}
	if c.hit != nil {
		code := c.handle(c.hit)
		if code == 1 && !*noEvidence {
			c.evidence(buildTime, searchTime, det, timeUp, 1)
		}
		return code
	}
	if c.trouble != "" {
		return infra("%s", c.trouble)
	}
	if !*noEvidence {
		if err := c.evidence(buildTime, searchTime, det, timeUp, 0); err != nil {
			return infra("%v", err)
		}
	}
	fmt.Printf("OK property=%s tier=%s seed=%d runs=%d (race %d) distinct=%d interleaving-pairs=%d faults=%d build=%.1fs search=%.1fs determinism=%s\n",
		c.prop, c.tier, c.seed, c.agg.runs, c.agg.raceRuns, len(c.agg.keys), len(c.agg.cov), total(c.agg.fired), buildTime.Seconds(), searchTime.Seconds(), det)
	return 0
}

func total(m map[string]int) int {
	n := 0
	for _, v := range m {
		n += v
	}
	return n
}

func interleave(a, b []job) []job {
	var r []job
	i, k := 0, 0
	for i < len(a) || k < len(b) {
		if k >= len(b) || i < len(a) && i*len(b) <= k*len(a) {
			r = append(r, a[i])
			i++
		} else {
			r = append(r, b[k])
			k++
		}
	}
	return r
}

// determinism runs the same indexes in two processes with different parallelism
// and compares everything observed.
func (c *checker) determinism() string {
	const n = 25
	var d [2]uint64
	var runs [2]int
	for i, p := range []string{"1", "8"} {
		ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
		r := startProc(ctx, c.plain, []string{"GOMAXPROCS=" + p}, c.runArgs(job{false, 0, n}, filepath.Join(c.b.dir, "status-det"))...)
		cancel()
		var s summary
		if json.Unmarshal(bytes.TrimSpace(r.out), &s) != nil {
			return "not decided"
		}
		d[i], runs[i] = s.Digest, s.Runs
	}
	if d[0] == d[1] && runs[0] == runs[1] {
		return fmt.Sprintf("equal digests (%d runs twice)", runs[0])
	}
	return "DIFFERENT digests"
}

// handle confirms, minimises and reports a violation.
func (c *checker) handle(f *found) int {
	bin := c.bin(f.job.race)
	if f.plan == nil {
		ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
		r := startProc(ctx, bin, nil, "plan", c.prop, fmt.Sprint(c.seed), fmt.Sprint(f.index), c.tier)
		cancel()
		if r.code != 0 {
			return infra("no plan for run %d: %s", f.index, tail(r.err, 500))
		}
		f.plan = bytes.TrimSpace(r.out)
	}
	rf := replayFile{Property: c.prop, Violation: f.v, Seed: c.seed, Index: f.index, Race: f.job.race, Plan: f.plan, Report: firstRace(f.res.err)}
	if f.v.Class == "crash" {
		rf.Report = tail(f.res.err, 3000)
	}
	tmp := filepath.Join(c.b.dir, "found.json")
	write := func(file string, rf replayFile) error {
		d, err := json.MarshalIndent(rf, "", " ")
		if err != nil {
			return err
		}
		return os.WriteFile(file, d, 0o644)
	}
	try := func(plan json.RawMessage) (*violation, uint64) {
		q := rf
		q.Plan = plan
		if write(tmp, q) != nil {
			return nil, 0
		}
		return c.replay(bin, tmp)
	}
	variants := []func(m map[string]any){
		func(m map[string]any) {},
		func(m map[string]any) { // the seed decides the schedule again
			if s, ok := m["sched"].(map[string]any); ok {
				delete(s, "replay")
			}
		},
		func(m map[string]any) { // with the runs before it in the same process
			if s, ok := m["sched"].(map[string]any); ok {
				delete(s, "replay")
			}
			var pre []int
			for i := f.job.from; i < f.index; i++ {
				pre = append(pre, i)
			}
			m["prelude"] = pre
		},
	}
	confirmed := false
	for _, edit := range variants {
		plan := editPlan(f.plan, edit)
		v, _ := try(plan)
		if v != nil && v.Class == f.v.Class {
			rf.Plan, rf.Violation = plan, v
			confirmed = true
			break
		}
	}
	if !confirmed {
		if f.v.Class == "hang" || f.v.Class == "crash" {
			return infra("run %d of %s: %s (%s) could not be reproduced: %s", f.index, c.prop, f.v.Class, f.v.Msg, tail(f.res.err, 1500))
		}
		rf.Note = "seen once; the replay did not show it again"
	}
	dir := filepath.Join(c.verif, "replays")
	_ = os.MkdirAll(dir, 0o755)
	final := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", c.prop, c.seed, f.index))
	if err := write(final, rf); err != nil {
		return infra("%v", err)
	}
	if confirmed && rf.Violation.Class != "hang" {
		ctx, cancel := context.WithTimeout(context.Background(), 90*time.Second)
		min := filepath.Join(c.b.dir, "min.json")
		startProc(ctx, bin, nil, "minimize", "-class", rf.Violation.Class, "-budget", "30s", "-mem", fmt.Sprint(c.cfg.mem), "-out", min, final)
		cancel()
		if d, err := os.ReadFile(min); err == nil {
			var m replayFile
			if json.Unmarshal(d, &m) == nil {
				v1, d1 := try(m.Plan)
				v2, d2 := try(m.Plan)
				if v1 != nil && v2 != nil && v1.Class == rf.Violation.Class && v2.Class == v1.Class && d1 == d2 {
					rf.Plan, rf.Violation = m.Plan, v1
					rf.Note = "minimised; replayed twice with equal digests"
				}
			}
		}
		_ = write(final, rf)
	}
	fmt.Printf("seed=%d run=%d race=%v class=%s\n%s\n", c.seed, f.index, f.job.race, rf.Violation.Class, rf.Violation.Msg)
	if rf.Report != "" {
		fmt.Println(rf.Report)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, final)
	return 1
}

func editPlan(plan json.RawMessage, edit func(map[string]any)) json.RawMessage {
	dec := json.NewDecoder(bytes.NewReader(plan))
	dec.UseNumber()
	m := map[string]any{}
	if dec.Decode(&m) != nil {
		return plan
	}
	edit(m)
	d, err := json.Marshal(m)
	if err != nil {
		return plan
	}
	return d
}

func (c *checker) replay(bin, file string) (*violation, uint64) {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	r := startProc(ctx, bin, nil, "replay", "-mem", fmt.Sprint(c.cfg.mem), file)
	v, _ := classify(r)
	var s struct {
		Digest uint64 `json:"digest"`
	}
	_ = json.Unmarshal(bytes.TrimSpace(r.out), &s)
	return v, s.Digest
}

func cmdReplay(args []string) int {
	fl := flag.NewFlagSet("replay", flag.ExitOnError)
	repo := fl.String("repo", envOr("SIM_REPO", "/repo"), "working tree")
	verif := fl.String("verif", envOr("SIM_VERIF", "/verif"), "verification directory")
	_ = fl.Parse(args)
	if fl.NArg() != 1 {
		usage()
	}
	d, err := os.ReadFile(fl.Arg(0))
	if err != nil {
		return infra("%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(d, &rf); err != nil {
		return infra("%v", err)
	}
	b, err := newBuilder(*verif, *repo)
	if b != nil {
		defer b.clean()
	}
	if err != nil {
		return infra("%v", err)
	}
	bin, err := b.build(rf.Race)
	if err != nil {
		return infra("%v", err)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	r := startProc(ctx, bin, nil, "replay", "-mem", fmt.Sprint(props[rf.Property].mem), fl.Arg(0))
	v, ok := classify(r)
	if !ok {
		return infra("replay failed: %s %s", tail(r.out, 1000), tail(r.err, 1000))
	}
	if v == nil {
		fmt.Println("the property holds on this replay")
		return 0
	}
	fmt.Printf("%s\n%s\n%s\nVIOLATION property=%s replay=%s\n", v.Class, v.Msg, firstRace(r.err), rf.Property, fl.Arg(0))
	return 1
}

func cmdSetup(args []string) int {
	fl := flag.NewFlagSet("setup", flag.ExitOnError)
	repo := fl.String("repo", envOr("SIM_REPO", "/repo"), "working tree")
	verif := fl.String("verif", envOr("SIM_VERIF", "/verif"), "verification directory")
	_ = fl.Parse(args)
	b, err := newBuilder(*verif, *repo)
	if b != nil {
		defer b.clean()
	}
	if err != nil {
		return infra("%v", err)
	}
	for _, race := range []bool{false, true} {
		if _, err := b.build(race); err != nil {
			return infra("%v", err)
		}
	}
	fmt.Printf("setup done: instrumentation level %d, %v\n", b.level, b.gen)
	return 0
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// ---- evidence ----

func (c *checker) evidence(build, search time.Duration, det string, timeUp bool, violations int) error {
	a := &c.agg
	perHour := 0
	if search > 0 {
		perHour = int(float64(a.runs) / search.Hours())
	}
	var samples []any
	for _, s := range a.samples {
		samples = append(samples, s)
	}
	if len(samples) == 0 {
		samples = append(samples, "no sample small enough")
	}
	kinds := make([]string, 0, len(a.fired))
	for k := range a.fired {
		kinds = append(kinds, k)
	}
	sort.Strings(kinds)
	faults := map[string]int{}
	for _, k := range kinds {
		faults[k] = a.fired[k]
	}
	assume := []string{
		"goroutines are switched only at the instrumented statements, synchronisation operations and simulated I/O of the code under test; memory is sequentially consistent within one schedule (weak-memory effects are left to the race detector)",
		"simulated file systems, readers, writers, catalogs and user callbacks stand for the environment; the kernel and disks themselves are not exercised",
		"the reference model in /verif/sim/harness states the documented behaviour correctly",
	}
	ev := map[string]any{
		"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "exploration",
		"wall_s": round1(build.Seconds() + search.Seconds()), "violations": violations, "assumptions": assume,
		"coverage": map[string]any{
			"evaluations":                 a.runs,
			"distinct_nontrivial":         len(a.keys),
			"rule":                        c.cfg.rule,
			"samples":                     samples,
			"runs_per_hour":               perHour,
			"seeds":                       fmt.Sprintf("base seed %d; one derived seed per run, every run is one seed", c.seed),
			"seeds_per_hour":              perHour,
			"nontrivial_runs":             a.nontrivial,
			"runs_under_race_detector":    a.raceRuns,
			"oracle_comparisons":          a.evals,
			"scheduler_steps":             a.steps,
			"preemptions":                 a.preempts,
			"distinct_interleaving_pairs": len(a.cov),
			"interleaving_measure":        "distinct (last statement before a switch, first statement after it) pairs of instrumented statements",
			"simulated_time_s":            float64(a.simNs) / 1e9,
			"simulated_time_note":         "clock time for checks with a simulated clock (sum over runs of the span covered); otherwise logical time in scheduler_steps",
			"faults_injected":             faults,
			"faults_injected_total":       total(faults),
			"instrumented_sites":          c.b.gen["sites"],
			"instrumented_sites_reached":  len(a.sites),
			"instrumentation":             c.b.gen,
			"instrumentation_level":       c.b.level,
			"instrumentation_note":        c.b.note,
			"real_clock_reads":            a.realClock,
			"determinism_self_check":      det,
			"search_s":                    round1(search.Seconds()),
			"build_s":                     round1(build.Seconds()),
			"stopped_by_time_limit":       timeUp,
			"components_real":             c.cfg.real,
			"components_stubbed":          c.cfg.stub,
			"known_findings_met":          c.knownSeen,
		},
	}
	d, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(c.verif, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, c.prop+".json"), append(d, '\n'), 0o644)
}

func round1(f float64) float64 { return float64(int(f*10)) / 10 }
