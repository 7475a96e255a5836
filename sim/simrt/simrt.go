// Package simrt is the simulator's runtime: a cooperative, seeded scheduler for
// tasks, a simulated clock, seeded map iteration and a step counter. The
// instrumented copy of the code under test calls into it.
//
// All scheduler state is touched only by the task that holds the token, and only
// from functions marked go:norace; token hand-overs are hidden from the race
// detector, so that it judges the happens-before relation of the code under test
// and not the one created by the simulator's serialisation.
package simrt

import "unsafe"

const (
	MaxTasks    = 200 // tasks of the plan and goroutines they start
	MaxRoots    = 24  // tasks of the plan
	maxSwitches = 1 << 14
)

// Rand is a small deterministic generator (splitmix64).
type Rand struct{ S uint64 }

func NewRand(seed uint64) *Rand { return &Rand{S: seed*0x9E3779B97F4A7C15 + 0x1234567} }

//go:norace
func (r *Rand) Next() uint64 {
	r.S += 0x9E3779B97F4A7C15
	z := r.S
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

//go:norace
func (r *Rand) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Next() % uint64(n))
}

//go:norace
func (r *Rand) Chance(num, den int) bool { return r.Intn(den) < num }

// Switch is one recorded scheduling decision: in operation Op of task Task, at
// the Yield-th yield point of that operation, control goes to task To.
// Op == -1 means the task ended. Task == -1 is the initial choice.
type Switch struct {
	Task  int `json:"t"`
	Op    int `json:"o"`
	Yield int `json:"y"`
	To    int `json:"to"`
}

// Mode of choosing preemptions.
const (
	ModeRandom  = 0 // every yield point with probability 1/Rate
	ModeBounded = 1 // a few preemptions at seeded step numbers
	ModeOps     = 2 // only between operations
	ModeSites   = 3 // always at a seeded subset of sites
	ModeReplay  = 9
)

// Config of one scheduled run.
type Config struct {
	Seed     uint64
	Mode     int
	Rate     int
	Replay   []Switch
	MaxSteps int64
}

// Abort is the panic value that unwinds a task.
type Abort struct{ Reason string }

func (a Abort) Error() string { return "simulation abort: " + a.Reason }

type taskState struct {
	wake    chan struct{}
	op      int
	yields  int
	done    bool
	waiting bool     // blocked with nothing to do until another task progressed
	rep     []Switch // replay decisions of this task, in order
	cur     int      // next unused entry of rep
	repEnd  int      // replay decision at the end of the task, or -1
	owner   int      // task of the plan on whose behalf it runs
	kids    int      // goroutines started so far on behalf of this task
	inside  int      // depth of harness code, see Enter
	fam     *int     // clock of the family for the race detector, nil without kids
}

type sched struct {
	on       bool
	cur      int
	n        int
	tasks    [MaxTasks + 1]taskState // index n is the coordinator
	rng      Rand
	mode     int
	rate     int
	steps    int64
	maxSteps int64
	nsw      int
	sw       [maxSwitches]Switch
	replay   []Switch
	nPoints  int
	points   [64]int64
	finished chan struct{}
	dead     string
	hash     uint64
	preempts int64
	roots    int  // tasks below roots belong to the plan, the others were started by the code
	adhoc    bool // begun by Go outside a scheduled run; task 0 is the calling goroutine
	leaked   bool
	draining bool
}

var s sched

// step counter for code running outside the scheduler
var (
	soloSteps int64
	soloMax   int64
)

// ---- coverage of interleavings ----

const covBits = 20

var (
	cov       [1 << covBits / 64]uint64
	covCount  int64
	siteCount [1 << 16]uint32
	lastSite  int32
	lastTask  int32
)

//go:norace
func covAdd(h uint64) {
	h ^= h >> 29
	h *= 0xBF58476D1CE4E5B9
	h ^= h >> 32
	i := h & (1<<covBits - 1)
	if cov[i>>6]&(1<<(i&63)) == 0 {
		cov[i>>6] |= 1 << (i & 63)
		covCount++
	}
}

// CovBitmap returns a copy of the preemption-pair bitmap.
func CovBitmap() []uint64 { return append([]uint64(nil), cov[:]...) }

// SitesHit returns the number of distinct instrumented sites executed.
func SitesHit() int {
	n := 0
	for _, c := range siteCount {
		if c != 0 {
			n++
		}
	}
	return n
}

// SiteBits returns the sites executed.
func SiteBits() []int {
	var r []int
	for i, c := range siteCount {
		if c != 0 {
			r = append(r, i)
		}
	}
	return r
}

// ---- yield points ----

// Y is a yield point, inserted before every statement of the code under test.
//
//go:norace
func Y(site int) {
	siteCount[site&0xffff] |= 1
	if !s.on {
		soloSteps++
		if soloMax > 0 && soloSteps > soloMax {
			soloMax = 0
			panic(Abort{"step budget exceeded"})
		}
		return
	}
	yield(site, false)
}

// OpBoundary is called by the harness before each operation of a task.
//
//go:norace
func OpBoundary(op int) {
	if !s.on {
		return
	}
	t := &s.tasks[s.cur]
	t.op = op
	t.yields = 0
	yield(0, true)
}

//go:norace
func yield(site int, boundary bool) {
	me := s.cur
	t := &s.tasks[me]
	if site > 0 && lastTask != int32(me) {
		// first site executed after a switch: an interleaving pair
		covAdd(uint64(lastSite)<<20 ^ uint64(site))
		lastTask = int32(me)
	}
	if site > 0 {
		lastSite = int32(site)
	}
	t.yields++
	s.steps++
	if s.dead != "" {
		panic(Abort{s.dead})
	}
	if s.steps > s.maxSteps {
		s.dead = "step budget exceeded"
		panic(Abort{s.dead})
	}
	sw := false
	to := -1
	switch s.mode {
	case ModeReplay:
		to = t.replayed()
		sw = to >= 0 && to < s.n && !s.tasks[to].done && !s.tasks[to].waiting && to != me
	case ModeRandom:
		sw = s.rng.Intn(s.rate) == 0
	case ModeBounded:
		for i := 0; i < s.nPoints; i++ {
			if s.points[i] == s.steps {
				sw = true
			}
		}
	case ModeOps:
		sw = boundary && s.rng.Intn(2) == 0
	case ModeSites:
		if boundary {
			sw = s.rng.Intn(4) == 0
		} else {
			h := (uint64(site)*0x9E3779B97F4A7C15 ^ uint64(s.rate)*0xBF58476D1CE4E5B9) >> 40
			sw = h%8 == 0 && s.rng.Intn(3) == 0
		}
	}
	if !sw {
		return
	}
	if to < 0 {
		to = pick(me)
		if to < 0 {
			return
		}
	}
	s.preempts++
	switchTo(me, t.op, t.yields, to)
}

// replayed returns the recorded decision for the current yield point, or -1.
//
//go:norace
func (t *taskState) replayed() int {
	for t.cur < len(t.rep) {
		r := &t.rep[t.cur]
		if r.Op < t.op || r.Op == t.op && r.Yield < t.yields {
			t.cur++
			continue
		}
		if r.Op == t.op && r.Yield == t.yields {
			t.cur++
			return r.To
		}
		return -1
	}
	return -1
}

// pick chooses another runnable task, or -1.
//
//go:norace
func pick(me int) int {
	var c [MaxTasks]int
	k := 0
	for i := 0; i < s.n; i++ {
		if i != me && !s.tasks[i].done && !s.tasks[i].waiting {
			c[k] = i
			k++
		}
	}
	if k == 0 {
		return -1
	}
	if s.mode == ModeReplay {
		return c[0]
	}
	return c[s.rng.Intn(k)]
}

//go:norace
func switchTo(me, op, y, to int) {
	if s.nsw < maxSwitches {
		s.sw[s.nsw] = Switch{me, op, y, to}
		s.nsw++
	}
	s.hash = (s.hash ^ uint64(me+1)<<40 ^ uint64(to+1)<<32 ^ uint64(lastSite)) * 0x100000001B3
	s.cur = to
	fam := famOf(me)
	if fam != nil {
		RaceReleaseMerge(unsafe.Pointer(fam))
	}
	raceDisable()
	s.tasks[to].wake <- struct{}{}
	if op != -1 {
		<-s.tasks[me].wake
	}
	raceEnable()
	if fam != nil && op != -1 {
		RaceAcquire(unsafe.Pointer(fam))
	}
	if op != -1 && s.dead != "" {
		panic(Abort{s.dead})
	}
}

// Progress marks that something changed that blocked tasks may wait for.
//
//go:norace
func Progress() {
	if !s.on {
		return
	}
	for i := 0; i < s.n; i++ {
		s.tasks[i].waiting = false
	}
}

// Block is called by a task whose try-operation failed: another task must run
// until Progress. Outside a scheduled run it reports a deadlock.
//
//go:norace
func Block(what string) {
	if !s.on {
		panic(Abort{"deadlock: " + what + " would block for ever"})
	}
	me := s.cur
	t := &s.tasks[me]
	t.waiting = true
	t.yields++
	s.steps++
	to := -1
	if s.mode == ModeReplay {
		to = t.replayed()
		if to < 0 || to >= s.n || s.tasks[to].done || s.tasks[to].waiting || to == me {
			to = -1
		}
	}
	if to < 0 {
		to = pick(me)
	}
	if to < 0 && s.draining {
		to = 0
	}
	if to < 0 {
		s.dead = "deadlock: " + what + " blocks for ever"
		if rootsDone() {
			s.leaked = true // only goroutines nobody waits for are left
		}
		panic(Abort{s.dead})
	}
	switchTo(me, t.op, t.yields, to)
	t.waiting = false
}

//go:norace
func rootsDone() bool {
	for i := 0; i < s.roots; i++ {
		if !s.tasks[i].done {
			return false
		}
	}
	return true
}

// Owner returns the task of the plan on whose behalf the running task runs.
//
//go:norace
func Owner() int {
	if !s.on {
		return 0
	}
	return s.tasks[s.cur].owner
}

// Enter and Leave bracket harness code that several goroutines of one operation
// may reach: the race detector must not judge the harness's own state.
//
//go:norace
func Enter() {
	if !RaceEnabled || !s.on {
		return
	}
	t := &s.tasks[s.cur]
	t.inside++
	if f := famOf(s.cur); f != nil {
		RaceAcquire(unsafe.Pointer(f))
	}
}

//go:norace
func Leave() {
	if !RaceEnabled || !s.on {
		return
	}
	t := &s.tasks[s.cur]
	if f := famOf(s.cur); f != nil {
		RaceReleaseMerge(unsafe.Pointer(f))
	}
	if t.inside > 0 {
		t.inside--
	}
}

//go:norace
func famOf(i int) *int {
	if !RaceEnabled || s.tasks[i].inside == 0 {
		return nil
	}
	return s.tasks[s.tasks[i].owner].fam
}

// Cur returns the index of the running task, or 0 outside a scheduled run.
//
//go:norace
func Cur() int {
	if !s.on {
		return 0
	}
	return s.cur
}

// Active tells whether a scheduled run is in progress.
//
//go:norace
func Active() bool { return s.on }

// Steps returns the step counters.
//
//go:norace
func Steps() int64 {
	if s.on {
		return s.steps
	}
	return soloSteps
}

// SoloBudget starts a step budget for code running outside the scheduler; 0 ends it.
//
//go:norace
func SoloBudget(max int64) {
	Drain()
	soloSteps = 0
	soloMax = max
}

// Go starts a goroutine of the code under test.
func Go(f func()) {
	if !Active() {
		adhocBegin()
	}
	id := addTask()
	if id < 0 {
		f()
		return
	}
	go taskMain(id, f)
	Y(1)
}

//go:norace
func addTask() int {
	if s.n >= MaxTasks {
		return -1
	}
	id := s.n
	s.n++
	t := &s.tasks[id]
	t.wake = make(chan struct{}, 1)
	t.owner = s.tasks[s.cur].owner
	t.op = s.tasks[s.cur].op
	o := &s.tasks[t.owner]
	o.kids++
	if o.fam == nil {
		o.fam = new(int)
	}
	return id
}

var adhocRuns uint64

// adhocBegin makes the calling goroutine task 0 of a scheduled run that lasts
// until the goroutines it starts have ended.
//
//go:norace
func adhocBegin() {
	adhocRuns++
	left := soloMax - soloSteps
	if soloMax == 0 {
		left = 0
	}
	setup(Config{Seed: mapSeed[0] + adhocRuns, Mode: ModeRandom, Rate: 8, MaxSteps: left}, 1)
	s.adhoc = true
	s.cur = 0
	s.tasks[0].op = -2
	s.on = true
}

// Drain ends the run begun by Go outside a scheduled run: goroutines still
// running are run to their end, those blocked for ever are unwound.
//
//go:norace
func Drain() {
	if !s.on || !s.adhoc {
		return
	}
	s.draining = true
	for s.on {
		s.tasks[0].waiting = true
		to := pick(0)
		if to < 0 {
			left := false
			for i := 1; i < s.n; i++ {
				if !s.tasks[i].done {
					left = true
					s.tasks[i].waiting = false
				}
			}
			if !left {
				break
			}
			if s.dead == "" {
				s.dead = "deadlock: left behind"
				s.leaked = true
			}
			continue
		}
		s.cur = to
		raceDisable()
		s.tasks[to].wake <- struct{}{}
		<-s.tasks[0].wake
		raceEnable()
	}
	adhocEnd()
}

//go:norace
func adhocEnd() {
	s.on = false
	s.adhoc = false
	s.draining = false
	soloSteps += s.steps
}

func taskMain(id int, f func()) {
	waitToken(id)
	defer taskEnd(id)
	f()
}

//go:norace
func waitToken(id int) {
	raceDisable()
	<-s.tasks[id].wake
	raceEnable()
}

// taskEnd passes the token on. Panics other than Abort must have been handled by
// the harness; Abort is swallowed here.
func taskEnd(id int) {
	if r := recover(); r != nil {
		if _, ok := r.(Abort); !ok {
			notePanic(r)
		}
	}
	endToken(id)
}

// GoPanic returns and forgets the panic of a goroutine that the code under test
// started outside a scheduled run.
//
//go:norace
func GoPanic() any {
	p := lastPanic
	lastPanic = nil
	return p
}

var lastPanic any

//go:norace
func notePanic(r any) {
	if lastPanic == nil {
		lastPanic = r
	}
}

//go:norace
func endToken(id int) {
	s.tasks[id].done = true
	kidsDone := true
	for i := 0; i < s.n; i++ {
		s.tasks[i].waiting = false
		if i > 0 && !s.tasks[i].done {
			kidsDone = false
		}
	}
	if s.adhoc && kidsDone {
		adhocEnd()
		s.cur = 0
		raceDisable()
		s.tasks[0].wake <- struct{}{}
		raceEnable()
		return
	}
	to := -1
	if s.mode == ModeReplay {
		to = s.tasks[id].repEnd
		if to < 0 || to >= s.n || s.tasks[to].done {
			to = -1
		}
	}
	if to < 0 {
		to = pick(id)
	}
	if to < 0 {
		s.on = false
		s.finished <- struct{}{} // real edge: results become visible to the coordinator
		return
	}
	// a real edge from this task's results to the coordinator is created by join
	switchTo(id, -1, 0, to)
}

// Result of a scheduled run.
type Result struct {
	Switches  []Switch
	Steps     int64
	Preempts  int64
	Hash      uint64
	Dead      string
	Panic     any
	Truncated bool
}

// Run executes the tasks under the scheduler and returns when all have ended.
func Run(cfg Config, tasks []func()) Result {
	Drain()
	n := len(tasks)
	if n > MaxRoots {
		panic("too many tasks")
	}
	lastPanic = nil
	setup(cfg, n)
	join := make(chan struct{}, n)
	for i, f := range tasks {
		go func() {
			waitToken(i)
			defer func() { join <- struct{}{} }() // runs last: happens-before edge to the coordinator only
			defer taskEnd(i)
			f()
		}()
	}
	start()
	<-s.finished
	for i := 0; i < n; i++ {
		<-join
	}
	return collect()
}

//go:norace
func setup(cfg Config, n int) {
	s.n = n
	s.roots = n
	s.adhoc = false
	s.leaked = false
	s.rng = *NewRand(cfg.Seed ^ 0xABCDEF)
	s.mode = cfg.Mode
	s.rate = cfg.Rate
	if s.rate <= 0 {
		s.rate = 8
	}
	s.steps = 0
	s.maxSteps = cfg.MaxSteps
	if s.maxSteps <= 0 {
		s.maxSteps = 5_000_000
	}
	s.nsw = 0
	s.replay = cfg.Replay
	s.dead = ""
	s.hash = 0xcbf29ce484222325
	s.preempts = 0
	s.finished = make(chan struct{}, 1)
	s.nPoints = 0
	lastSite = 0
	lastTask = -1
	if s.mode == ModeBounded {
		s.nPoints = 1 + s.rng.Intn(4)
		for i := 0; i < s.nPoints; i++ {
			s.points[i] = 1 + int64(s.rng.Intn(s.rate*200))
		}
	}
	for i := 0; i < n; i++ {
		s.tasks[i] = taskState{wake: make(chan struct{}, 1), repEnd: -1, owner: i}
	}
	for i := n; i < MaxTasks; i++ {
		s.tasks[i] = taskState{repEnd: -1}
	}
	if s.mode == ModeReplay {
		for _, r := range cfg.Replay {
			if r.Task < 0 || r.Task >= MaxTasks {
				continue
			}
			if r.Op == -1 {
				s.tasks[r.Task].repEnd = r.To
			} else {
				s.tasks[r.Task].rep = append(s.tasks[r.Task].rep, r)
			}
		}
	}
}

//go:norace
func start() {
	first := 0
	if s.mode == ModeReplay {
		for i := range s.replay {
			if s.replay[i].Task == -1 {
				first = s.replay[i].To
				if first < 0 || first >= s.n {
					first = 0
				}
				break
			}
		}
	} else {
		first = s.rng.Intn(s.n)
	}
	s.sw[0] = Switch{-1, 0, 0, first}
	s.nsw = 1
	s.cur = first
	s.on = true
	raceDisable()
	s.tasks[first].wake <- struct{}{}
	raceEnable()
}

//go:norace
func collect() Result {
	r := Result{Steps: s.steps, Preempts: s.preempts, Hash: s.hash, Dead: s.dead, Panic: lastPanic}
	if s.leaked {
		r.Dead = ""
	}
	r.Switches = make([]Switch, s.nsw)
	for i := 0; i < s.nsw; i++ {
		r.Switches[i] = s.sw[i]
	}
	r.Truncated = s.nsw >= maxSwitches
	return r
}
