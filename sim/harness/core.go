// Package main is the simulation harness: it generates seeded plans (a world of
// catalogs, files and options, operations of several tasks, faults and a
// schedule), executes them against the instrumented code under test and judges
// the recorded history against an independent model.
package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"sort"
	"strings"
	"syscall"

	"github.com/vorlif/spreak/zz_verif/simrt"
)

// Op is one operation of a task. IDs ascend within a task.
type Op struct {
	ID int      `json:"id"`
	K  string   `json:"k"`
	A  []int    `json:"a,omitempty"`
	S  []string `json:"s,omitempty"`
}

// Fault strikes in operation Op.
type Fault struct {
	Op   int    `json:"op"`
	Kind string `json:"kind"`
	Path string `json:"path,omitempty"`
	Nth  int    `json:"nth"` // storage event of the operation at which it strikes
	Err  string `json:"err"`
	N    int    `json:"n,omitempty"` // bytes delivered or accepted before the error
}

// Sched tells how the scheduler decides.
type Sched struct {
	Mode   int            `json:"mode"`
	Rate   int            `json:"rate"`
	Seed   uint64         `json:"seed"`
	Replay []simrt.Switch `json:"replay,omitempty"`
	Max    int64          `json:"max,omitempty"`
}

// Plan is one complete simulated execution.
type Plan struct {
	Prop    string         `json:"prop"`
	Tier    string         `json:"tier,omitempty"`
	Index   int            `json:"index"`
	Seed    uint64         `json:"seed"`
	MapSeed uint64         `json:"mapseed"`
	World   *World         `json:"world,omitempty"`
	Setup   []Op           `json:"setup,omitempty"`
	Tasks   [][]Op         `json:"tasks,omitempty"`
	Post    []Op           `json:"post,omitempty"`
	Faults  []Fault        `json:"faults,omitempty"`
	Sched   Sched          `json:"sched"`
	N       map[string]int `json:"n,omitempty"`
	Doc     *Doc           `json:"doc,omitempty"`
	Muts    []Mut          `json:"muts,omitempty"`
	Prelude []int          `json:"prelude,omitempty"` // run indexes executed first in the same process
}

// Violation of a property.
type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

// Outcome of one run.
type Outcome struct {
	V          *Violation
	Key        uint64 // identifies the explored behaviour
	Digest     uint64 // of everything observed
	Nontrivial bool
	Fired      map[string]int
	SimNs      int64
	Switches   []simrt.Switch
	Steps      int64
	Preempts   int64
	Evals      int64 // oracle comparisons
	Harness    string
}

func newOutcome() *Outcome { return &Outcome{Fired: map[string]int{}, Digest: 0xcbf29ce484222325} }

func (o *Outcome) violate(class, format string, args ...any) {
	if o.V == nil {
		m := fmt.Sprintf(format, args...)
		if len(m) > 3000 {
			m = m[:3000] + "..."
		}
		o.V = &Violation{class, m}
	}
}

func (o *Outcome) note(parts ...string) {
	for _, p := range parts {
		for i := 0; i < len(p); i++ {
			o.Digest = (o.Digest ^ uint64(p[i])) * 0x100000001B3
		}
		o.Digest = (o.Digest ^ 0xff) * 0x100000001B3
	}
}

type scenario struct {
	gen func(r *simrt.Rand, tier string) *Plan
	run func(p *Plan, o *Outcome)
}

var scenarios = map[string]*scenario{}

// ---- per-task state ----

type fired struct {
	kind string
	err  *InjErr
	path string
	soft bool // need not be surfaced
}

type opRes struct {
	ID     int
	Vals   []string
	Err    error
	HasErr bool
	CB     []string
	Panic  string
	Fired  []fired
	Done   bool
	Events int
	Extra  any
}

type tstate struct {
	idx      int
	op       int
	ev       int
	kinds    map[string]int
	faults   []Fault // of the current operation
	fired    []fired
	cb       []string
	files    []*simFile
	catFault map[string]string
	vanished map[string]bool
	vanHit   bool              // a vanished file was asked for
	hook     func(what string) // re-entrance hook
	depth    int
	res      []*opRes
	rd       uint64
}

var ts [simrt.MaxRoots + 2]*tstate

func resetTasks(seed uint64) {
	simrt.ClearDirs()
	for i := range ts {
		ts[i] = &tstate{idx: i, op: -1, rd: seed + uint64(i)*7919}
	}
}

// T returns the state of the running task; goroutines that the code under test
// starts share the state of the task whose operation started them.
func T() *tstate { return ts[simrt.Owner()] }

// in brackets harness code called from the code under test: defer t.in()()
func (t *tstate) in() func() { simrt.Enter(); return simrt.Leave }

func (t *tstate) begin(p *Plan, op Op) {
	t.op = op.ID
	t.ev = 0
	t.kinds = nil
	t.fired = nil
	t.cb = nil
	t.faults = nil
	t.catFault = nil
	t.vanished = nil
	t.vanHit = false
	t.hook = nil
	for _, f := range p.Faults {
		if f.Op != op.ID {
			continue
		}
		if f.Kind == "cat" {
			if t.catFault == nil {
				t.catFault = map[string]string{}
			}
			t.catFault[f.Path] = f.Err
			continue
		}
		t.faults = append(t.faults, f)
	}
}

// do executes one operation of the task and records its result.
func (t *tstate) do(p *Plan, op Op, f func(r *opRes)) *opRes {
	simrt.OpBoundary(op.ID)
	t.begin(p, op)
	r := &opRes{ID: op.ID}
	func() {
		defer func() {
			if x := recover(); x != nil {
				if ab, ok := x.(simrt.Abort); ok {
					panic(ab)
				}
				r.Panic = panicText(x)
			}
		}()
		f(r)
	}()
	r.CB = t.cb
	r.Fired = t.fired
	r.Events = t.ev
	r.Done = true
	t.res = append(t.res, r)
	t.op = -1
	t.faults = nil
	t.catFault = nil
	t.vanished = nil
	t.hook = nil
	return r
}

func panicText(x any) string {
	switch v := x.(type) {
	case *InjErr:
		return "injected:" + v.ID
	case error:
		var ie *InjErr
		if errors.As(v, &ie) {
			return "injected:" + ie.ID
		}
		return v.Error()
	}
	return fmt.Sprint(x)
}

// ---- injected failures ----

// InjErr identifies one injected failure.
type InjErr struct {
	ID    string
	Cause error
}

func (e *InjErr) Error() string { return "injected failure " + e.ID }
func (e *InjErr) Unwrap() error { return e.Cause }

// makeErr builds an injected error of a kind; the *InjErr inside identifies it.
func makeErr(kind, id, op, path string) (error, *InjErr) {
	ie := &InjErr{ID: id}
	switch kind {
	case "perm":
		ie.Cause = fs.ErrPermission
	case "eio":
		ie.Cause = syscall.EIO
	case "enospc":
		ie.Cause = syscall.ENOSPC
	case "emfile":
		ie.Cause = syscall.EMFILE
	case "unexpectedEOF":
		ie.Cause = io.ErrUnexpectedEOF
	case "closed":
		ie.Cause = fs.ErrClosed
	case "deadline":
		ie.Cause = os.ErrDeadlineExceeded
	case "exist":
		ie.Cause = fs.ErrExist
	case "eintr":
		ie.Cause = syscall.EINTR
	case "eagain":
		ie.Cause = syscall.EAGAIN
	case "estale":
		ie.Cause = syscall.ESTALE
	case "einval":
		ie.Cause = syscall.EINVAL
	case "eisdir":
		ie.Cause = syscall.EISDIR
	case "toolong":
		ie.Cause = syscall.ENAMETOOLONG
	case "loop":
		ie.Cause = syscall.ELOOP
	case "eof":
		ie.Cause = io.EOF
	case "noprogress":
		ie.Cause = io.ErrNoProgress
	case "canceled":
		ie.Cause = context.Canceled
	case "unsupported":
		ie.Cause = errors.ErrUnsupported
	}
	switch kind {
	case "plain":
		return ie, ie
	case "wrapped":
		return fmt.Errorf("backend: %w", ie), ie
	}
	return &fs.PathError{Op: op, Path: path, Err: ie}, ie
}

var errKinds = []string{"plain", "wrapped", "perm", "eio", "enospc", "emfile", "unexpectedEOF", "closed", "deadline", "exist",
	"eintr", "eagain", "estale", "einval", "eisdir", "toolong", "loop", "eof", "noprogress", "canceled", "unsupported"}

// event announces a storage event of the current operation and returns the fault
// that strikes there.
func (t *tstate) event(kind, path string) *Fault {
	simrt.Y(21)
	n := t.ev
	t.ev++
	for i := range t.faults {
		f := &t.faults[i]
		if f.Kind == "vanish" {
			if n >= f.Nth {
				if t.vanished == nil {
					t.vanished = map[string]bool{}
				}
				t.vanished[f.Path] = true
			}
			continue
		}
		if f.Kind != "" && f.Kind != kind || f.Path != "" && f.Path != path {
			continue
		}
		if f.Kind != "" { // the n-th event of that kind (and path)
			key := fmt.Sprint(i)
			if t.kinds == nil {
				t.kinds = map[string]int{}
			}
			c := t.kinds[key]
			t.kinds[key]++
			if c != f.Nth {
				continue
			}
		} else if f.Nth != n {
			continue
		}
		return f
	}
	return nil
}

// hookEvent announces an event that only faults naming its kind can hit.
func (t *tstate) hookEvent(kind string) *Fault {
	for i := range t.faults {
		f := &t.faults[i]
		if f.Kind != kind {
			continue
		}
		if t.kinds == nil {
			t.kinds = map[string]int{}
		}
		key := fmt.Sprint(i)
		c := t.kinds[key]
		t.kinds[key]++
		if c == f.Nth {
			return f
		}
	}
	return nil
}

func (t *tstate) strike(f *Fault, kind, path string) error {
	err, ie := makeErr(f.Err, fmt.Sprintf("t%d/op%d/%d/%s", t.idx, t.op, len(t.fired), kind), kind, path)
	t.fired = append(t.fired, fired{kind: kind, err: ie, path: path})
	if f.Err == "panic" {
		panic(ie)
	}
	return err
}

func isInjected(err error, ie *InjErr) bool {
	var got *InjErr
	if !errors.As(err, &got) {
		return false
	}
	if got == ie {
		return true
	}
	return errors.Is(err, ie) // joined errors
}

// ---- running tasks ----

func (p *Plan) schedCfg() simrt.Config {
	return simrt.Config{Seed: p.Sched.Seed, Mode: p.Sched.Mode, Rate: p.Sched.Rate, Replay: p.Sched.Replay, MaxSteps: p.Sched.Max}
}

// runTasks executes the plan's tasks under the scheduler. It returns false if the
// run ended abnormally (the outcome then carries the violation).
func runTasks(p *Plan, o *Outcome, exec func(t *tstate, op Op)) bool {
	var fns []func()
	for i := range p.Tasks {
		ops := p.Tasks[i]
		fns = append(fns, func() {
			t := ts[i]
			for _, op := range ops {
				exec(t, op)
			}
		})
	}
	if len(fns) == 0 {
		return true
	}
	races := simrt.RaceErrors()
	res := simrt.Run(p.schedCfg(), fns)
	o.Switches = res.Switches
	o.Steps += res.Steps
	o.Preempts += res.Preempts
	o.Key ^= res.Hash
	o.note(fmt.Sprint(res.Hash))
	if res.Panic != nil {
		o.violate("panic-in-goroutine", "a goroutine of the code under test panicked: %v", res.Panic)
		return false
	}
	if res.Dead != "" {
		cls := "deadlock"
		if strings.Contains(res.Dead, "budget") {
			cls = "no-progress"
		}
		o.violate(cls, "%s (step %d)", res.Dead, res.Steps)
		return false
	}
	if n := simrt.RaceErrors() - races; n > 0 {
		o.violate("data-race", "%d data race report(s) (see the race detector's output)", n)
		return false
	}
	return true
}

// solo runs f outside the scheduler within a step budget; it reports panics and
// exhausted budgets.
func solo(max int64, f func()) (pan string, hung bool) {
	simrt.SoloBudget(max)
	defer simrt.SoloBudget(0)
	defer func() {
		if x := recover(); x != nil {
			if ab, ok := x.(simrt.Abort); ok {
				hung = true
				pan = ab.Reason
				return
			}
			pan = panicText(x)
		}
	}()
	f()
	simrt.Drain()
	if x := simrt.GoPanic(); x != nil {
		pan = "in a goroutine: " + panicText(x)
	}
	return
}

func allResults() []*opRes {
	var r []*opRes
	for _, t := range ts {
		r = append(r, t.res...)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].ID < r[j].ID })
	return r
}

func resByID() map[int]*opRes {
	m := map[int]*opRes{}
	for _, t := range ts {
		for _, r := range t.res {
			m[r.ID] = r
		}
	}
	return m
}

// genSched draws a scheduling policy.
func genSched(r *simrt.Rand) Sched {
	s := Sched{Seed: r.Next()}
	switch r.Intn(10) {
	case 0, 1, 2, 3:
		s.Mode = simrt.ModeRandom
		s.Rate = []int{2, 4, 8, 16, 32, 64, 128}[r.Intn(7)]
	case 4, 5, 6:
		s.Mode = simrt.ModeBounded
		s.Rate = 1 + r.Intn(20)
	case 7:
		s.Mode = simrt.ModeOps
	default:
		s.Mode = simrt.ModeSites
		s.Rate = r.Intn(1 << 16)
	}
	return s
}

func pickS(r *simrt.Rand, v ...string) string { return v[r.Intn(len(v))] }
func pickI(r *simrt.Rand, v ...int) int       { return v[r.Intn(len(v))] }

func hashStr(s string) uint64 {
	h := uint64(0xcbf29ce484222325)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 0x100000001B3
	}
	return h
}

func sortedSet(m map[string]bool) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func countFired(o *Outcome) {
	for _, t := range ts {
		for _, r := range t.res {
			for _, f := range r.Fired {
				o.Fired[f.kind]++
			}
		}
	}
}
