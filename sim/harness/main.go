package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"syscall"
	"time"

	"github.com/vorlif/spreak/zz_verif/simrt"
)

// Summary of a batch of runs.
type Summary struct {
	Prop       string          `json:"prop"`
	Runs       int             `json:"runs"`
	Nontrivial int             `json:"nontrivial"`
	Steps      int64           `json:"steps"`
	Preempts   int64           `json:"preempts"`
	Evals      int64           `json:"evals"`
	SimNs      int64           `json:"sim_ns"`
	Fired      map[string]int  `json:"fired"`
	Keys       []uint64        `json:"keys"` // of nontrivial runs
	Cov        []uint64        `json:"cov"`  // set bits of the interleaving bitmap
	Sites      []int           `json:"sites"`
	Digest     uint64          `json:"digest"`
	Next       int             `json:"next"`
	RealClock  int64           `json:"real_clock_reads"`
	Sample     json.RawMessage `json:"sample,omitempty"`
	V          *Violation      `json:"violation,omitempty"`
	Plan       *Plan           `json:"plan,omitempty"`
	Harness    string          `json:"harness,omitempty"`
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness run|replay|minimize")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		cmdRun(os.Args[2:])
	case "replay":
		cmdReplay(os.Args[2:])
	case "minimize":
		cmdMinimize(os.Args[2:])
	case "plan":
		p := makePlan(os.Args[2], tierArg(), uint64(atoi(os.Args[3])), atoi(os.Args[4]))
		d, _ := json.MarshalIndent(p, "", " ")
		fmt.Println(string(d))
	default:
		os.Exit(2)
	}
}

func mix(a, b uint64) uint64 {
	r := simrt.Rand{S: a ^ b*0x9E3779B97F4A7C15}
	r.Next()
	return r.Next()
}

func makePlan(prop, tier string, base uint64, index int) *Plan {
	sc := scenarios[prop]
	seed := mix(mix(base, hashStr(prop)), uint64(index)+1)
	p := sc.gen(simrt.NewRand(seed), tier)
	p.Prop, p.Tier, p.Seed, p.Index = prop, tier, base, index
	addHistory(simrt.NewRand(mix(seed, 0x6c6f6e67)), p)
	return p
}

func execPlan(p *Plan) *Outcome {
	o := newOutcome()
	resetTasks(p.MapSeed)
	simrt.SetMapSeed(p.MapSeed)
	simrt.ClockOff()
	races := simrt.RaceErrors()
	func() {
		defer func() {
			if x := recover(); x != nil {
				o.Harness = fmt.Sprintf("harness panic: %v", x)
				if os.Getenv("SIM_DEBUG") != "" {
					panic(x)
				}
			}
		}()
		scenarios[p.Prop].run(p, o)
	}()
	if n := simrt.RaceErrors() - races; n > 0 && o.V == nil {
		o.violate("data-race", "%d data race report(s)", n)
	}
	return o
}

func limitMemory(mb int) {
	if mb <= 0 || simrt.RaceEnabled {
		return
	}
	lim := uint64(mb) << 20
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim})
}

func cmdRun(args []string) {
	fl := flag.NewFlagSet("run", flag.ExitOnError)
	prop := fl.String("prop", "", "")
	tier := fl.String("tier", "quick", "")
	seed := fl.Uint64("seed", 1, "")
	from := fl.Int("from", 0, "")
	to := fl.Int("to", 1, "")
	status := fl.String("status", "", "")
	wall := fl.Duration("wall", time.Hour, "")
	mem := fl.Int("mem", 4096, "")
	digests := fl.Bool("digests", false, "print the digest of every run")
	_ = fl.Parse(args)
	limitMemory(*mem)
	if scenarios[*prop] == nil {
		fmt.Fprintln(os.Stderr, "no scenario", *prop)
		os.Exit(2)
	}
	s := &Summary{Prop: *prop, Fired: map[string]int{}, Digest: 0xcbf29ce484222325}
	var sf *os.File
	if *status != "" {
		f, err := os.Create(*status)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		sf = f
	}
	start := time.Now()
	for i := *from; i < *to; i++ {
		s.Next = i
		if i > *from && time.Since(start) > *wall {
			break
		}
		if sf != nil {
			_, _ = sf.WriteAt([]byte(fmt.Sprintf("%-12d", i)), 0)
		}
		p := makePlan(*prop, *tier, *seed, i)
		o := execPlan(p)
		s.Next = i + 1
		s.Runs++
		s.Steps += o.Steps
		s.Preempts += o.Preempts
		s.Evals += o.Evals
		s.SimNs += o.SimNs
		for k, n := range o.Fired {
			s.Fired[k] += n
		}
		s.Digest = (s.Digest ^ o.Digest) * 0x100000001B3
		if *digests {
			fmt.Printf("%d %016x %016x %v\n", i, o.Digest, o.Key, o.V)
		}
		if o.Nontrivial {
			s.Nontrivial++
			s.Keys = append(s.Keys, o.Key)
			if s.Sample == nil && i%7 == 0 {
				d, _ := json.Marshal(p)
				if len(d) < 6000 {
					s.Sample = d
				}
			}
		}
		if o.Harness != "" {
			s.Harness = fmt.Sprintf("run %d: %s", i, o.Harness)
			break
		}
		if o.V != nil {
			s.V = o.V
			p.Sched.Replay = o.Switches
			s.Plan = p
			break
		}
	}
	for i, w := range simrt.CovBitmap() {
		for b := 0; w != 0; b++ {
			if w&1 != 0 {
				s.Cov = append(s.Cov, uint64(i*64+b))
			}
			w >>= 1
		}
	}
	s.Sites = simrt.SiteBits()
	s.RealClock = simrt.OffClockReads()
	if os.Getenv("SIM_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "max steps/byte", maxSteps, "max alloc/byte", maxAlloc)
	}
	w := bufio.NewWriter(os.Stdout)
	if !*digests {
		_ = json.NewEncoder(w).Encode(s)
	}
	_ = w.Flush()
	switch {
	case s.Harness != "":
		os.Exit(4)
	case s.V != nil:
		os.Exit(3)
	}
	os.Exit(0)
}

// ReplayFile is what a replay file contains.
type ReplayFile struct {
	Property  string     `json:"property"`
	Violation *Violation `json:"violation"`
	Seed      uint64     `json:"seed"`
	Index     int        `json:"index"`
	Race      bool       `json:"race"`
	Note      string     `json:"note,omitempty"`
	Plan      *Plan      `json:"plan"`
}

func loadPlan(file string) *Plan {
	d, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var rf ReplayFile
	if err := json.Unmarshal(d, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if rf.Plan == nil || scenarios[rf.Plan.Prop] == nil {
		fmt.Fprintln(os.Stderr, "no plan in", file)
		os.Exit(2)
	}
	return rf.Plan
}

// runPlanIn executes the plan's prelude and the plan in this process.
func runPlanIn(p *Plan) *Outcome {
	for _, i := range p.Prelude {
		execPlan(makePlan(p.Prop, p.Tier, p.Seed, i))
	}
	q := *p
	if q.Sched.Replay != nil {
		q.Sched.Mode = simrt.ModeReplay
	}
	return execPlan(&q)
}

func cmdReplay(args []string) {
	fl := flag.NewFlagSet("replay", flag.ExitOnError)
	mem := fl.Int("mem", 4096, "")
	_ = fl.Parse(args)
	limitMemory(*mem)
	o := runPlanIn(loadPlan(fl.Arg(0)))
	type out struct {
		V        *Violation     `json:"violation"`
		Digest   uint64         `json:"digest"`
		Harness  string         `json:"harness,omitempty"`
		Switches []simrt.Switch `json:"switches,omitempty"`
	}
	_ = json.NewEncoder(os.Stdout).Encode(out{o.V, o.Digest, o.Harness, o.Switches})
	switch {
	case o.Harness != "":
		os.Exit(4)
	case o.V != nil:
		os.Exit(3)
	}
}

func tierArg() string {
	if len(os.Args) > 5 {
		return os.Args[5]
	}
	return "quick"
}
