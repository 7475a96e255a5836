package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strings"
	"time"

	"github.com/vorlif/spreak/zz_verif/simrt"
)

// The minimiser removes operations, faults, schedule switches, files and
// messages from a failing plan as long as a fresh process still shows a violation
// of the same class.

type shrinker struct {
	dir      string
	class    string
	deadline time.Time
	tries    int
	mem      int
}

func clonePlan(p *Plan) *Plan {
	d, _ := json.Marshal(p)
	q := &Plan{}
	_ = json.Unmarshal(d, q)
	return q
}

// classOf maps a process result to a violation class.
func classOf(code int, out, errOut []byte) (string, *Violation) {
	var r struct {
		V *Violation `json:"violation"`
	}
	_ = json.Unmarshal(bytes.TrimSpace(out), &r)
	switch {
	case code == 3 && r.V != nil:
		return r.V.Class, r.V
	case code == 66 && r.V != nil:
		return r.V.Class, r.V
	case code == 66 || bytes.Contains(errOut, []byte("WARNING: DATA RACE")) && r.V == nil:
		return "data-race", &Violation{"data-race", "data race"}
	case code == 124:
		return "hang", &Violation{"hang", "the process made no progress"}
	case code != 0 && code != 4:
		return "crash", &Violation{"crash", crashText(errOut)}
	}
	return "", nil
}

func crashText(b []byte) string {
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime:") {
			return l
		}
	}
	s := string(b)
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

func (s *shrinker) test(p *Plan) bool {
	if time.Now().After(s.deadline) {
		return false
	}
	s.tries++
	f := filepath.Join(s.dir, fmt.Sprintf("try%d.json", s.tries%4))
	d, _ := json.Marshal(ReplayFile{Property: p.Prop, Plan: p})
	if os.WriteFile(f, d, 0o644) != nil {
		return false
	}
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Args[0], "replay", "-mem", fmt.Sprint(s.mem), f)
	var ob, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &ob, &eb
	err := cmd.Run()
	code := 0
	if err != nil {
		code = 1
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
		if ctx.Err() != nil {
			code = 124
		}
	}
	c, _ := classOf(code, ob.Bytes(), eb.Bytes())
	return c == s.class
}

// ddmin removes chunks of a list of n elements; apply builds the plan that keeps
// the given indexes.
func (s *shrinker) ddmin(n int, apply func(keep []int) *Plan, best *Plan) *Plan {
	if n == 0 {
		return best
	}
	cur := make([]int, n)
	for i := range cur {
		cur[i] = i
	}
	if q := apply(nil); s.test(q) {
		return q
	}
	parts := 2
	for len(cur) >= 1 && time.Now().Before(s.deadline) {
		size := (len(cur) + parts - 1) / parts
		removed := false
		for at := 0; at < len(cur); at += size {
			keep := slices.Concat(cur[:at], cur[min(at+size, len(cur)):])
			if q := apply(keep); s.test(q) {
				best, cur, removed = q, keep, true
				parts = max(parts-1, 2)
				break
			}
		}
		if !removed {
			if size <= 1 {
				break
			}
			parts = min(parts*2, len(cur))
		}
	}
	return best
}

func keepOf[T any](l []T, keep []int) []T {
	r := make([]T, 0, len(keep))
	for _, i := range keep {
		r = append(r, l[i])
	}
	return r
}

func (s *shrinker) shrink(p *Plan) *Plan {
	if len(p.Prelude) > 0 {
		base := clonePlan(p)
		p = s.ddmin(len(base.Prelude), func(k []int) *Plan { q := clonePlan(base); q.Prelude = keepOf(base.Prelude, k); return q }, p)
	}
	for round := 0; round < 3; round++ {
		before, _ := json.Marshal(p)
		// switches (all at once first: many failures need none)
		if len(p.Sched.Replay) > 1 {
			base := clonePlan(p)
			p = s.ddmin(len(base.Sched.Replay), func(k []int) *Plan {
				q := clonePlan(base)
				q.Sched.Replay = keepOf(base.Sched.Replay, k)
				if len(q.Sched.Replay) == 0 {
					q.Sched.Replay = []simrt.Switch{{Task: -1}}
				}
				return q
			}, p)
		}
		// operations
		type ref struct{ t, i int }
		var refs []ref
		base := clonePlan(p)
		for t := range base.Tasks {
			for i := range base.Tasks[t] {
				refs = append(refs, ref{t, i})
			}
		}
		p = s.ddmin(len(refs), func(k []int) *Plan {
			q := clonePlan(base)
			for t := range q.Tasks {
				q.Tasks[t] = q.Tasks[t][:0]
			}
			for _, j := range k {
				q.Tasks[refs[j].t] = append(q.Tasks[refs[j].t], base.Tasks[refs[j].t][refs[j].i])
			}
			return q
		}, p)
		if len(p.Post) > 0 {
			b := clonePlan(p)
			p = s.ddmin(len(b.Post), func(k []int) *Plan { q := clonePlan(b); q.Post = keepOf(b.Post, k); return q }, p)
		}
		if len(p.Faults) > 0 {
			b := clonePlan(p)
			p = s.ddmin(len(b.Faults), func(k []int) *Plan { q := clonePlan(b); q.Faults = keepOf(b.Faults, k); return q }, p)
		}
		if len(p.Muts) > 1 {
			b := clonePlan(p)
			p = s.ddmin(len(b.Muts), func(k []int) *Plan { q := clonePlan(b); q.Muts = keepOf(b.Muts, k); return q }, p)
		}
		if p.World != nil {
			b := clonePlan(p)
			p = s.ddmin(len(b.World.Files), func(k []int) *Plan { q := clonePlan(b); q.World.Files = keepOf(b.World.Files, k); return q }, p)
			for c := range p.World.Cats {
				if len(p.World.Cats[c].Msgs) > 1 {
					b := clonePlan(p)
					p = s.ddmin(len(b.World.Cats[c].Msgs), func(k []int) *Plan {
						q := clonePlan(b)
						q.World.Cats[c].Msgs = keepOf(b.World.Cats[c].Msgs, k)
						return q
					}, p)
				}
			}
		}
		if p.Doc != nil && len(p.Doc.Entries) > 1 {
			b := clonePlan(p)
			p = s.ddmin(len(b.Doc.Entries), func(k []int) *Plan { q := clonePlan(b); q.Doc.Entries = keepOf(b.Doc.Entries, k); return q }, p)
		}
		if after, _ := json.Marshal(p); bytes.Equal(before, after) {
			break
		}
	}
	return p
}

func cmdMinimize(args []string) {
	fl := flag.NewFlagSet("minimize", flag.ExitOnError)
	class := fl.String("class", "", "")
	budget := fl.Duration("budget", 30*time.Second, "")
	out := fl.String("out", "", "")
	mem := fl.Int("mem", 4096, "")
	_ = fl.Parse(args)
	d, err := os.ReadFile(fl.Arg(0))
	if err != nil {
		os.Exit(2)
	}
	var rf ReplayFile
	if json.Unmarshal(d, &rf) != nil || rf.Plan == nil {
		os.Exit(2)
	}
	dir, err := os.MkdirTemp("", "simshrink")
	if err != nil {
		os.Exit(2)
	}
	s := &shrinker{dir: dir, class: *class, deadline: time.Now().Add(*budget), mem: *mem}
	rf.Plan = s.shrink(rf.Plan)
	_ = os.RemoveAll(dir)
	d, _ = json.MarshalIndent(rf, "", " ")
	if os.WriteFile(*out, d, 0o644) != nil {
		os.Exit(2)
	}
	fmt.Printf("%d tries\n", s.tries)
}
