package main

import (
	"fmt"
	"slices"
	"strings"

	"github.com/vorlif/spreak/zz_verif/simrt"
)

// State that only breaks after many operations (counters, bounded caches, circuit
// breakers, pools) needs histories that repeat themselves. Two transformations are
// applied to a share of the generated plans: a burst repeats one operation with
// the faults that struck it and then continues without faults; a long history adds
// hundreds of different lookups.

var burstProps = map[string]int{ // one of so many plans
	"C01": 6, "C02": 5, "C03": 5, "C04": 8, "C07": 6, "C08": 8, "C09": 8, "C10": 4, "C11": 8,
	"C12": 5, "C15": 8, "C16": 8, "C17": 8, "C18": 4,
}

var longProps = map[string]int{"C01": 160, "C02": 120, "C03": 120, "C15": 200, "C16": 160, "C17": 300}

func isHeavy(op Op) bool {
	switch op.K {
	case "build", "newcoll", "create", "newhum", "xload", "load":
		return true
	}
	return false
}

func maxID(p *Plan) int {
	m := 0
	for _, ops := range append(slices.Clone(p.Tasks), p.Setup, p.Post) {
		for _, op := range ops {
			m = max(m, op.ID)
		}
	}
	return m
}

func addHistory(r *simrt.Rand, p *Plan) {
	if n := burstProps[p.Prop]; n > 0 && len(p.Tasks) > 0 && r.Chance(1, n) {
		addBurst(r, p)
	}
	if n := longProps[p.Prop]; n > 0 && len(p.Tasks) > 0 && r.Chance(1, n) {
		addLong(r, p)
	}
}

// addBurst repeats one operation with its faults at the end of its task.
func addBurst(r *simrt.Rand, p *Plan) {
	id := maxID(p) + 1
	faults := map[int][]Fault{}
	for _, f := range p.Faults {
		if f.Kind != "re" {
			faults[f.Op] = append(faults[f.Op], f)
		}
	}
	t := r.Intn(len(p.Tasks))
	ops := p.Tasks[t]
	var cand []Op
	for _, op := range ops {
		if len(faults[op.ID]) > 0 {
			cand = append(cand, op)
		}
	}
	if len(ops) == 0 {
		return
	}
	if len(cand) == 0 || r.Chance(1, 6) {
		cand = ops
	}
	op := cand[r.Intn(len(cand))]
	n := pickI(r, 2, 3, 4, 5, 6, 8, 9, 11, 16, 17, 20, 33, 65, 101)
	if p.Doc != nil && p.Doc.Pad > 0 {
		n = min(n, 6)
	}
	if isHeavy(op) {
		n = min(n, 2+r.Intn(5))
	}
	rep := slices.Clone(ops)
	add := func(op Op, fs []Fault) {
		op.ID = id
		id++
		rep = append(rep, op)
		for _, f := range fs {
			f.Op = op.ID
			p.Faults = append(p.Faults, f)
		}
	}
	for i := 0; i < n; i++ {
		add(op, faults[op.ID])
	}
	for i := 1 + r.Intn(3); i > 0; i-- { // and without the faults
		add(op, nil)
		if o := ops[r.Intn(len(ops))]; !isHeavy(o) || r.Chance(1, 3) {
			add(o, nil)
		}
	}
	if p.Prop == "C10" { // ends with a construction, as every history of C10
		for _, o := range ops {
			if o.K == "build" {
				add(o, nil)
				break
			}
		}
	}
	p.Tasks[t] = rep
	if p.N == nil {
		p.N = map[string]int{}
	}
	p.N["burst"] = n
	p.Sched.Max = max(p.Sched.Max, 100_000_000)
}

// addLong adds a task with a long history of different operations.
func addLong(r *simrt.Rand, p *Plan) {
	id := maxID(p) + 1
	var ops []Op
	n := pickI(r, 150, 300, 600, 1200)
	switch p.Prop {
	case "C15", "C16":
		slots := 1
		if p.Prop == "C16" {
			slots = len(p.Setup[1].S)
		}
		if n = min(n, 400); p.Prop == "C15" {
			ops = p.Tasks[0]
		}
		for i := 0; i < n; i++ {
			c := genTcall(r, slots)
			if p.Prop == "C16" {
				c.jat = 0
			}
			ops = append(ops, Op{ID: id, K: "call", A: c.enc()})
			id++
			if r.Chance(1, 9) {
				ops = append(ops, Op{ID: id, K: "jump", A: []int{genOff(r), r.Intn(2)}})
				id++
			}
		}
		if p.Prop == "C15" {
			p.Tasks[0] = ops
		} else {
			p.Tasks = append(p.Tasks, ops)
		}
	default:
		nloc := 0
		for _, op := range p.Setup {
			if op.K == "loc" {
				nloc++
			}
		}
		if nloc == 0 || p.World == nil {
			return
		}
		var prev []Op
		for i := 0; i < n; i++ {
			var op Op
			if len(prev) > 0 && r.Chance(1, 4) { // one of the lookups before
				op = prev[r.Intn(len(prev))]
			} else {
				op = genLook(r, p.World, id, nloc)
				switch r.Intn(4) {
				case 0: // texts that no catalog has
					if op.A[1] != badCount && len(op.S) == 6 && !strings.HasPrefix(op.S[0], "LocalizeErr") {
						op.S = slices.Clone(op.S)
						op.S[3] = fmt.Sprintf("unknown %d", r.Intn(4*n))
						if op.S[4] != "" {
							op.S[4] = op.S[3] + "s"
						}
					}
				case 1: // many different numbers
					if op.A[1] == 0 && len(op.S) == 6 {
						op.S = slices.Clone(op.S)
						op.S[5] = fmt.Sprint(r.Intn(3000))
					}
				}
				prev = append(prev, op)
			}
			if p.Prop == "C01" && r.Chance(1, 8) {
				op = genPlural(r, id)
				if op.A[0] != 1 || r.Chance(1, 2) {
					op.A[2] = r.Intn(3000)
				}
			} else if p.Prop == "C01" && r.Chance(1, 12) {
				lk := genLook(r, p.World, 0, 1)
				op = genLoc(r, p.World, id)
				op.K = "newloc"
				op.A = append(op.A, lk.A...)
				op.S = append([]string{fmt.Sprint(len(op.S))}, append(op.S, lk.S...)...)
			}
			op.ID = id
			id++
			ops = append(ops, op)
		}
		p.Tasks = append(p.Tasks, ops)
	}
	if p.N == nil {
		p.N = map[string]int{}
	}
	p.N["long"] = n
	p.Sched.Max = max(p.Sched.Max, 100_000_000)
}
