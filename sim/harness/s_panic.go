package main

import (
	"bytes"
	"fmt"
	"slices"
	"strings"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/zz_verif/simrt"
)

// Scenario of C18: user code panics, or calls back into the objects it is called by.

func init() { scenarios["C18"] = &scenario{genC18, runC18} }

var lookHooks = []string{"callback", "callback", "print", "lookup", "lookup", "localizable", "error"}
var buildHooks = []string{"callback", "load", "open", "stat", "read", "readfile", "close", "decode", "resolve", "init", "getprint", "matcher"}

func genC18(r *simrt.Rand, tier string) *Plan {
	p := genBase(r, worldOpts{defaults: true, presence: 75})
	w := p.World
	for i := range w.Loaders { // mostly catalogs of the user
		if r.Chance(1, 2) {
			w.Loaders[i].Wrap |= 1
		}
	}
	if w.Printer == 0 && r.Chance(1, 2) {
		w.Printer = 1 + r.Intn(2)
		w.Opts = append(w.Opts, Opt{K: "printer"})
	}
	if r.Chance(1, 3) {
		w.Opts = append(w.Opts, Opt{K: "matcher"})
	}
	nloc := 1 + r.Intn(3)
	id := 1
	genSetupLocs(r, p, &id, nloc)
	var tags []string
	set := map[string]bool{}
	for _, o := range w.Opts {
		if o.K == "fb" || o.K == "lang" || o.K == "req" {
			for _, v := range o.V {
				if t, err := optLang(v); err == nil {
					set[t.String()] = true
				}
			}
		}
	}
	tags = sortedSet(set)
	one := func(nested bool) Op {
		var op Op
		m := msgPool[r.Intn(len(msgPool))]
		switch r.Intn(12) {
		case 0:
			op = Op{K: "list", A: []int{r.Intn(nloc)}, S: []string{pickS(r, "", "app", "web", "zzz"), pickS(r, append(baseTags, "sw", "zh-TW")...)}}
		case 1:
			op = Op{K: "cat", A: []int{r.Intn(16), r.Intn(4)}, S: []string{m.Ctx, m.ID, fmt.Sprint(counts[r.Intn(len(counts))])}}
		case 2, 3:
			op = Op{K: "build"}
		case 4:
			op = Op{K: "xload", A: []int{r.Intn(len(w.Loaders))}, S: []string{baseTags[r.Intn(len(baseTags))]}}
		case 5:
			op = Op{K: "enc", A: []int{r.Intn(16)}}
		case 6:
			lk := genLook(r, w, 0, 1)
			op = genLoc(r, w, 0)
			op.K = "newloc"
			op.A = append(op.A, lk.A...)
			op.S = append([]string{fmt.Sprint(len(op.S))}, append(op.S, lk.S...)...)
		default:
			op = genLook(r, w, 0, nloc)
			if op.A[1] == badCount {
				op.A[1] = 0
			}
		}
		op.ID = id
		id++
		return op
	}
	nt := 1 + r.Intn(4)
	for t := 0; t < nt; t++ {
		var ops []Op
		for i := 3 + r.Intn(8); i > 0; i-- {
			op := one(false)
			ops = append(ops, op)
			hooks := lookHooks
			switch op.K {
			case "build", "xload":
				hooks = buildHooks
			case "look":
				if strings.HasPrefix(op.S[0], "LocalizeErr") {
					hooks = append(slices.Clone(lookHooks), "error", "error", "error", "localizable")
				} else if strings.HasPrefix(op.S[0], "Localize") {
					hooks = append(slices.Clone(lookHooks), "localizable", "localizable")
				}
			case "enc":
				hooks = []string{"write"}
			case "list":
				continue
			}
			nth := func() int { return pickI(r, 0, 0, 0, 0, 1, 1, 2, 5, 9) }
			switch r.Intn(4) {
			case 0, 1: // a panic
				if hooks[0] == "callback" && op.K != "build" && op.K != "xload" && r.Chance(1, 2) && len(tags) > 0 {
					p.Faults = append(p.Faults, Fault{Op: op.ID, Kind: "cat", Path: pickS(r, tags...), Err: "panic"})
				} else {
					p.Faults = append(p.Faults, Fault{Op: op.ID, Kind: pickS(r, hooks...), Err: "panic", Nth: nth()})
				}
				if r.Chance(3, 4) {
					break
				}
				fallthrough
			case 2: // a call back
				for k := 1 + r.Intn(3); k > 0; k-- {
					in := one(true)
					p.Post = append(p.Post, in)
					p.Faults = append(p.Faults, Fault{Op: op.ID, Kind: "re", Path: pickS(r, hooks...), Nth: nth(), N: in.ID})
				}
			}
		}
		p.Tasks = append(p.Tasks, ops)
	}
	return p
}

type panicEnv struct {
	*env
	le  *loadEnv
	enc map[int]string // complete encodings of the catalogs
}

// nested executes an operation from inside user code.
func (t *tstate) nested(f func()) {
	s := *t
	f()
	files, res, rd := t.files, t.res, t.rd
	*t = s
	t.files, t.res, t.rd = files, res, rd
}

func (e *panicEnv) hookFor(p *Plan, t *tstate, op Op) func(string) {
	var re []Fault
	for _, f := range p.Faults {
		if f.Op == op.ID && f.Kind == "re" {
			re = append(re, f)
		}
	}
	if len(re) == 0 {
		return nil
	}
	cnt := map[string]int{}
	return func(what string) {
		n := cnt[what]
		cnt[what]++
		for _, f := range re {
			if f.Path != what || f.Nth != n {
				continue
			}
			for _, in := range p.Post {
				if in.ID == f.N {
					t.nested(func() {
						saved := make([]map[string]catalog.Catalog, len(e.parts.caps))
						for i, c := range e.parts.caps {
							saved[i] = c.cats[t.idx]
						}
						e.exec(p, t, in)
						for i, c := range e.parts.caps {
							c.cats[t.idx] = saved[i]
						}
					})
				}
			}
		}
	}
}

type hookWriter struct{ b bytes.Buffer }

func (w *hookWriter) Write(b []byte) (int, error) {
	simrt.Y(27)
	userCode("write")
	return w.b.Write(b)
}

func (e *panicEnv) exec(p *Plan, t *tstate, op Op) {
	h := e.hookFor(p, t, op)
	switch op.K {
	case "build":
		t.do(p, op, func(r *opRes) { t.hook = h; e.le.buildOnce(t, r) })
	case "xload":
		t.do(p, op, func(r *opRes) {
			t.hook = h
			n := len(t.files)
			x := &loadExtra{}
			r.Extra = x
			defer func() {
				for _, f := range t.files[n:] {
					x.leaks = append(x.leaks, f.problem()...)
				}
			}()
			c, err := e.parts.caps[op.A[0]].inner.Load(language.MustParse(op.S[0]), e.le.w.Loaders[op.A[0]].Dom)
			r.Err, r.HasErr = err, true
			if err == nil {
				r.Vals = []string{contentOf(c)}
			}
		})
	case "enc":
		t.do(p, op, func(r *opRes) {
			t.hook = h
			if len(e.cats) == 0 {
				return
			}
			jc, ok := e.cats[op.A[0]%len(e.cats)].cat.(catalog.JSONCatalog)
			if !ok {
				return
			}
			var w hookWriter
			r.Err, r.HasErr = catalog.NewJSONEncoder(&w).Encode(jc), true
			r.Vals = append(r.Vals, w.b.String())
		})
	case "look":
		t.do(p, op, func(r *opRes) {
			t.hook = h
			k := decodeLook(op)
			realLook(e.locs[k.loc], k, r)
		})
	default:
		e.env.exec(p, t, op)
	}
}

func (e *panicEnv) check(p *Plan, o *Outcome, op Op, r *opRes) {
	if o.V != nil {
		return
	}
	if r == nil || !r.Done {
		o.violate("lost-operation", "operation %d %s did not finish", op.ID, op.K)
		return
	}
	o.note(r.Panic)
	if req := r.required(); req != nil && op.K != "build" {
		// The panic of user code reaches the caller or is its error.
		o.Evals++
		if r.Panic != "" && !strings.HasPrefix(r.Panic, "injected:") {
			o.violate("panic", "op %d %s %v panicked: %s", op.ID, op.K, op.S, r.Panic)
			return
		}
		ok := false
		for i := range r.Fired {
			ok = ok || r.surfaces(&r.Fired[i])
		}
		for _, c := range r.CB { // a failing catalog was reported
			ok = ok || strings.HasPrefix(c, "inj:") && req.kind == "catalog"
		}
		if !ok {
			o.violate("swallowed-panic", "op %d %s %v: the panic of the user's %s (%s) is not reported; got %q, error %v, panic %q", op.ID, op.K, op.S, req.kind, req.err.ID, r.Vals, r.Err, r.Panic)
		}
		if x, is := r.Extra.(*loadExtra); is && len(x.leaks) > 0 {
			o.violate("file-handling", "op %d (faults %s): %s", op.ID, firedText(r), strings.Join(x.leaks, "; "))
		}
		return
	}
	switch op.K {
	case "build":
		e.le.checkBuild(o, ckErr|ckResult|ckCB|ckFiles, op, r)
	case "xload":
		e.le.checkLoad(o, ckResult|ckFiles, op, r)
	case "enc":
		o.Evals++
		if r.Panic != "" {
			o.violate("panic", "op %d %s panicked: %s", op.ID, op.K, r.Panic)
			return
		}
		if !r.HasErr {
			return
		}
		if want := e.enc[op.A[0]%len(e.cats)]; r.Err != nil || r.Vals[0] != want {
			o.violate("wrong-encoding", "op %d: got %q error %v, want %q", op.ID, r.Vals, r.Err, want)
		}
	case "look":
		k := decodeLook(op)
		o.note(r.Vals...)
		o.note(canon(r.Err))
		compareLook(o, cmpText|cmpErr|cmpCB, op, r, expectLook(e.mlocs[k.loc], k, p.faultsOf(op.ID)))
	default:
		e.env.check(p, o, op, r, cmpText|cmpErr)
	}
}

func runC18(p *Plan, o *Outcome) {
	base := buildEnv(p, o)
	if base == nil {
		return
	}
	e := &panicEnv{env: base, enc: map[int]string{}}
	e.le = &loadEnv{p: p, w: p.World, parts: base.parts, mb: base.mb, base: base.b}
	e.le.want = e.le.wantVals()
	for i, c := range e.cats {
		if jc, ok := c.cat.(catalog.JSONCatalog); ok {
			var b bytes.Buffer
			if err := catalog.NewJSONEncoder(&b).Encode(jc); err != nil {
				o.violate("setup-error", "encoding a catalog: %v", err)
				return
			}
			e.enc[i] = b.String()
		}
	}
	e.parts.cbHook = func(t *tstate, err error) {
		if t.hook != nil {
			t.hook("callback")
		}
	}
	q := *p
	if q.Sched.Max == 0 {
		q.Sched.Max = 60_000_000
	}
	p = &q
	ok := runTasks(p, o, func(t *tstate, op Op) { e.exec(p, t, op) })
	countFired(o)
	if !ok {
		return
	}
	res := resByID()
	fired := 0
	for _, ops := range append(slices.Clone(p.Tasks), p.Post) {
		for _, op := range ops {
			r := res[op.ID]
			if r == nil && slices.ContainsFunc(p.Post, func(x Op) bool { return x.ID == op.ID }) {
				continue // this place was not reached
			}
			e.check(p, o, op, r)
			if r != nil {
				fired += len(r.Fired)
				o.Key = o.Key*31 + hashStr(firedText(r)+canon(r.Err)+r.Panic)
			}
		}
	}
	for _, op := range p.Post {
		if res[op.ID] != nil {
			o.Fired["reentrant-"+op.K]++
			fired++
		}
	}
	o.Key ^= o.Digest
	o.Nontrivial = fired > 0
}
