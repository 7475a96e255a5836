package main

import (
	"errors"
	"fmt"
	"io/fs"
	"slices"
	"sort"
	"strings"
	"time"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/humanize"
	"github.com/vorlif/spreak/zz_verif/simrt"
)

// Scenarios about loading: C04 (storage failures surface), C07 (files are closed),
// C08 (languages load as declared), C09 (candidate order), C10 (rebuild after
// failures), C11 (concurrent builds).

func init() {
	scenarios["C04"] = &scenario{genC04, runLoads}
	scenarios["C07"] = &scenario{genC07, runLoads}
	scenarios["C08"] = &scenario{genC08, runLoads}
	scenarios["C09"] = &scenario{genC09, runLoads}
	scenarios["C10"] = &scenario{genC10, runLoads}
	scenarios["C11"] = &scenario{genC11, runLoads}
}

// ---- humanizer collections ----

var humLangs = []string{"de", "fr", "es", "pl", "ja", "cs"}
var humWords = []string{"today", "tomorrow", "yesterday"}

type humParts struct {
	langs []string
	data  []*humanize.LocaleData
	opts  []humanize.Option
}

func humPath(lang string) string { return lang + "/django.po" }

func (w *World) makeHum() *humParts {
	h := &humParts{}
	files := w.fileMap()
	for _, f := range w.Files {
		lang, ok := strings.CutSuffix(f.Path, "/django.po")
		if !ok || slices.Contains(h.langs, lang) {
			continue
		}
		h.langs = append(h.langs, lang)
	}
	sort.Strings(h.langs)
	// a language without a file
	for _, o := range w.Opts {
		if o.K == "humextra" && !slices.Contains(h.langs, o.V[0]) {
			h.langs = append(h.langs, o.V[0])
		}
	}
	for _, l := range h.langs {
		m := map[string][]byte{}
		if d, ok := files[humPath(l)]; ok {
			m["django.po"] = d
		}
		h.data = append(h.data, &humanize.LocaleData{Lang: language.MustParse(l), Fs: newFS(m, w.FS)})
		for _, o := range w.Opts { // the same data twice
			if o.K == "humdup" {
				h.data = append(h.data, h.data[len(h.data)-1])
				break
			}
		}
	}
	h.opts = append(h.opts, humanize.WithLocale(h.data...))
	return h
}

func (w *World) humText(lang, word string) string {
	for _, f := range w.Files {
		if f.Path == humPath(lang) {
			c := &w.Cats[f.Cat]
			for i := range c.Msgs {
				if c.Msgs[i].ID == word {
					return c.text(&c.Msgs[i], "0")
				}
			}
		}
	}
	return word
}

var simBase = time.Date(2024, 5, 15, 12, 0, 0, 0, time.UTC)

func (h *humParts) vals(c *humanize.Collection) []string {
	var r []string
	for _, l := range h.langs {
		hz := c.CreateHumanizer(language.MustParse(l))
		for i, w := range humWords {
			_ = w
			r = append(r, hz.NaturalDay(simBase.AddDate(0, 0, []int{0, 1, -1}[i])))
		}
	}
	return r
}

func (h *humParts) want(w *World) []string {
	var r []string
	for _, l := range h.langs {
		for _, word := range humWords {
			r = append(r, w.humText(l, word))
		}
	}
	return r
}

func genHumWorld(r *simrt.Rand) *World {
	w := &World{FS: r.Intn(16)}
	n := 1 + r.Intn(4)
	for i := 0; i < n; i++ {
		l := humLangs[(r.Intn(2)+i)%len(humLangs)]
		c := Cat{Tag: l, Fmt: "po", Mark: fmt.Sprintf("%s#%d", l, i), Hdr: r.Intn(3)}
		words := slices.Clone(humWords)
		for k := range words {
			j := r.Intn(k + 1)
			words[k], words[j] = words[j], words[k]
		}
		for _, m := range words {
			c.Msgs = append(c.Msgs, Msg{ID: m})
		}
		for k := r.Intn(20); k > 0; k-- {
			c.Msgs = append(c.Msgs, Msg{ID: fmt.Sprintf("filler %d", k)})
		}
		if r.Chance(1, 3) {
			slices.Reverse(c.Msgs)
		}
		if r.Chance(1, 8) {
			c.Pad = 1000 + r.Intn(100000)
		}
		dup := false
		for _, f := range w.Files {
			dup = dup || f.Path == humPath(l)
		}
		if dup {
			continue
		}
		w.Cats = append(w.Cats, c)
		w.Files = append(w.Files, File{Path: humPath(l), Cat: len(w.Cats) - 1})
	}
	if r.Chance(1, 3) {
		w.Opts = append(w.Opts, Opt{"humextra", []string{"it"}})
	}
	if r.Chance(1, 6) {
		w.Opts = append(w.Opts, Opt{K: "humdup"})
	}
	return w
}

// ---- environment ----

type loadEnv struct {
	p      *Plan
	w      *World
	parts  *parts
	mb     *mBundle
	hum    *humParts
	base   *spreak.Bundle
	events int
	built  [simrt.MaxRoots + 2][]*spreak.Bundle
	want   []string
	faults []Fault
}

type loadExtra struct {
	leaks   []string
	vanHit  bool
	skipped bool
}

// buildVals describes a finished bundle.
func (e *loadEnv) buildVals(t *tstate, b *spreak.Bundle) []string {
	r := []string{"domains " + strings.Join(sorted(b.Domains()), ","), "languages " + strings.Join(tagStrings(b.SupportedLanguages()), ",")}
	for i := range e.w.Loaders {
		l := &e.w.Loaders[i]
		if l.direct() {
			continue
		}
		m := e.parts.caps[i].cats[t.idx]
		tags := make([]string, 0, len(m))
		for tag := range m {
			tags = append(tags, tag)
		}
		sort.Strings(tags)
		for _, tag := range tags {
			r = append(r, tag+"/"+l.Dom+"\n"+contentOf(m[tag]))
		}
	}
	return r
}

func (e *loadEnv) wantVals() []string {
	if e.mb.fails != "" {
		return nil
	}
	r := []string{"domains " + strings.Join(e.mb.domainList(), ","), "languages " + strings.Join(e.mb.langList(), ",")}
	for i := range e.w.Loaders {
		l := &e.w.Loaders[i]
		if l.direct() {
			continue
		}
		m := map[string]*mCat{}
		for tag, loc := range e.mb.locales {
			if c := loc.cats[l.Dom]; c != nil {
				m[tag.String()] = c
			}
		}
		var tags []string
		for tag := range m {
			tags = append(tags, tag)
		}
		sort.Strings(tags)
		for _, tag := range tags {
			r = append(r, tag+"/"+l.Dom+"\n"+m[tag].wantContent())
		}
	}
	return r
}

func newLoadEnv(p *Plan) *loadEnv {
	e := &loadEnv{p: p, w: p.World}
	if p.N["hum"] == 1 {
		e.hum = p.World.makeHum()
		e.want = e.hum.want(p.World)
		return e
	}
	e.parts = makeParts(p.World)
	e.mb = modelBuild(p.World)
	e.want = e.wantVals()
	return e
}

// buildOnce constructs a bundle or collection and describes it.
func (e *loadEnv) buildOnce(t *tstate, r *opRes) {
	n := len(t.files)
	x := &loadExtra{}
	r.Extra = x
	defer func() {
		x.vanHit = t.vanHit
		for _, f := range t.files[n:] {
			x.leaks = append(x.leaks, f.problem()...)
		}
	}()
	r.HasErr = true
	if e.hum != nil {
		c, err := humanize.New(e.hum.opts...)
		r.Err = err
		if err == nil {
			r.Vals = e.hum.vals(c)
		}
		return
	}
	for _, c := range e.parts.caps {
		c.cats[t.idx] = nil
	}
	b, err := e.parts.build()
	r.Err = err
	if err == nil {
		r.Vals = e.buildVals(t, b)
		e.built[t.idx] = append(e.built[t.idx], b)
	}
}

func (f *simFile) problem() []string {
	var r []string
	if f.closed != 1 {
		r = append(r, fmt.Sprintf("%s was closed %d times", f.path, f.closed))
	}
	if f.bad != "" {
		r = append(r, fmt.Sprintf("%s: %s", f.path, f.bad))
	}
	return r
}

func (e *loadEnv) exec(t *tstate, op Op) {
	p := e.p
	switch op.K {
	case "build":
		t.do(p, op, func(r *opRes) { e.buildOnce(t, r) })
	case "blook":
		t.do(p, op, func(r *opRes) {
			bs := e.built[t.idx]
			if e.base != nil {
				bs = append([]*spreak.Bundle{e.base}, bs...)
			}
			if len(bs) == 0 {
				r.Extra = &loadExtra{skipped: true}
				return
			}
			z := makeLocz(bs[op.A[2]%len(bs)], locSpec(p.Setup[op.A[0]]))
			realLook(z, decodeLook(op), r)
		})
	case "load":
		t.do(p, op, func(r *opRes) {
			n := len(t.files)
			x := &loadExtra{}
			r.Extra = x
			defer func() {
				x.vanHit = t.vanHit
				for _, f := range t.files[n:] {
					x.leaks = append(x.leaks, f.problem()...)
				}
			}()
			c, err := e.parts.caps[op.A[0]].inner.Load(language.MustParse(op.S[0]), e.w.Loaders[op.A[0]].Dom)
			r.Err, r.HasErr = err, true
			if err == nil {
				r.Vals = []string{contentOf(c)}
			}
		})
	}
}

// required returns the failure that the operation must surface, if any.
func (r *opRes) required() *fired {
	for i := range r.Fired {
		if !r.Fired[i].soft {
			return &r.Fired[i]
		}
	}
	return nil
}

func (r *opRes) surfaces(f *fired) bool {
	if r.Panic != "" {
		return r.Panic == "injected:"+f.err.ID
	}
	return r.Err != nil && isInjected(r.Err, f.err)
}

const (
	ckErr    = 1 // failures surface
	ckResult = 2 // outcome and content
	ckCB     = 4
	ckFiles  = 8
)

// checkBuild judges one construction.
func (e *loadEnv) checkBuild(o *Outcome, what int, op Op, r *opRes) {
	o.Evals++
	if r == nil || !r.Done {
		o.violate("lost-operation", "build %d did not finish", op.ID)
		return
	}
	x := r.Extra.(*loadExtra)
	if what&ckFiles != 0 && len(x.leaks) > 0 {
		o.violate("file-handling", "build %d (faults %s): %s", op.ID, firedText(r), strings.Join(x.leaks, "; "))
		return
	}
	o.note(r.Vals...)
	o.note(canon(r.Err), r.Panic)
	o.note(sorted(r.CB)...)
	if what&^ckFiles == 0 {
		return
	}
	if e.hum != nil { // fs.ReadFile ignores failures to close and to learn the size
		for i := range r.Fired {
			if r.Fired[i].kind == "fstat" || r.Fired[i].kind == "close" {
				r.Fired[i].soft = true
			}
		}
	}
	req := r.required()
	if r.Panic != "" && !strings.HasPrefix(r.Panic, "injected:") {
		o.violate("panic", "build %d panicked: %s", op.ID, r.Panic)
		return
	}
	if req != nil {
		for i := range r.Fired { // a later panic replaces an earlier failure
			if r.Panic == "injected:"+r.Fired[i].err.ID {
				return
			}
		}
		if what&ckErr != 0 && !r.surfaces(req) {
			got := fmt.Sprintf("error %v", r.Err)
			if r.Panic != "" {
				got = "panic " + r.Panic
			}
			o.violate("swallowed-failure", "build %d: the failing %s of %q (%s) is not reported; got %s", op.ID, req.kind, req.path, req.err.ID, got)
		}
		return
	}
	if len(r.Fired) > 0 && (r.Err != nil || r.Panic != "") {
		for i := range r.Fired {
			if r.surfaces(&r.Fired[i]) {
				return
			}
		}
	}
	if what&ckResult == 0 {
		return
	}
	fails := ""
	if e.mb != nil {
		fails = e.mb.fails
	}
	if fails != "" {
		if r.Err == nil {
			o.violate("wrong-outcome", "build %d succeeded but must fail: %s", op.ID, fails)
		}
		return
	}
	if r.Err != nil {
		o.violate("wrong-outcome", "build %d failed: %v (faults %s)", op.ID, r.Err, firedText(r))
		return
	}
	if !slices.Equal(r.Vals, e.want) {
		o.violate("wrong-content", "build %d (faults %s): %s", op.ID, firedText(r), diff(r.Vals, e.want))
		return
	}
	if what&ckCB != 0 && e.mb != nil {
		var w []string
		if e.mb.hasCB {
			w = sorted(e.mb.cbs)
		}
		if got := sorted(r.CB); !slices.Equal(got, w) {
			o.violate("wrong-callbacks", "build %d: missing callback got %q, want %q", op.ID, got, w)
		}
	}
}

func firedText(r *opRes) string {
	var s []string
	for _, f := range r.Fired {
		s = append(s, f.kind+" "+f.path)
	}
	return "[" + strings.Join(s, ", ") + "]"
}

func diff(got, want []string) string {
	for i := range max(len(got), len(want)) {
		g, w := "(nothing)", "(nothing)"
		if i < len(got) {
			g = got[i]
		}
		if i < len(want) {
			w = want[i]
		}
		if g != w {
			return fmt.Sprintf("got %q, want %q", clip(g), clip(w))
		}
	}
	return "equal"
}

func clip(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

// checkLook judges a lookup on one of the bundles of the history.
func (e *loadEnv) checkLook(o *Outcome, op Op, r *opRes) {
	if r == nil || !r.Done {
		o.violate("lost-operation", "operation %d did not finish", op.ID)
		return
	}
	if x, ok := r.Extra.(*loadExtra); ok && x.skipped {
		return
	}
	o.note(r.Vals...)
	k := decodeLook(op)
	compareLook(o, cmpText|cmpErr, op, r, expectLook(e.mb.localizer(locSpec(e.p.Setup[op.A[0]])), k, e.p.faultsOf(op.ID)))
}

// checkLoad judges a direct load (C09, C07).
func (e *loadEnv) checkLoad(o *Outcome, what int, op Op, r *opRes) {
	o.Evals++
	if r == nil || !r.Done {
		o.violate("lost-operation", "load %d did not finish", op.ID)
		return
	}
	x := r.Extra.(*loadExtra)
	if what&ckFiles != 0 && len(x.leaks) > 0 {
		o.violate("file-handling", "load %d of %q (faults %s): %s", op.ID, op.S, firedText(r), strings.Join(x.leaks, "; "))
		return
	}
	o.note(r.Vals...)
	o.note(canon(r.Err), r.Panic)
	if what&ckResult == 0 {
		return
	}
	if r.Panic != "" {
		o.violate("panic", "load %d %q panicked: %s", op.ID, op.S, r.Panic)
		return
	}
	l := &e.w.Loaders[op.A[0]]
	tag := language.MustParse(op.S[0])
	want := e.w.find(l, tag)
	if x.vanHit && want != nil {
		want = nil
		for _, f := range e.w.Files {
			if f.Broken > 0 {
				return // another candidate may be the broken one
			}
		}
	}
	if want != nil && want.broken {
		var nf *spreak.ErrNotFound
		if r.Err == nil || errors.As(r.Err, &nf) {
			o.violate("wrong-file", "load %d of %q: got %s, error %v, but the first candidate %s is broken", op.ID, op.S, clip(strings.Join(r.Vals, "")), r.Err, want.path)
		}
		return
	}
	if r.Err != nil {
		var nf *spreak.ErrNotFound
		if !errors.As(r.Err, &nf) {
			o.violate("wrong-error", "load %d of %q failed with %v", op.ID, op.S, r.Err)
			return
		}
	}
	if !x.vanHit {
		w := e.w.find(l, tag)
		switch {
		case w == nil && r.Err == nil:
			o.violate("wrong-file", "load %d of %q served %s although no candidate exists", op.ID, op.S, clip(strings.Join(r.Vals, "")))
		case w != nil && r.Err != nil:
			o.violate("wrong-file", "load %d of %q found nothing, want %s", op.ID, op.S, w.path)
		case w != nil && r.Vals[0] != w.wantContent():
			o.violate("wrong-file", "load %d of %q: want %s, got %s", op.ID, op.S, w.path, diff(r.Vals, []string{w.wantContent()}))
		}
		return
	}
	if r.Err != nil {
		return
	}
	byPath := map[string]int{}
	for i, f := range e.w.Files {
		byPath[f.Path] = i
	}
	for _, c := range l.candidates(tag) {
		if i, ok := byPath[c.path]; ok {
			mc := &mCat{cat: &e.w.Cats[e.w.Files[i].Cat], lang: tag, dom: l.Dom}
			if mc.wantContent() == r.Vals[0] {
				return
			}
		}
	}
	o.violate("wrong-file", "load %d of %q served something that is no candidate: %s", op.ID, op.S, clip(r.Vals[0]))
}

func runLoads(p *Plan, o *Outcome) {
	q := *p
	q.Faults = slices.Clone(p.Faults)
	p = &q
	if p.Sched.Max == 0 { // long files in small pieces, several builds
		p.Sched.Max = 60_000_000
	}
	simrt.ClockSet(simBase, 0)
	defer simrt.ClockOff()
	e := newLoadEnv(p)
	if e.parts != nil && e.parts.err != nil {
		o.violate("setup-error", "creating the loaders failed: %v", e.parts.err)
		return
	}
	what := map[string]int{"C04": ckErr | ckResult, "C07": ckFiles, "C08": ckResult | ckCB, "C09": ckResult, "C10": ckErr | ckResult, "C11": ckErr | ckResult | ckCB}[p.Prop]
	if p.N["base"] == 1 {
		t := ts[0]
		r := &opRes{}
		pan, hung := solo(30_000_000, func() {
			t.begin(p, Op{ID: -2})
			e.buildOnce(t, r)
		})
		r.Done = true
		if pan != "" || hung {
			o.violate("panic", "a fault-free build: %s", pan)
			return
		}
		r.CB = t.cb
		e.events = t.ev
		t.op = -1
		e.checkBuild(o, what, Op{ID: -2, K: "build"}, r)
		if o.V != nil {
			return
		}
		if e.hum == nil && len(e.built[0]) > 0 {
			e.base = e.built[0][0]
			e.built[0] = nil
		}
		for i := range p.Faults {
			if p.Faults[i].Kind == "" && e.events > 0 {
				p.Faults[i].Nth %= e.events
			}
		}
	}
	ok := runTasks(p, o, func(t *tstate, op Op) { e.exec(t, op) })
	countFired(o)
	if !ok {
		return
	}
	res := resByID()
	fired, builds := 0, 0
	check := func(op Op) {
		if o.V != nil {
			return
		}
		r := res[op.ID]
		switch op.K {
		case "build":
			builds++
			e.checkBuild(o, what, op, r)
		case "load":
			e.checkLoad(o, what, op, r)
			if r != nil && r.Extra != nil && r.Extra.(*loadExtra).vanHit {
				o.Fired["vanish"]++
				fired++
			}
		case "blook":
			if what&ckResult != 0 {
				e.checkLook(o, op, r)
			}
		}
		if r != nil {
			fired += len(r.Fired)
			o.Key = o.Key*31 + hashStr(firedText(r)+canon(r.Err))
		}
	}
	for _, ops := range p.Tasks {
		for _, op := range ops {
			check(op)
		}
	}
	// files are still closed exactly once at the end
	if o.V == nil && what&ckFiles != 0 {
		for _, t := range ts {
			for _, f := range t.files {
				if pr := f.problem(); len(pr) > 0 {
					o.violate("file-handling", "at the end: %s", strings.Join(pr, "; "))
				}
			}
		}
	}
	o.Key ^= o.Digest
	switch p.Prop {
	case "C08":
		o.Nontrivial = e.mb.fails != "" || len(e.mb.cbs) > 0
	case "C09":
		o.Nontrivial = true
	case "C11":
		o.Nontrivial = o.Preempts > 0
	default:
		o.Nontrivial = fired > 0
	}
}

// ---- generators ----

var loadKinds = []string{"stat", "open", "fstat", "read", "read", "readfile", "seek", "close", "load", "decode", "resolve"}

// genLoadFault draws a storage fault of an operation.
func genLoadFault(r *simrt.Rand, op int, byCount bool, panics int) Fault {
	f := Fault{Op: op, Err: pickS(r, errKinds...), N: pickI(r, 0, 0, 0, 1, 7, 100, 4000)}
	if byCount && r.Chance(1, 2) {
		f.Nth = r.Intn(1 << 20)
	} else {
		f.Kind = pickS(r, loadKinds...)
		f.Nth = pickI(r, 0, 0, 0, 1, 1, 2, 3, 5, 8)
	}
	if r.Intn(100) < panics {
		f.Err = "panic"
	}
	return f
}

func genBuildLook(r *simrt.Rand, p *Plan, id int) Op {
	op := genLook(r, p.World, id, len(p.Setup))
	op.K = "blook"
	op.A = append(op.A, r.Intn(8))
	return op
}

func genSetupLocs(r *simrt.Rand, p *Plan, id *int, n int) {
	for i := 0; i < n; i++ {
		p.Setup = append(p.Setup, genLoc(r, p.World, *id))
		*id++
	}
}

func padSome(r *simrt.Rand, w *World) {
	for i := range w.Cats {
		if r.Chance(1, 12) {
			w.Cats[i].Pad = 500 + r.Intn(80000)
		}
	}
}

func genC04(r *simrt.Rand, tier string) *Plan {
	id := 1
	if r.Chance(1, 4) {
		p := &Plan{World: genHumWorld(r), MapSeed: r.Next(), Sched: Sched{Mode: simrt.ModeOps, Seed: r.Next()}, N: map[string]int{"hum": 1, "base": 1}}
		var ops []Op
		for i := 2 + r.Intn(4); i > 0; i-- {
			ops = append(ops, Op{ID: id, K: "build"})
			for k := pickI(r, 0, 1, 1, 1, 2); k > 0; k-- {
				p.Faults = append(p.Faults, genLoadFault(r, id, true, 0))
			}
			id++
		}
		p.Tasks = [][]Op{ops}
		return p
	}
	p := genBase(r, worldOpts{presence: 80})
	padSome(r, p.World)
	p.N["base"] = 1
	p.Sched = Sched{Mode: simrt.ModeOps, Seed: r.Next()}
	genSetupLocs(r, p, &id, 2)
	var ops []Op
	for i := 2 + r.Intn(5); i > 0; i-- {
		ops = append(ops, Op{ID: id, K: "build"})
		for k := pickI(r, 0, 1, 1, 1, 1, 2, 3); k > 0; k-- {
			p.Faults = append(p.Faults, genLoadFault(r, id, true, 0))
		}
		id++
		if r.Chance(1, 2) {
			ops = append(ops, genBuildLook(r, p, id))
			id++
		}
	}
	p.Tasks = [][]Op{ops}
	return p
}

func genC07(r *simrt.Rand, tier string) *Plan {
	id := 1
	var p *Plan
	hum := r.Chance(1, 5)
	if hum {
		p = &Plan{World: genHumWorld(r), MapSeed: r.Next(), Sched: genSched(r), N: map[string]int{"hum": 1, "base": 1}}
	} else {
		p = genBase(r, worldOpts{presence: 80, allowFail: true, allowFB: r.Chance(1, 3)})
		p.N["base"] = 1
	}
	nt := 1 + r.Intn(3)
	for t := 0; t < nt; t++ {
		var ops []Op
		for i := 1 + r.Intn(4); i > 0; i-- {
			op := Op{ID: id, K: "build"}
			if !hum && r.Chance(1, 3) {
				op = Op{ID: id, K: "load", A: []int{r.Intn(len(p.World.Loaders))}, S: []string{baseTags[r.Intn(len(baseTags))]}}
			}
			ops = append(ops, op)
			for k := pickI(r, 0, 1, 1, 1, 2, 3); k > 0; k-- {
				p.Faults = append(p.Faults, genLoadFault(r, id, true, 30))
			}
			if r.Chance(1, 6) && len(p.World.Files) > 0 {
				p.Faults = append(p.Faults, Fault{Op: id, Kind: "vanish", Path: p.World.Files[r.Intn(len(p.World.Files))].Path, Nth: r.Intn(40)})
			}
			id++
		}
		p.Tasks = append(p.Tasks, ops)
	}
	return p
}

func genC08(r *simrt.Rand, tier string) *Plan {
	id := 1
	p := genBase(r, worldOpts{presence: pickI(r, 50, 70, 85, 95, 100), allowFail: true, allowFB: r.Chance(1, 4), minDoms: 1 + r.Intn(3)})
	w := p.World
	p.Sched = Sched{Mode: simrt.ModeOps, Seed: r.Next()}
	for i := range w.Loaders {
		for _, t := range baseTags {
			if r.Chance(1, 60) {
				w.Loaders[i].Verdict = append(w.Loaders[i].Verdict, t+"="+pickS(r, "notfound", "notfound", "wrapped", "wrapped", "joined", "other", "fail"))
			}
		}
	}
	if r.Chance(1, 12) { // invalid languages
		for k := 0; k < 3; k++ {
			o := &w.Opts[r.Intn(len(w.Opts))]
			if o.K == "lang" || o.K == "req" {
				i := r.Intn(len(o.V) + 1)
				o.V = slices.Insert(o.V, i, pickS(r, "!bad", "not a language", "x_", "=und", ""))
			}
		}
	}
	if r.Chance(1, 30) { // a domain configured twice
		w.Opts = append(w.Opts, Opt{"dom", []string{"0"}})
	}
	genSetupLocs(r, p, &id, 3)
	var ops []Op
	for k := 1 + r.Intn(2); k > 0; k-- {
		ops = append(ops, Op{ID: id, K: "build"})
		id++
		for i := 0; i < 4; i++ {
			ops = append(ops, genBuildLook(r, p, id))
			id++
		}
	}
	p.Tasks = [][]Op{ops}
	return p
}

var c09Tags = []string{"de", "de-AT", "en-GB", "zh-Hant", "zh-Hant-TW", "zh", "pt-BR", "sr-Latn-RS", "sr", "es-419", "fr-CA", "az-Cyrl", "en-US-u-ca-buddhist", "gsw", "fil", "uz-Arab-AF"}

func genC09(r *simrt.Rand, tier string) *Plan {
	w := &World{FS: r.Intn(16)}
	p := &Plan{World: w, MapSeed: r.Next(), Sched: Sched{Mode: simrt.ModeOps, Seed: r.Next()}, N: map[string]int{}}
	sep := byte('-')
	if r.Chance(1, 2) {
		sep = '_'
	}
	other := string('-' + '_' - sep)
	used := map[string]bool{}
	var tags []string
	for i := 1 + r.Intn(2); i > 0; i-- {
		tags = append(tags, pickS(r, c09Tags...))
	}
	for i := 0; i < 1+r.Intn(2); i++ {
		l := Loader{Dom: []string{"app", "", "web"}[(i+r.Intn(2))%3]}
		l.Exts = [][]string{nil, {"po"}, {"mo", "po"}, {"json", "po"}, {"po", "cldrpo"}, {"json", "mo"}, {"cldrmo", "json", "po"}}[r.Intn(7)]
		l.Category = pickS(r, "", "", "LC_MESSAGES", "cat", "a/b")
		l.NoSearch = r.Chance(1, 4)
		l.Wrap = pickI(r, 0, 0, 2, 4, 16, 32, 36)
		w.Loaders = append(w.Loaders, l)
		for _, t := range tags {
			tag := language.MustParse(t)
			full := l
			full.NoSearch = false
			cs := full.candidates(tag)
			for _, extra := range []string{"po", "mo", "json"} { // files of formats that are not configured
				x := full
				x.Exts = []string{extra}
				cs = append(cs, x.candidates(tag)...)
			}
			for n := pickI(r, 0, 1, 2, 2, 3, 5, 8); n > 0; n-- {
				c := cs[r.Intn(len(cs))]
				name := strings.ReplaceAll(c.path, "LC_MESSAGES", "")
				if used[c.path] || strings.Contains(name, other) && strings.Contains(name, string(sep)) || strings.Contains(name, other) && c.path != "" && !strings.HasPrefix(tag.String(), "en-US-u") {
					continue
				}
				used[c.path] = true
				format := strings.TrimPrefix(c.dec, "cldr")
				cat := genCat(r, "en", format, fmt.Sprintf("f%d", len(w.Cats)), 30)
				cat.Msgs = slices.DeleteFunc(cat.Msgs, func(m Msg) bool { return m.Plural != "" })
				if len(cat.Msgs) == 0 {
					cat.Msgs = []Msg{msgPool[0]}
				}
				w.Cats = append(w.Cats, cat)
				f := File{Path: c.path, Cat: len(w.Cats) - 1}
				if r.Chance(1, 30) {
					f.Broken = 4
				}
				w.Files = append(w.Files, f)
			}
		}
	}
	var ops []Op
	id := 1
	for i := 2 + r.Intn(5); i > 0; i-- {
		ops = append(ops, Op{ID: id, K: "load", A: []int{r.Intn(len(w.Loaders))}, S: []string{pickS(r, tags...)}})
		if r.Chance(1, 2) && len(w.Files) > 0 {
			for k := 1 + r.Intn(2); k > 0; k-- {
				p.Faults = append(p.Faults, Fault{Op: id, Kind: "vanish", Path: w.Files[r.Intn(len(w.Files))].Path, Nth: r.Intn(pickI(r, 3, 12, 60))})
			}
		}
		id++
	}
	p.Tasks = [][]Op{ops}
	return p
}

func genC10(r *simrt.Rand, tier string) *Plan {
	id := 1
	if r.Chance(1, 5) {
		p := &Plan{World: genHumWorld(r), MapSeed: r.Next(), Sched: Sched{Mode: simrt.ModeOps, Seed: r.Next()}, N: map[string]int{"hum": 1, "base": 1}}
		var ops []Op
		for i := 2 + r.Intn(5); i > 0; i-- {
			ops = append(ops, Op{ID: id, K: "build"})
			if r.Chance(1, 2) {
				p.Faults = append(p.Faults, genLoadFault(r, id, true, 30))
			}
			id++
		}
		ops = append(ops, Op{ID: id, K: "build"})
		p.Tasks = [][]Op{ops}
		return p
	}
	p := genBase(r, worldOpts{presence: 80})
	p.N["base"] = b2i(r.Chance(2, 3))
	p.Sched = Sched{Mode: simrt.ModeOps, Seed: r.Next()}
	genSetupLocs(r, p, &id, 3)
	var ops []Op
	for i := 2 + r.Intn(6); i > 0; i-- {
		ops = append(ops, Op{ID: id, K: "build"})
		if r.Chance(2, 3) {
			for k := 1 + r.Intn(2); k > 0; k-- {
				f := genLoadFault(r, id, p.N["base"] == 1, 35)
				if r.Chance(1, 6) {
					f = Fault{Op: id, Kind: "callback", Err: "panic", Nth: r.Intn(3)}
				}
				p.Faults = append(p.Faults, f)
			}
		}
		id++
		for k := r.Intn(4); k > 0; k-- {
			ops = append(ops, genBuildLook(r, p, id))
			id++
		}
	}
	ops = append(ops, Op{ID: id, K: "build"})
	id++
	for k := 2; k > 0; k-- {
		ops = append(ops, genBuildLook(r, p, id))
		id++
	}
	p.Tasks = [][]Op{ops}
	return p
}

func genC11(r *simrt.Rand, tier string) *Plan {
	id := 1
	p := genBase(r, worldOpts{presence: 80, allowFail: r.Chance(1, 8), allowFB: r.Chance(1, 10)})
	p.N["base"] = b2i(r.Chance(1, 2))
	genSetupLocs(r, p, &id, 2)
	nt := 2 + r.Intn(3)
	for t := 0; t < nt; t++ {
		var ops []Op
		for i := 1 + r.Intn(2); i > 0; i-- {
			ops = append(ops, Op{ID: id, K: "build"})
			if r.Chance(1, 4) {
				p.Faults = append(p.Faults, genLoadFault(r, id, p.N["base"] == 1, 15))
			}
			id++
			for k := r.Intn(4); k > 0; k-- {
				ops = append(ops, genBuildLook(r, p, id))
				id++
			}
		}
		p.Tasks = append(p.Tasks, ops)
	}
	return p
}

var _ fs.FS
var _ catalog.Catalog
