package main

import (
	"fmt"
	"slices"
	"sort"
	"strings"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/catalog/cldrplural"
	"github.com/vorlif/spreak/catalog/poplural"
	"github.com/vorlif/spreak/zz_verif/simrt"
)

// Scenarios on a finished bundle: C01 (concurrent lookups), C02 (fallback chain),
// C03 (callbacks).

func init() {
	scenarios["C01"] = &scenario{genC01, runLookups}
	scenarios["C02"] = &scenario{genC02, runLookups}
	scenarios["C03"] = &scenario{genC03, runLookups}
}

func genBase(r *simrt.Rand, wo worldOpts) *Plan {
	p := &Plan{World: genWorld(r, wo), MapSeed: r.Next(), Sched: genSched(r), N: map[string]int{}}
	return p
}

func genC01(r *simrt.Rand, tier string) *Plan {
	p := genBase(r, worldOpts{defaults: true})
	nloc := 1 + r.Intn(4)
	id := 1
	for i := 0; i < nloc; i++ {
		p.Setup = append(p.Setup, genLoc(r, p.World, id))
		id++
	}
	nt := 2 + r.Intn(4)
	nops := 3 + r.Intn(10)
	same := r.Chance(1, 3) // tasks perform the same lookups
	var first []Op
	for t := 0; t < nt; t++ {
		var ops []Op
		for i := 0; i < nops; i++ {
			if same && t > 0 {
				op := first[i]
				op.ID = id
				id++
				ops = append(ops, op)
				continue
			}
			switch r.Intn(14) {
			case 0:
				op := genLoc(r, p.World, id)
				op.K = "newloc"
				lk := genLook(r, p.World, 0, 1)
				op.A = append(op.A, lk.A...)
				op.S = append([]string{fmt.Sprint(len(op.S))}, append(op.S, lk.S...)...)
				ops = append(ops, op)
			case 1:
				ops = append(ops, Op{ID: id, K: "list", A: []int{r.Intn(nloc)}, S: []string{pickS(r, "", "app", "web", "zzz"), pickS(r, append(baseTags, "sw", "zh-TW")...)}})
			case 2, 3:
				ops = append(ops, genPlural(r, id))
			case 4:
				m := msgPool[r.Intn(len(msgPool))]
				ops = append(ops, Op{ID: id, K: "cat", A: []int{r.Intn(16), r.Intn(4)}, S: []string{m.Ctx, m.ID, fmt.Sprint(counts[r.Intn(len(counts))])}})
			case 5:
				ops = append(ops, Op{ID: id, K: "print", A: []int{r.Intn(nloc)}, S: []string{"%d and %s", fmt.Sprint(counts[r.Intn(len(counts))])}})
			default:
				ops = append(ops, genLook(r, p.World, id, nloc))
			}
			id++
		}
		if t == 0 {
			first = ops
		}
		p.Tasks = append(p.Tasks, ops)
	}
	return p
}

var formulas = []string{
	"nplurals=2; plural=(n != 1);", "nplurals=1; plural=0;", "nplurals=3; plural=(n==1 ? 0 : n%10>=2 && n%10<=4 && (n%100<12 || n%100>14) ? 1 : 2);",
	"nplurals=2; plural=n > 41 || n == 7;", "nplurals=4; plural=n%4;", "nplurals=3; plural=(n%7 == 2 ? 2 : n < 3 && n != 1 ? 1 : 0);",
	oddRules[0].formula, oddRules[1].formula, oddRules[3].formula,
}

var formulaFuncs = []func(n int64) int{
	func(n int64) int { return b2i(n != 1) }, func(n int64) int { return 0 }, func(n int64) int { return slav(n, n == 1) },
	func(n int64) int { return b2i(n > 41 || n == 7) }, func(n int64) int { return int(n % 4) },
	func(n int64) int {
		if n%7 == 2 {
			return 2
		}
		if n < 3 && n != 1 {
			return 1
		}
		return 0
	},
	oddRules[0].form, oddRules[1].form, oddRules[3].form,
}

func pluralCount(op Op) lookOp {
	return lookOp{n: int64(op.A[2]), ntype: op.A[3], frac: op.S[1]}
}

// compact is a number as it is written in compact notation: 1.5c6 is 1.5 million.
func compact(op Op) string {
	s := fmt.Sprint(op.A[2])
	if op.S[1] != "" {
		s += "." + op.S[1]
	}
	return s + "c" + fmt.Sprint(op.A[3])
}

// compactCat is its CLDR category.
func compactCat(pl *plang, op Op) string {
	n, frac, e := op.A[2], op.S[1], op.A[3]
	if e > 400 {
		return "unusable"
	}
	for ; e > 0; e-- {
		n *= 10
		if frac != "" {
			n += int(frac[0] - '0')
			frac = frac[1:]
		}
	}
	if base, _, _ := strings.Cut(pl.tag, "-"); op.A[3] > 0 && (base == "fr" || base == "es") {
		if c := pl.catF(int64(n), frac); op.A[3] > 5 && c != "one" {
			return "many"
		}
		if frac == "" && n > 0 && n%1_000_000 == 0 {
			return "other" // only without exponent
		}
	}
	return pl.catF(int64(n), frac)
}

func genPlural(r *simrt.Rand, id int) Op {
	if r.Chance(1, 5) { // compact numbers
		return Op{ID: id, K: "plural", A: []int{3, 0, pickI(r, 0, 1, 1, 2, 3, 12, 21, 100), pickI(r, 0, 0, 1, 2, 3, 3, 5, 6, 6, 7, 9, 2_000_000_000)},
			S: []string{pickS(r, "fr", "fr", "es", plangList[r.Intn(len(plangList))].tag), pickS(r, "", "", "5", "25", "0")}}
	}
	if r.Chance(1, 8) { // texts that may or may not count as numbers
		return Op{ID: id, K: "plural", A: []int{4, r.Intn(len(formulas)), 0, 0}, S: []string{plangList[r.Intn(len(plangList))].tag,
			pickS(r, "1.5e3", "0x1p-2", "Inf", "-Inf", "NaN", "1.99999999999999999999", "c3", "1c-5", "1_000", "+5", ".5", "5.", "-.5c2", "1e400", "1.5c2e1", "1.5e-2", "0c0", ".", "-", "1.c", "1e308", "00", "-0", "१")}}
	}
	return Op{ID: id, K: "plural", A: []int{r.Intn(3), r.Intn(len(formulas)), int(counts[r.Intn(len(counts))]), r.Intn(9)}, S: []string{plangList[r.Intn(len(plangList))].tag, pickS(r, fractions...)}}
}

func genLookups(r *simrt.Rand, p *Plan, maxTasks int, faultPct int, kinds []string) {
	nloc := 1 + r.Intn(4)
	id := 1
	for i := 0; i < nloc; i++ {
		p.Setup = append(p.Setup, genLoc(r, p.World, id))
		id++
	}
	var tags []string
	set := map[string]bool{}
	for _, o := range p.World.Opts {
		if o.K == "fb" || o.K == "lang" || o.K == "req" {
			for _, v := range o.V {
				if t, err := optLang(v); err == nil {
					set[t.String()] = true
				}
			}
		}
	}
	tags = sortedSet(set)
	nt := 1 + r.Intn(maxTasks)
	for t := 0; t < nt; t++ {
		var ops []Op
		for i := 0; i < 4+r.Intn(12); i++ {
			op := genLook(r, p.World, id, nloc)
			for _, tag := range tags {
				if r.Intn(100) < faultPct {
					p.Faults = append(p.Faults, Fault{Op: id, Kind: "cat", Path: tag, Err: pickS(r, kinds...)})
				}
			}
			ops = append(ops, op)
			id++
		}
		p.Tasks = append(p.Tasks, ops)
	}
}

func genC02(r *simrt.Rand, tier string) *Plan {
	p := genBase(r, worldOpts{presence: 75})
	genLookups(r, p, 3, 15, errKinds)
	return p
}

func genC03(r *simrt.Rand, tier string) *Plan {
	p := genBase(r, worldOpts{defaults: true, presence: 75})
	genLookups(r, p, 3, 12, errKinds)
	return p
}

// env is a built bundle with its localizers and the model of both.
type env struct {
	parts *parts
	b     *spreak.Bundle
	mb    *mBundle
	locs  []locz
	mlocs []*mLocalizer
	cats  []catRef
}

type catRef struct {
	cat catalog.Catalog
	m   *mCat
}

// buildEnv constructs the bundle in the coordinator.
func buildEnv(p *Plan, o *Outcome) *env {
	e := &env{parts: makeParts(p.World), mb: modelBuild(p.World)}
	var err error
	pan, hung := solo(20_000_000, func() { e.b, err = e.parts.build() })
	if pan != "" || hung {
		o.violate("setup-panic", "building the bundle: %s", pan)
		return nil
	}
	if e.mb.fails != "" {
		o.Harness = "generated world cannot be built: " + e.mb.fails
		return nil
	}
	if err != nil {
		o.violate("setup-error", "building a fault-free bundle failed: %v", err)
		return nil
	}
	for _, op := range p.Setup {
		if op.K != "loc" {
			continue
		}
		spec := locSpec(op)
		var z locz
		pan, _ := solo(5_000_000, func() { z = makeLocz(e.b, spec) })
		if pan != "" {
			o.violate("panic", "creating a localizer for %q panicked: %s", spec.Langs, pan)
			return nil
		}
		e.locs = append(e.locs, z)
		e.mlocs = append(e.mlocs, e.mb.localizer(spec))
	}
	for i, c := range e.parts.caps {
		for _, m := range c.cats {
			tags := make([]string, 0, len(m))
			for t := range m {
				tags = append(tags, t)
			}
			sort.Strings(tags)
			for _, t := range tags {
				if mc := p.World.find(&p.World.Loaders[i], language.MustParse(t)); mc != nil {
					e.cats = append(e.cats, catRef{m[t], mc})
				}
			}
		}
	}
	return e
}

func (e *env) exec(p *Plan, t *tstate, op Op) {
	switch op.K {
	case "look":
		k := decodeLook(op)
		t.do(p, op, func(r *opRes) { realLook(e.locs[k.loc], k, r) })
	case "newloc":
		t.do(p, op, func(r *opRes) {
			n := atoi(op.S[0])
			z := makeLocz(e.b, locSpec(Op{A: op.A[:2], S: op.S[1 : 1+n]}))
			r.Vals = append(r.Vals, fmt.Sprint(z.l.HasLocale()), z.l.Language().String(), z.l.DefaultDomain())
			realLook(z, decodeLook(Op{A: op.A[2:], S: op.S[1+n:]}), r)
		})
	case "list":
		t.do(p, op, func(r *opRes) {
			z := e.locs[op.A[0]]
			r.Vals = append(r.Vals,
				strings.Join(sorted(e.b.Domains()), ","),
				strings.Join(tagStrings(e.b.SupportedLanguages()), ","),
				fmt.Sprint(e.b.CanLocalize()),
				fmt.Sprint(e.b.IsLanguageSupported(language.MustParse(op.S[1]))),
				fmt.Sprint(z.l.HasDomain(op.S[0])),
				strings.Join(sorted(z.l.Domains()), ","),
				fmt.Sprint(z.l.HasLocale()), z.l.Language().String(), z.l.DefaultDomain())
			_, err := z.l.LocalizeWithError(nil)
			r.Vals = append(r.Vals, fmt.Sprint(err != nil, z.l.LocalizeError(nil) == nil))
		})
	case "plural":
		t.do(p, op, func(r *opRes) {
			n := pluralCount(op).count()
			switch op.A[0] {
			case 0:
				f, ok := poplural.ForLanguage(language.MustParse(op.S[0]))
				i, err := f(n)
				r.Vals = append(r.Vals, fmt.Sprint(i, ok, err))
			case 1:
				rs, ok := cldrplural.ForLanguage(language.MustParse(op.S[0]))
				c, err := rs.Evaluate(n)
				r.Vals = append(r.Vals, fmt.Sprint(strings.ToLower(c.String()), ok, err))
			case 3:
				rs, ok := cldrplural.ForLanguage(language.MustParse(op.S[0]))
				c, err := rs.Evaluate(compact(op))
				if err != nil {
					r.Vals = append(r.Vals, fmt.Sprint("unusable", ok))
					return
				}
				r.Vals = append(r.Vals, fmt.Sprint(strings.ToLower(c.String()), ok))
			case 4: // must not panic
				rs, _ := cldrplural.ForLanguage(language.MustParse(op.S[0]))
				_, _ = rs.Evaluate(op.S[1])
				f, _ := poplural.ForLanguage(language.MustParse(op.S[0]))
				_, _ = f(op.S[1])
				if rule, err := poplural.Parse(formulas[op.A[1]]); err == nil {
					_, _ = rule.Evaluate(op.S[1])
				}
			case 2:
				rule, err := poplural.Parse(formulas[op.A[1]])
				i, e2 := -1, error(nil)
				if err == nil {
					i, e2 = rule.Evaluate(n)
				}
				r.Vals = append(r.Vals, fmt.Sprint(i, err, e2))
			}
		})
	case "cat":
		t.do(p, op, func(r *opRes) {
			if len(e.cats) == 0 {
				return
			}
			c := e.cats[op.A[0]%len(e.cats)].cat
			switch op.A[1] {
			case 0, 1:
				s, err := c.Lookup(op.S[0], op.S[1])
				r.Vals = append(r.Vals, s)
				r.Err = err
			case 2:
				s, err := c.LookupPlural(op.S[0], op.S[1], atoi(op.S[2]))
				r.Vals = append(r.Vals, s)
				r.Err = err
			case 3:
				r.Vals = append(r.Vals, contentOf(c))
			}
		})
	case "print":
		t.do(p, op, func(r *opRes) {
			r.Vals = append(r.Vals, e.locs[op.A[0]].l.Print(op.S[0], atoi(op.S[1]), "x"))
		})
	}
}

// contentOf lists all entries of a catalog.
func contentOf(c catalog.Catalog) string {
	switch x := c.(type) {
	case *catalog.GettextCatalog:
		return messagesText(x.Messages())
	case catalog.JSONCatalog:
		return messagesText(x.Messages())
	}
	return fmt.Sprintf("unknown catalog type %T", c)
}

// messagesText renders what the Messages method of a catalog returned.
func messagesText(msgs any) string {
	var lines []string
	switch x := msgs.(type) {
	case catalog.PoLookupMap:
		for ctx, m := range x {
			for id, msg := range m {
				tr := msg.Translations()
				ks := make([]int, 0, len(tr))
				for k := range tr {
					ks = append(ks, k)
				}
				sort.Ints(ks)
				for _, k := range ks {
					lines = append(lines, fmt.Sprintf("%q/%q[%d]=%q", ctx, id, k, tr[k]))
				}
				if len(ks) == 0 {
					lines = append(lines, fmt.Sprintf("%q/%q", ctx, id))
				}
			}
		}
	case catalog.JSONMessages:
		for key, msg := range x {
			for i, n := range catNames {
				if s, ok := msg.Translations[cldrplural.Category(i)]; ok {
					lines = append(lines, fmt.Sprintf("%q/%q[%s]=%q", msg.Context, key, n, s))
				}
			}
		}
	}
	sort.Strings(lines)
	return strings.Join(lines, "\n")
}

// wantContent is what contentOf must return for a model catalog.
func (c *mCat) wantContent() string {
	var lines []string
	for i := range c.cat.Msgs {
		m := &c.cat.Msgs[i]
		if c.cat.Fmt == "json" {
			for _, n := range c.cat.jsonCats(m) {
				lines = append(lines, fmt.Sprintf("%q/%q[%s]=%q", m.Ctx, c.cat.jsonKey(m), n, c.cat.jsonText(m, n)))
			}
			continue
		}
		if m.Fuzzy {
			continue
		}
		for _, k := range c.cat.forms(m) {
			lines = append(lines, fmt.Sprintf("%q/%q[%s]=%q", m.Ctx, m.ID, k, c.cat.text(m, k)))
		}
	}
	if c.cat.Pad > 0 {
		k := "0"
		if c.cat.Fmt == "json" {
			k = "other"
		}
		lines = append(lines, fmt.Sprintf("%q/%q[%s]=%q", "", "padding", k, c.cat.pad()))
	}
	sort.Strings(lines)
	return strings.Join(lines, "\n")
}

func (b *mBundle) domainList() []string {
	var r []string
	for d := range b.domains {
		r = append(r, d)
	}
	sort.Strings(r)
	return r
}

func (b *mBundle) langList() []string {
	var r []string
	for t := range b.locales {
		r = append(r, t.String())
	}
	sort.Strings(r)
	return r
}

// check judges the result of one operation on the environment.
func (e *env) check(p *Plan, o *Outcome, op Op, r *opRes, what int) {
	if o.V != nil {
		return
	}
	if r == nil || !r.Done {
		o.violate("lost-operation", "operation %d %s did not finish", op.ID, op.K)
		return
	}
	if r.Panic != "" && op.K != "look" {
		o.violate("panic", "op %d %s %v panicked: %s", op.ID, op.K, op.S, r.Panic)
		return
	}
	o.note(r.Vals...)
	o.note(canon(r.Err))
	o.note(r.CB...)
	want := func(what string, w ...string) {
		o.Evals++
		if !slices.Equal(r.Vals, w) {
			o.violate("wrong-"+what, "op %d %s %v %q: got %q, want %q", op.ID, op.K, op.A, op.S, r.Vals, w)
		}
	}
	switch op.K {
	case "look":
		k := decodeLook(op)
		compareLook(o, what, op, r, expectLook(e.mlocs[k.loc], k, p.faultsOf(op.ID)))
	case "newloc":
		n := atoi(op.S[0])
		ml := e.mb.localizer(locSpec(Op{A: op.A[:2], S: op.S[1 : 1+n]}))
		w := []string{fmt.Sprint(ml.found), ml.loc.lang.String(), ml.dom}
		if len(r.Vals) < 3 || !slices.Equal(r.Vals[:3], w) {
			o.violate("wrong-localizer", "op %d newloc %q: got %q, want %q", op.ID, op.S, r.Vals, w)
			return
		}
		k := decodeLook(Op{A: op.A[2:], S: op.S[1+n:]})
		rr := *r
		rr.Vals = r.Vals[3:]
		sub := op
		sub.S = op.S[1+n:]
		compareLook(o, what, sub, &rr, expectLook(ml, k, p.faultsOf(op.ID)))
	case "list":
		ml := e.mlocs[op.A[0]]
		var ld []string
		for d := range ml.loc.cats {
			ld = append(ld, d)
		}
		sort.Strings(ld)
		_, _, conf := e.mb.matcher.Match(language.MustParse(op.S[1]))
		want("listing", strings.Join(e.mb.domainList(), ","), strings.Join(e.mb.langList(), ","),
			fmt.Sprint(len(e.mb.locales) > 0 && len(e.mb.domains) > 0), fmt.Sprint(conf > language.No),
			fmt.Sprint(ml.loc.cats[op.S[0]] != nil), strings.Join(ld, ","), fmt.Sprint(ml.found), ml.loc.lang.String(), ml.dom, "true true")
	case "plural":
		k := pluralCount(op)
		n := nearest(k.n, k.visible())
		pl := plangs[op.S[0]]
		switch op.A[0] {
		case 0:
			want("plural", fmt.Sprint(pl.src(n), true, nil))
		case 1:
			want("plural", fmt.Sprint(pl.catF(k.n, k.visible()), true, nil))
		case 3:
			want("plural", fmt.Sprint(compactCat(pl, op), true))
		case 2:
			want("plural", fmt.Sprint(formulaFuncs[op.A[1]](n), nil, nil))
		}
	case "cat":
		if len(e.cats) == 0 {
			return
		}
		mc := e.cats[op.A[0]%len(e.cats)].m
		switch op.A[1] {
		case 3:
			want("content", mc.wantContent())
		default:
			k := Look{Ctx: op.S[0], ID: op.S[1], N: int64(atoi(op.S[2])), HasPl: op.A[1] == 2}
			text, failing := mc.lookup(k, "")
			if failing != nil {
				if got := canon(r.Err); !matches(got, strings.Join(failing, "|")) {
					o.violate("wrong-error", "op %d catalog lookup %q: got %q, want %q", op.ID, op.S, got, failing)
				}
				return
			}
			if r.Err != nil {
				o.violate("wrong-error", "op %d catalog lookup %q: got %v, want %q", op.ID, op.S, r.Err, text)
				return
			}
			want("text", text)
		}
	case "print":
		ml := e.mlocs[op.A[0]]
		want("print", e.mb.format(ml.loc.lang, op.S[0], []any{atoi(op.S[1]), "x"}))
	}
}

func whatFor(prop string) int {
	switch prop {
	case "C03":
		return cmpCB
	case "C02", "C01":
		return cmpText | cmpErr
	}
	return cmpText | cmpErr | cmpCB
}

func runLookups(p *Plan, o *Outcome) {
	e := buildEnv(p, o)
	if e == nil {
		return
	}
	ok := runTasks(p, o, func(t *tstate, op Op) { e.exec(p, t, op) })
	countFired(o)
	if !ok {
		return
	}
	res := resByID()
	chain := 0
	for _, ops := range p.Tasks {
		for _, op := range ops {
			e.check(p, o, op, res[op.ID], whatFor(p.Prop))
			if op.K == "look" {
				k := decodeLook(op)
				chain |= 1 << expectLook(e.mlocs[k.loc], k, p.faultsOf(op.ID)).level
			}
		}
	}
	o.Key ^= o.Digest
	switch p.Prop {
	case "C01":
		o.Nontrivial = o.Preempts > 0
	case "C03":
		o.Nontrivial = chain&6 != 0
	default:
		o.Nontrivial = chain&6 != 0
	}
}
