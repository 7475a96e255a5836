package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"maps"
	"slices"
	"strings"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/catalog/cldrplural"
	"github.com/vorlif/spreak/catalog/po"
	"github.com/vorlif/spreak/localize"
	"github.com/vorlif/spreak/zz_verif/simrt"
)

// Scenario of C17: tasks overwrite whatever they got from the code under test, or
// gave to it earlier, while other tasks keep using the objects.

func init() { scenarios["C17"] = &scenario{genC17, runC17} }

func genC17(r *simrt.Rand, tier string) *Plan {
	p := genBase(r, worldOpts{defaults: true})
	w := p.World
	if r.Chance(1, 3) {
		if w.Printer == 0 {
			w.Opts = append(w.Opts, Opt{K: "printer"})
		}
		w.Printer = 3
	}
	if r.Chance(1, 3) {
		w.Opts = append(w.Opts, Opt{K: "matcher"})
	}
	nloc := 1 + r.Intn(3)
	id := 1
	for i := 0; i < nloc; i++ {
		p.Setup = append(p.Setup, genLoc(r, w, id))
		id++
	}
	nt := 1 + r.Intn(4)
	nops := 3 + r.Intn(9)
	ns := standaloneCount(w)
	add := func(ops []Op, op Op) []Op {
		op.ID = id
		id++
		return append(ops, op)
	}
	for t := 0; t < nt; t++ {
		var ops []Op
		for i := 0; i < nops; i++ {
			m := msgPool[r.Intn(len(msgPool))]
			switch r.Intn(13) {
			case 0:
				ops = add(ops, Op{K: "mutlist", A: []int{r.Intn(3), r.Intn(nloc), r.Intn(3)}})
			case 1, 2:
				ops = add(ops, Op{K: "mutcat", A: []int{r.Intn(16), r.Intn(7)}, S: []string{m.Ctx, m.ID}})
			case 3:
				// the buffers and maps of a standalone catalog belong to one task
				ops = add(ops, Op{K: "mutin", A: []int{t + nt*r.Intn(ns/nt+1), r.Intn(4)}})
			case 4:
				op := genLook(r, w, 0, nloc)
				op.K = "muterr"
				op.S[0] = "LocalizeWithError"
				ops = add(ops, op)
			case 5:
				op := genLoc(r, w, 0)
				op.K = "mutlangs"
				lk := genLook(r, w, 0, 1)
				op.A = append(op.A, lk.A...)
				op.S = append([]string{fmt.Sprint(len(op.S))}, append(op.S, lk.S...)...)
				ops = add(ops, op)
			case 6:
				op := genLook(r, w, 0, nloc)
				op.K = "twice"
				ops = add(ops, op)
			case 7:
				ops = add(ops, Op{K: "scat", A: []int{r.Intn(ns), r.Intn(5)}, S: []string{m.Ctx, m.ID, fmt.Sprint(counts[r.Intn(len(counts))])}})
			case 8:
				ops = add(ops, Op{K: "mutrule", A: []int{r.Intn(3)}, S: []string{plangList[r.Intn(len(plangList))].tag}})
			case 9:
				ops = add(ops, Op{K: "list", A: []int{r.Intn(nloc)}, S: []string{pickS(r, "", "app", "web", "zzz"), pickS(r, append(baseTags, "sw", "zh-TW")...)}})
			case 10:
				ops = add(ops, Op{K: "cat", A: []int{r.Intn(16), r.Intn(4)}, S: []string{m.Ctx, m.ID, fmt.Sprint(counts[r.Intn(len(counts))])}})
			default:
				ops = add(ops, genLook(r, w, 0, nloc))
			}
		}
		p.Tasks = append(p.Tasks, ops)
	}
	return p
}

// standalone is a catalog created by the harness itself from an input it keeps.
type standalone struct {
	how  int
	cat  catalog.Catalog
	m    *mCat
	file *po.File
	buf  []byte
	msgs catalog.JSONMessages
	want string // encoded form
}

func standaloneCount(w *World) int { return 2 * len(w.Cats) }

func sniff(d []byte, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	return string(d)
}

// encoded is the canonical encoding of a standalone catalog.
func (s *standalone) encoded() string {
	switch {
	case s.file != nil:
		var b bytes.Buffer
		err := po.NewEncoder(&b).Encode(s.file)
		return sniff(b.Bytes(), err)
	case s.m.cat.Fmt == "json":
		var b bytes.Buffer
		err := catalog.NewJSONEncoder(&b).Encode(s.cat.(catalog.JSONCatalog))
		return sniff(b.Bytes(), err)
	}
	return contentOf(s.cat)
}

type onlyReader struct{ r io.Reader }

func (o onlyReader) Read(p []byte) (int, error) { return o.r.Read(p) }

func makeStandalone(w *World, i int, par *po.Parser) (*standalone, error) {
	c := &w.Cats[i/2]
	s := &standalone{how: i % 2}
	tag := language.MustParse(c.Tag)
	s.m = &mCat{cat: c, lang: tag, dom: "alone"}
	s.buf = c.render()
	var err error
	switch {
	case s.how == 1 && c.Fmt == "json":
		s.msgs = catalog.JSONMessages{}
		for k := range c.Msgs {
			m := &c.Msgs[k]
			jm := &catalog.JSONMessage{Context: m.Ctx, Translations: map[cldrplural.Category]string{}}
			for _, n := range c.jsonCats(m) {
				jm.Translations[cldrplural.Category(slices.Index(catNames, n))] = c.jsonText(m, n)
			}
			s.msgs[c.jsonKey(m)] = jm
		}
		s.cat, err = catalog.NewJSONCatalogWithMessages(tag, "alone", s.msgs)
	case c.Fmt == "json" && i%4 == 0:
		jc := catalog.NewJSONCatalog(tag, "alone")
		err = jc.(interface{ UnmarshalJSON([]byte) error }).UnmarshalJSON(s.buf)
		s.cat = jc
	case c.Fmt == "json":
		s.cat, err = catalog.NewJSONDecoder().Decode(tag, "alone", s.buf)
	case s.how == 1 && c.Fmt == "po":
		// the parser is used for all files: a later one must not touch an earlier one
		if i%4 == 1 {
			s.file, err = po.Parse(s.buf)
		} else {
			s.file, err = par.Parse(bytes.NewReader(s.buf))
		}
		if err == nil {
			s.cat, err = catalog.NewPoDecoder().(catalog.DecoderV2).DecodeReader(tag, "alone", onlyReader{bytes.NewReader(s.buf)})
		}
	case c.Fmt == "po":
		s.cat, err = catalog.NewPoDecoder().Decode(tag, "alone", s.buf)
	case s.how == 1:
		s.cat, err = catalog.NewMoDecoder().(catalog.DecoderV2).DecodeReader(tag, "alone", bytes.NewReader(s.buf))
	default:
		s.cat, err = catalog.NewMoDecoder().Decode(tag, "alone", s.buf)
	}
	if err != nil {
		return nil, err
	}
	s.want = s.encoded()
	return s, nil
}

func scribble(b []byte, how int) {
	for i := range b {
		switch how {
		case 0:
			b[i] = 'X'
		case 1:
			b[i] = 0
		default:
			b[i] ^= 0x20
		}
	}
}

type isoEnv struct {
	*env
	alone []*standalone
	held  []any // messages of e.cats, obtained in the beginning
}

func (e *isoEnv) exec(p *Plan, t *tstate, op Op) {
	garbage := language.MustParse("tlh")
	mutStrings := func(l []string, how int) {
		for i := range l {
			l[i] = "garbage"
		}
		if how > 0 {
			_ = append(l[:0], "more", "of", "it")[:0]
			l = l[:cap(l)]
			for i := range l {
				l[i] = "beyond"
			}
		}
	}
	mutTags := func(l []language.Tag) {
		l = l[:cap(l)]
		for i := range l {
			l[i] = garbage
		}
	}
	switch op.K {
	case "mutlist":
		t.do(p, op, func(r *opRes) {
			z := e.locs[op.A[1]]
			switch op.A[0] {
			case 0:
				l := e.b.Domains()
				r.Vals = append(r.Vals, strings.Join(sorted(l), ","))
				mutStrings(l, op.A[2])
			case 1:
				l := e.b.SupportedLanguages()
				r.Vals = append(r.Vals, strings.Join(tagStrings(l), ","))
				mutTags(l)
			case 2:
				l := z.l.Domains()
				r.Vals = append(r.Vals, strings.Join(sorted(l), ","))
				mutStrings(l, op.A[2])
			}
		})
	case "mutcat":
		t.do(p, op, func(r *opRes) {
			if len(e.cats) == 0 {
				return
			}
			ref := e.cats[op.A[0]%len(e.cats)]
			r.Vals = append(r.Vals, contentOf(ref.cat))
			if op.A[1] == 6 { // copies of messages which somebody holds
				msgs := e.held[op.A[0]%len(e.cats)]
				mutCopies(msgs)
				r.Vals[0] = messagesText(msgs)
			} else {
				mutCat(ref.cat, op.A[1], op.S[0], op.S[1])
			}
			r.Vals = append(r.Vals, contentOf(ref.cat))
		})
	case "mutin":
		t.do(p, op, func(r *opRes) {
			if op.A[0] >= len(e.alone) {
				return
			}
			s := e.alone[op.A[0]]
			scribble(s.buf, op.A[1])
			for k, m := range s.msgs {
				switch op.A[1] {
				case 0:
					for c := range m.Translations {
						m.Translations[c] = "garbage"
					}
				case 1:
					clear(m.Translations)
				case 2:
					m.Context, m.Comment = "garbage", "garbage"
					m.Translations = map[cldrplural.Category]string{cldrplural.Few: "x"}
				default:
					delete(s.msgs, k)
				}
			}
		})
	case "muterr":
		t.do(p, op, func(r *opRes) {
			k := decodeLook(op)
			realLook(e.locs[k.loc], k, r)
			if r.Err == nil {
				return
			}
			// the recorded error is judged in its state before the changes
			err := r.Err
			r.Vals = append(r.Vals, canon(err))
			r.Err = nil
			mutErr(err, garbage)
		})
	case "mutlangs":
		t.do(p, op, func(r *opRes) {
			n := atoi(op.S[0])
			spec := locSpec(Op{A: op.A[:2], S: op.S[1 : 1+n]})
			langs := spec.langs()
			var z locz
			mk := func() {
				switch {
				case spec.Key && spec.HasDom:
					z.k = spreak.NewKeyLocalizerForDomain(e.b, spec.Dom, langs...)
				case spec.Key:
					z.k = spreak.NewKeyLocalizer(e.b, langs...)
				case spec.HasDom:
					z.l = spreak.NewLocalizerForDomain(e.b, spec.Dom, langs...)
				default:
					z.l = spreak.NewLocalizer(e.b, langs...)
				}
				if z.k != nil {
					z.l = z.k.Localizer
				}
			}
			mk()
			for i := range langs {
				langs[i] = "tlh"
			}
			r.Vals = append(r.Vals, fmt.Sprint(z.l.HasLocale()), z.l.Language().String(), z.l.DefaultDomain())
			realLook(z, decodeLook(Op{A: op.A[2:], S: op.S[1+n:]}), r)
		})
	case "twice":
		t.do(p, op, func(r *opRes) {
			k := decodeLook(op)
			l := e.locs[k.loc].l
			m := &localize.Message{Singular: k.id, Plural: k.plural, Context: k.ctx, Vars: k.vars, Count: int(k.n)}
			r.Vals = append(r.Vals, l.Localize(m), l.Localize(m))
		})
	case "scat":
		t.do(p, op, func(r *opRes) {
			s := e.alone[op.A[0]]
			switch op.A[1] {
			case 0, 1:
				v, err := s.cat.Lookup(op.S[0], op.S[1])
				r.Vals = append(r.Vals, v)
				r.Err = err
			case 2:
				v, err := s.cat.LookupPlural(op.S[0], op.S[1], atoi(op.S[2]))
				r.Vals = append(r.Vals, v)
				r.Err = err
			case 3:
				r.Vals = append(r.Vals, contentOf(s.cat))
			case 4:
				if s.file != nil { // encoding a file sorts its references: the owner of the file encodes at the end
					return
				}
				r.Vals = append(r.Vals, s.encoded())
			}
		})
	case "mutrule":
		t.do(p, op, func(r *opRes) {
			rs, _ := cldrplural.ForLanguage(language.MustParse(op.S[0]))
			r.Vals = append(r.Vals, fmt.Sprint(rs.Categories))
			for i := range rs.Categories {
				rs.Categories[i] = cldrplural.Few
			}
			rs.Categories = rs.Categories[:0]
			rs.FormFunc = func(*cldrplural.Operands) cldrplural.Category { return cldrplural.Many }
			rs2, _ := cldrplural.ForLanguage(language.MustParse(op.S[0]))
			c, err := rs2.Evaluate(1)
			r.Vals = append(r.Vals, fmt.Sprint(strings.ToLower(c.String()), err))
		})
	default:
		e.env.exec(p, t, op)
	}
}

// mutCopies changes copies of messages.
func mutCopies(msgs any) {
	switch x := msgs.(type) {
	case catalog.PoLookupMap:
		for _, m := range x {
			for _, msg := range m {
				tr := msg.Translations()
				for k := range tr {
					tr[k] = "garbage"
				}
				cl := msg.Clone()
				clear(cl.Translations())
				*cl = catalog.GettextMessage{}
			}
		}
	case catalog.JSONMessages:
		for _, msg := range x {
			cl := msg.Clone()
			for k := range cl.Translations {
				cl.Translations[k] = "garbage"
			}
			cl.Context = "garbage"
		}
	}
}

// mutCat changes copies a catalog handed out.
func mutCat(c catalog.Catalog, how int, ctx, id string) {
	switch x := c.(type) {
	case *catalog.GettextCatalog:
		m := x.Messages()
		switch how {
		case 0:
			clear(m)
		case 1:
			for _, mm := range m {
				clear(mm)
			}
		case 2:
			for _, mm := range m {
				for _, msg := range mm {
					tr := msg.Translations()
					for k := range tr {
						tr[k] = "garbage"
					}
					tr[77] = "new"
				}
			}
		case 3:
			for _, mm := range m {
				for _, msg := range mm {
					cl := msg.Clone()
					tr := cl.Translations()
					clear(tr)
					*cl = catalog.GettextMessage{}
				}
			}
		case 4:
			for _, mm := range m {
				for k, msg := range mm {
					*msg = catalog.GettextMessage{}
					mm[k+"x"] = msg
				}
			}
		default:
			m[ctx] = map[string]*catalog.GettextMessage{id: {}}
			m["new context"] = nil
		}
	case catalog.JSONCatalog:
		m := x.Messages()
		switch how {
		case 0:
			clear(m)
		case 1:
			for _, msg := range m {
				clear(msg.Translations)
			}
		case 2:
			for _, msg := range m {
				for k := range msg.Translations {
					msg.Translations[k] = "garbage"
				}
			}
		case 3:
			for _, msg := range m {
				cl := msg.Clone()
				for k := range cl.Translations {
					cl.Translations[k] = "garbage"
				}
				cl.Context = "garbage"
			}
		case 4:
			for _, msg := range m {
				msg.Context, msg.Comment = "garbage", "garbage"
				catalog.ApplyPluralCategoriesToJSONMessage(language.Arabic, msg)
				*msg = catalog.JSONMessage{}
			}
		default:
			m[id] = &catalog.JSONMessage{Translations: map[cldrplural.Category]string{cldrplural.Other: "garbage"}}
			m[id+"_"+ctx] = nil
		}
	}
}

// mutErr changes an error object a lookup returned.
func mutErr(err error, tag language.Tag) {
	var dom *spreak.ErrMissingDomain
	var ctx *catalog.ErrMissingContext
	var msg *catalog.ErrMissingMessageID
	var tr *catalog.ErrMissingTranslation
	switch {
	case errors.As(err, &dom):
		*dom = spreak.ErrMissingDomain{Language: tag, Domain: "garbage"}
	case errors.As(err, &ctx):
		*ctx = catalog.ErrMissingContext{Language: tag, Domain: "garbage", Context: "garbage"}
	case errors.As(err, &msg):
		*msg = catalog.ErrMissingMessageID{Language: tag, Domain: "garbage", Context: "garbage", MsgID: "garbage"}
	case errors.As(err, &tr):
		*tr = catalog.ErrMissingTranslation{Language: tag, Domain: "garbage", Idx: 99}
	}
}

func (e *isoEnv) check(p *Plan, o *Outcome, op Op, r *opRes) {
	if o.V != nil {
		return
	}
	switch op.K {
	case "mutlist", "mutcat", "mutin", "muterr", "mutlangs", "twice", "scat", "mutrule":
	default:
		e.env.check(p, o, op, r, cmpText|cmpErr)
		return
	}
	if r == nil || !r.Done {
		o.violate("lost-operation", "operation %d %s did not finish", op.ID, op.K)
		return
	}
	if r.Panic != "" {
		o.violate("panic", "op %d %s %v panicked: %s", op.ID, op.K, op.S, r.Panic)
		return
	}
	o.note(r.Vals...)
	want := func(w ...string) {
		o.Evals++
		if !slices.Equal(r.Vals, w) {
			o.violate("changed-answer", "op %d %s %v %q: got %q, want %q", op.ID, op.K, op.A, op.S, r.Vals, w)
		}
	}
	switch op.K {
	case "mutlist":
		switch op.A[0] {
		case 0:
			want(strings.Join(e.mb.domainList(), ","))
		case 1:
			want(strings.Join(e.mb.langList(), ","))
		case 2:
			set := map[string]bool{}
			for d := range e.mlocs[op.A[1]].loc.cats {
				set[d] = true
			}
			want(strings.Join(sortedSet(set), ","))
		}
	case "mutcat":
		if len(e.cats) > 0 {
			c := e.cats[op.A[0]%len(e.cats)].m.wantContent()
			want(c, c)
		}
	case "muterr":
		k := decodeLook(op)
		x := expectLook(e.mlocs[k.loc], k, nil)
		if x.err == "" {
			want(x.vals[0])
			return
		}
		o.Evals++
		if len(r.Vals) != 2 || r.Vals[0] != x.vals[0] || x.err != "nolocale" && !matches(r.Vals[1], x.err) {
			o.violate("changed-answer", "op %d %q on localizer %d: got %q, want %q and error %q", op.ID, op.S, op.A[0], r.Vals, x.vals, x.err)
		}
	case "mutlangs":
		n := atoi(op.S[0])
		ml := e.mb.localizer(locSpec(Op{A: op.A[:2], S: op.S[1 : 1+n]}))
		w := []string{fmt.Sprint(ml.found), ml.loc.lang.String(), ml.dom}
		if len(r.Vals) < 3 || !slices.Equal(r.Vals[:3], w) {
			o.violate("changed-answer", "op %d %q: localizer is %q, want %q", op.ID, op.S, r.Vals, w)
			return
		}
		rr := *r
		rr.Vals = r.Vals[3:]
		sub := op
		sub.A = op.A[2:]
		sub.S = op.S[1+n:]
		compareLook(o, cmpText|cmpErr, sub, &rr, expectLook(ml, decodeLook(sub), nil))
	case "twice":
		k := decodeLook(op)
		l := Look{Dom: e.mlocs[k.loc].dom, Ctx: k.ctx, ID: k.id, N: k.n, Vars: k.vars}
		if k.plural != "" {
			l.HasPl, l.Plural = true, k.plural
		}
		x := e.mlocs[k.loc].look(l, nil).text
		want(x, x)
	case "scat":
		s := e.alone[op.A[0]]
		switch op.A[1] {
		case 3:
			want(s.m.wantContent())
		case 4:
			if s.file == nil {
				want(s.want)
			}
		default:
			k := Look{Ctx: op.S[0], ID: op.S[1], N: int64(atoi(op.S[2])), HasPl: op.A[1] == 2}
			text, failing := s.m.lookup(k, "")
			o.Evals++
			if failing != nil {
				if got := canon(r.Err); !matches(got, strings.Join(failing, "|")) {
					o.violate("changed-answer", "op %d catalog lookup %q: got %q, want %q", op.ID, op.S, got, failing)
				}
			} else if r.Err != nil || r.Vals[0] != text {
				o.violate("changed-answer", "op %d catalog lookup %q: got %q %v, want %q", op.ID, op.S, r.Vals, r.Err, text)
			}
		}
	case "mutrule":
		pl := plangs[op.S[0]]
		set := map[cldrplural.Category]bool{}
		for _, c := range pl.cats {
			set[cldrplural.Category(slices.Index(catNames, c))] = true
		}
		var cs []cldrplural.Category
		rest := r.Vals
		for _, c := range slices.Sorted(maps.Keys(set)) {
			cs = append(cs, c)
		}
		o.Evals++
		if len(rest) != 2 || rest[0] != fmt.Sprint(cs) || rest[1] != fmt.Sprint(pl.cat(1), nil) {
			o.violate("changed-answer", "op %d rules of %s: got %q, want categories %v and %s for 1", op.ID, op.S[0], rest, cs, pl.cat(1))
		}
	}
}

func runC17(p *Plan, o *Outcome) {
	base := buildEnv(p, o)
	if base == nil {
		return
	}
	e := &isoEnv{env: base}
	for _, c := range e.cats {
		switch x := c.cat.(type) {
		case *catalog.GettextCatalog:
			e.held = append(e.held, x.Messages())
		case catalog.JSONCatalog:
			e.held = append(e.held, x.Messages())
		}
	}
	par := po.NewParser()
	for i := 0; i < standaloneCount(p.World); i++ {
		var s *standalone
		var err error
		pan, hung := solo(20_000_000, func() { s, err = makeStandalone(p.World, i, par) })
		if pan != "" || hung || err != nil {
			o.violate("setup-error", "decoding catalog %d: %s %v", i, pan, err)
			return
		}
		if s.m.cat.Fmt != "po" || s.file == nil {
			if got := contentOf(s.cat); got != s.m.wantContent() {
				o.violate("setup-error", "content of standalone catalog %d: got %q, want %q", i, got, s.m.wantContent())
				return
			}
		}
		e.alone = append(e.alone, s)
	}
	// the values given to the options belong to the caller again
	for _, vs := range e.parts.passed {
		for i := range vs {
			vs[i] = "tlh"
		}
	}
	ok := runTasks(p, o, func(t *tstate, op Op) { e.exec(p, t, op) })
	countFired(o)
	if !ok {
		return
	}
	res := resByID()
	muts := 0
	for _, ops := range p.Tasks {
		for _, op := range ops {
			if strings.HasPrefix(op.K, "mut") {
				muts++
				o.Fired["overwrite-"+op.K]++
			}
			e.check(p, o, op, res[op.ID])
		}
	}
	if o.V != nil {
		return
	}
	// everything is still what it was
	pan, _ := solo(50_000_000, func() {
		for i, s := range e.alone {
			o.Evals += 2
			if got := contentOf(s.cat); got != s.m.wantContent() {
				o.violate("changed-answer", "standalone catalog %d in the end: %q, want %q", i, got, s.m.wantContent())
				return
			}
			if got := s.encoded(); got != s.want {
				o.violate("changed-answer", "standalone catalog %d encodes in the end to %q, before to %q", i, got, s.want)
				return
			}
		}
		for i, c := range e.cats {
			o.Evals++
			if got := contentOf(c.cat); got != c.m.wantContent() {
				o.violate("changed-answer", "catalog %d in the end: %q, want %q", i, got, c.m.wantContent())
				return
			}
		}
		o.Evals++
		if got := fmt.Sprint(sorted(e.b.Domains()), tagStrings(e.b.SupportedLanguages())); got != fmt.Sprint(e.mb.domainList(), e.mb.langList()) {
			o.violate("changed-answer", "in the end the bundle lists %s, want %v %v", got, e.mb.domainList(), e.mb.langList())
		}
	})
	if pan != "" {
		o.violate("panic", "final look at the objects: %s", pan)
	}
	o.Key ^= o.Digest
	o.Nontrivial = muts > 0
}
