package main

import (
	"errors"
	"fmt"
	"path"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/text/language"
	"golang.org/x/text/message"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"
)

// The reference model: what a build and every lookup must yield, derived from the
// world's description and the documentation only.

// ---- candidate files ----

// langNames returns the file names of a language, longest first.
func langNames(tag language.Tag) []string {
	set := map[string]bool{tag.String(): true}
	base, bc := tag.Base()
	if bc > language.No {
		set[base.ISO3()] = true
		set[base.String()] = true
		if reg, c := tag.Region(); c > language.No {
			set[base.String()+"_"+reg.String()] = true
			set[base.String()+"-"+reg.String()] = true
		}
		if sc, c := tag.Script(); c > language.No {
			set[base.String()+"_"+sc.String()] = true
			set[base.String()+"-"+sc.String()] = true
		}
	}
	names := sortedSet(set)
	sort.SliceStable(names, func(i, j int) bool { return len(names[i]) > len(names[j]) })
	return names
}

func extOf(e string) string {
	switch e {
	case "cldrpo":
		return ".po"
	case "cldrmo":
		return ".mo"
	}
	return "." + e
}

func (l *Loader) exts() []string {
	if len(l.Exts) == 0 {
		return []string{"po", "mo", "json"}
	}
	return l.Exts
}

// namePaths returns the documented paths for one language name.
func (l *Loader) namePaths(name, ext string) []string {
	var r []string
	add := func(e ...string) { r = append(r, path.Join(e...)) }
	if l.Dom != "" {
		add(name, l.Category, l.Dom+ext)
	}
	if l.NoSearch {
		return r
	}
	if l.Dom != "" {
		add(name, "LC_MESSAGES", l.Dom+ext)
		add(name, l.Dom+ext)
		add(l.Dom, name+ext)
	}
	add(name + ext)
	if l.Category != "" {
		add(l.Category, name+ext)
	}
	add("LC_MESSAGES", name+ext)
	return r
}

type cand struct {
	path, dec string
}

// candidates in the documented order.
func (l *Loader) candidates(tag language.Tag) []cand {
	var r []cand
	for _, e := range l.exts() {
		for _, n := range langNames(tag) {
			for _, p := range l.namePaths(n, extOf(e)) {
				r = append(r, cand{p, e})
			}
		}
	}
	return r
}

// ---- bundle model ----

type mCat struct {
	cat    *Cat
	lang   language.Tag
	dom    string
	cldr   bool
	broken bool
	wrap   bool
	path   string
}

type mLocale struct {
	lang   language.Tag
	source bool
	cats   map[string]*mCat
}

type mBundle struct {
	w         *World
	src, fb   language.Tag
	locales   map[language.Tag]*mLocale
	languages []language.Tag
	domains   map[string]bool
	defDom    string
	errCtx    string
	hasCB     bool
	matcher   language.Matcher
	source    *mLocale
	fallback  *mLocale

	fails   string   // "" or the reason why construction must fail
	cbs     []string // callbacks of the construction (as a multiset)
	printer int
}

func parseLang(s string) (language.Tag, error) {
	for _, sep := range []string{":", "@", "."} {
		if i := strings.Index(s, sep); i >= 0 {
			s = s[:i]
		}
	}
	return language.Parse(strings.TrimSpace(s))
}

// optLang parses a language value of an option; a leading "=" means a language.Tag.
func optLang(s string) (language.Tag, error) {
	if strings.HasPrefix(s, "=") {
		return language.MustParse(s[1:]), nil
	}
	if s == "!bad" {
		return language.Und, errors.New("bad type")
	}
	return parseLang(s)
}

// find returns the catalog a fault-free load of the language and domain serves.
func (w *World) find(l *Loader, tag language.Tag) *mCat {
	byPath := map[string]*File{}
	for i := range w.Files {
		byPath[w.Files[i].Path] = &w.Files[i]
	}
	for _, c := range l.candidates(tag) {
		if f, ok := byPath[c.path]; ok {
			return &mCat{cat: &w.Cats[f.Cat], lang: tag, dom: l.Dom, cldr: strings.HasPrefix(c.dec, "cldr"), broken: f.Broken > 0, wrap: l.Wrap&1 != 0, path: c.path}
		}
	}
	return nil
}

func modelBuild(w *World) *mBundle {
	b := &mBundle{w: w, locales: map[language.Tag]*mLocale{}, domains: map[string]bool{}, errCtx: "errors", printer: w.Printer}
	type action struct {
		opt      bool
		langs    []string
		declares bool
	}
	var actions []action
	loaders := map[string]*Loader{}
	fail := func(s string) *mBundle { b.fails = s; return b }
	for _, o := range w.Opts {
		switch o.K {
		case "src":
			t, _ := optLang(o.V[0])
			b.src = t
			actions = append(actions, action{false, o.V[:1], true})
		case "fb":
			t, err := optLang(o.V[0])
			if err != nil {
				return fail("invalid language")
			}
			b.fb = t
			actions = append(actions, action{false, o.V[:1], true})
		case "lang":
			actions = append(actions, action{true, o.V, true})
		case "req":
			actions = append(actions, action{false, o.V, true})
		case "dom":
			i := atoi(o.V[0])
			l := &w.Loaders[i]
			if loaders[l.Dom] != nil {
				return fail("duplicate domain")
			}
			loaders[l.Dom] = l
		case "cb":
			b.hasCB = true
		case "defdom":
			b.defDom = o.V[0]
		case "errctx":
			b.errCtx = o.V[0]
		}
	}
	doms := make([]string, 0, len(loaders))
	for d := range loaders {
		doms = append(doms, d)
	}
	sort.Strings(doms)
	for _, a := range actions {
		for _, v := range a.langs {
			tag, err := optLang(v)
			if err != nil {
				return fail("invalid language")
			}
			if tag == language.Und {
				if !a.opt {
					return fail("missing language und")
				}
				b.cbs = append(b.cbs, "lang:und")
				continue
			}
			if tag == b.src {
				b.locales[tag] = &mLocale{lang: tag, source: true}
				b.languages = append(b.languages, tag)
				continue
			}
			if b.locales[tag] != nil {
				continue
			}
			loc := &mLocale{lang: tag, cats: map[string]*mCat{}}
			missing := false
			for _, d := range doms {
				verdict := loaders[d].verdict(tag.String())
				if verdict == "fail" {
					return fail("loader of " + d + " fails for " + tag.String())
				}
				c := w.find(loaders[d], tag)
				if c == nil || verdict != "" {
					nf := tag.String()
					if verdict == "other" {
						nf = "und"
					}
					b.cbs = append(b.cbs, "file:"+nf+":"+d)
					missing = true
					continue
				}
				if c.broken {
					return fail("broken " + c.path)
				}
				loc.cats[d] = c
			}
			if missing && !a.opt {
				return fail("missing file of " + tag.String())
			}
			if len(loc.cats) == 0 {
				if !a.opt {
					return fail("missing language " + tag.String())
				}
				b.cbs = append(b.cbs, "lang:"+tag.String())
				continue
			}
			for d := range loc.cats {
				b.domains[d] = true
			}
			b.locales[tag] = loc
			b.languages = append(b.languages, tag)
		}
	}
	b.matcher = language.NewMatcher(b.languages)
	if l := b.locales[b.src]; l != nil {
		b.source = l
	} else {
		b.source = &mLocale{lang: b.src, source: true}
	}
	if l := b.locales[b.fb]; l != nil {
		b.fallback = l
	} else {
		b.fallback = b.source
	}
	return b
}

func atoi(s string) int {
	n := 0
	for _, c := range s {
		n = n*10 + int(c-'0')
	}
	return n
}

// mLocalizer is the model of a Localizer.
type mLocalizer struct {
	b     *mBundle
	loc   *mLocale
	found bool
	dom   string
	key   bool
}

// LocSpec describes a localizer to be created.
type LocSpec struct {
	Langs  []string
	Dom    string
	HasDom bool
	Key    bool
}

func (s LocSpec) langs() []any {
	var r []any
	for _, l := range s.Langs {
		if strings.HasPrefix(l, "=") {
			r = append(r, language.MustParse(l[1:]))
		} else if l == "!bad" {
			r = append(r, 42)
		} else {
			r = append(r, l)
		}
	}
	return r
}

func (b *mBundle) localizer(s LocSpec) *mLocalizer {
	var tags []language.Tag
	for _, l := range s.Langs {
		if strings.HasPrefix(l, "=") {
			tags = append(tags, language.MustParse(l[1:]))
		} else if l != "!bad" {
			if d, _, err := language.ParseAcceptLanguage(l); err == nil {
				tags = append(tags, d...)
			}
		}
	}
	ml := &mLocalizer{b: b, dom: b.defDom, key: s.Key}
	if s.HasDom {
		ml.dom = s.Dom
	}
	if _, i, conf := b.matcher.Match(tags...); conf > language.No && i < len(b.languages) {
		ml.loc = b.locales[b.languages[i]]
		ml.found = true
	} else {
		ml.loc = b.fallback
	}
	return ml
}

// ---- lookups ----

// Look is a lookup in canonical form.
type Look struct {
	Dom    string
	Ctx    string
	ID     string
	Plural string // "" for singular lookups
	HasPl  bool
	N      int64
	Frac   string // digits after the decimal point
	Vars   []any
}

type mRes struct {
	text  string
	err   string   // canonical error, "" for success
	errs  []string // accepted alternatives
	cbs   []string
	level int // 0 requested, 1 fallback, 2 source
}

// lookup in one catalog; failing lists the accepted canonical errors.
func (c *mCat) lookup(k Look, catFault string) (text string, failing []string) {
	if catFault != "" {
		return "", []string{"inj:" + c.lang.String()}
	}
	id := ":" + c.lang.String() + ":" + c.dom
	inCtx, live := false, false
	var m *Msg
	for i := range c.cat.Msgs {
		x := &c.cat.Msgs[i]
		if x.Ctx == k.Ctx {
			inCtx = true
			if !x.Fuzzy {
				live = true
				if x.ID == k.ID {
					m = x
				}
			}
		}
	}
	if k.Ctx == "" && c.cat.Pad > 0 {
		live = true
		if k.ID == "padding" {
			m = &Msg{ID: "padding"}
		}
	}
	_ = inCtx
	if m == nil {
		missMsg := "msg" + id + ":" + k.Ctx + ":" + k.ID
		if live {
			return "", []string{missMsg}
		}
		return "", []string{"ctx" + id + ":" + k.Ctx, missMsg}
	}
	if c.cat.Fmt == "json" {
		cat := "other"
		if k.HasPl {
			cat = plangs[c.lang.String()].catF(abs64(k.N), k.Frac)
		}
		ok := false
		for _, x := range c.cat.jsonCats(m) {
			if x == cat {
				ok = true
			}
		}
		if m.ID == "padding" {
			text = c.cat.pad()
		} else {
			text = c.cat.jsonText(m, cat)
		}
		if !ok || text == "" {
			idx := 0
			for i, x := range catNames {
				if x == cat {
					idx = i
				}
			}
			return "", []string{fmt.Sprintf("tr%s:%s:%s:%d", id, k.Ctx, k.ID, idx)}
		}
		return text, nil
	}
	idx := 0
	if k.HasPl {
		p := plangs[c.lang.String()]
		if c.cldr || c.cat.Hdr&1 == 0 {
			cc := p.catF(abs64(k.N), k.Frac)
			for i, x := range p.cats {
				if x == cc {
					idx = i
				}
			}
		} else {
			// the formula of the file's own header
			_, form := c.cat.rule()
			idx = form(nearest(k.N, k.Frac))
		}
	}
	ok := false
	for _, f := range c.cat.forms(m) {
		if f == fmt.Sprint(idx) {
			ok = true
		}
	}
	if m.ID == "padding" {
		text = c.cat.pad()
	} else {
		text = c.cat.text(m, fmt.Sprint(idx))
	}
	if !ok || text == "" {
		return "", []string{fmt.Sprintf("tr%s:%s:%s:%d", id, k.Ctx, k.ID, idx)}
	}
	return text, nil
}

var printers = map[language.Tag]*message.Printer{}

// format renders a text like the printer of the language does.
func (b *mBundle) format(lang language.Tag, text string, vars []any) string {
	switch b.printer {
	case 1, 3:
		return recFormat(lang.String(), text, vars)
	case 2:
		return recFormat("*", text, vars)
	}
	if len(vars) == 0 {
		return text
	}
	p := printers[lang]
	if p == nil {
		p = message.NewPrinter(lang)
		printers[lang] = p
	}
	return p.Sprintf(text, vars...)
}

// recFormat is what the harness's own printers produce.
func recFormat(lang, text string, vars []any) string {
	return lang + "{" + text + "}" + fmt.Sprint(vars...)
}

func (l *mLocale) lookup(k Look, faults map[string]string) (string, []string) {
	c := l.cats[k.Dom]
	if c == nil {
		return "", []string{"dom:" + l.lang.String() + ":" + k.Dom}
	}
	f := ""
	if len(faults) > 0 && c.wrap {
		f = faults[l.lang.String()]
	}
	return c.lookup(k, f)
}

// The plural form depends on the absolute value.
func abs64(n int64) int64 {
	if n < 0 {
		return -n
	}
	return n
}

func (b *mBundle) sourceText(k Look) string {
	t := k.ID
	if k.HasPl && k.Plural != "" {
		p := plangs[b.source.lang.String()]
		if p == nil {
			p = plangs["en"]
		}
		if p.src(nearest(k.N, k.Frac)) != 0 {
			t = k.Plural
		}
	}
	return b.format(b.source.lang, t, k.Vars)
}

// look is the model of a lookup through a localizer.
func (ml *mLocalizer) look(k Look, faults map[string]string) mRes {
	b := ml.b
	if ml.loc.source {
		r := mRes{text: b.sourceText(k), level: 0}
		if !ml.found {
			r.err = "nolocale"
		}
		return r
	}
	text, failing := ml.loc.lookup(k, faults)
	if failing == nil {
		r := mRes{text: b.format(ml.loc.lang, text, k.Vars)}
		if !ml.found {
			r.err = "nolocale"
			r.level = 1
		}
		return r
	}
	r := mRes{err: failing[0], errs: failing, cbs: []string{strings.Join(failing, "|")}, level: 1}
	if ml.loc.lang != b.fallback.lang {
		if b.fallback.source {
			r.text = b.sourceText(k)
			r.level = 2
			return r
		}
		text, f2 := b.fallback.lookup(k, faults)
		if f2 == nil {
			r.text = b.format(b.fallback.lang, text, k.Vars)
			return r
		}
		r.cbs = append(r.cbs, strings.Join(f2, "|"))
	}
	r.level = 2
	r.text = b.sourceText(k)
	return r
}

// canon identifies an error.
func canon(err error) string {
	if err == nil {
		return ""
	}
	var dom *spreak.ErrMissingDomain
	var ctx *catalog.ErrMissingContext
	var msg *catalog.ErrMissingMessageID
	var tr *catalog.ErrMissingTranslation
	var nf *spreak.ErrNotFound
	var ml *spreak.ErrMissingLanguage
	var ie *InjErr
	strip := func(id, ctx string) string {
		if ctx != "" {
			return strings.TrimSuffix(id, "_"+ctx)
		}
		return id
	}
	switch {
	case errors.As(err, &ie):
		return "inj:" + ie.ID
	case errors.As(err, &dom):
		return "dom:" + dom.Language.String() + ":" + dom.Domain + names(dom, dom.Language.String(), dom.Domain)
	case errors.As(err, &ctx):
		return "ctx:" + ctx.Language.String() + ":" + ctx.Domain + ":" + ctx.Context + names(ctx, ctx.Language.String(), ctx.Domain, ctx.Context)
	case errors.As(err, &msg):
		return "msg:" + msg.Language.String() + ":" + msg.Domain + ":" + msg.Context + ":" + strip(msg.MsgID, msg.Context) +
			names(msg, msg.Language.String(), msg.Domain, msg.Context, strip(msg.MsgID, msg.Context))
	case errors.As(err, &tr):
		return fmt.Sprintf("tr:%s:%s:%s:%s:%d", tr.Language, tr.Domain, tr.Context, strip(tr.MsgID, tr.Context), tr.Idx) +
			names(tr, tr.Language.String(), tr.Domain, tr.Context, strip(tr.MsgID, tr.Context))
	case errors.As(err, &ml):
		return "lang:" + ml.Language.String() + names(ml, ml.Language.String())
	case errors.As(err, &nf):
		d := nf.Identifier
		if i := strings.Index(d, "\""); i >= 0 {
			d = d[i+1:]
			if j := strings.Index(d, "\""); j >= 0 {
				d = d[:j]
			}
		}
		return "file:" + nf.Language.String() + ":" + d + names(nf, nf.Language.String(), d)
	case err.Error() == "spreak: locale missing":
		return "nolocale"
	}
	return "other:" + err.Error()
}

// names tells whether the text of an error mentions what the error is about.
func names(err error, parts ...string) string {
	text := err.Error()
	for _, p := range parts {
		if q := strconv.Quote(p); !strings.Contains(text, q[1:len(q)-1]) && !strings.Contains(text, p) {
			return fmt.Sprintf(" with the text %q", text)
		}
	}
	return ""
}

// matches tells whether a canonical error is one of the accepted ones ("a|b").
func matches(got, accepted string) bool {
	for _, a := range strings.Split(accepted, "|") {
		if got == a {
			return true
		}
	}
	return false
}
