package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"slices"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/localize"
	"github.com/vorlif/spreak/zz_verif/simrt"
)

// ---- generation of worlds ----

type worldOpts struct {
	allowFail bool
	allowFB   bool // broken files
	formats   []string
	noWrap    bool
	minDoms   int
	defaults  bool
	presence  int // percent
}

func genWorld(r *simrt.Rand, wo worldOpts) *World {
	for try := 0; ; try++ {
		w := genWorldOnce(r, wo, try)
		b := modelBuild(w)
		if wo.allowFail || b.fails == "" && len(b.domains) > 0 || try > 60 {
			return w
		}
	}
}

func genWorldOnce(r *simrt.Rand, wo worldOpts, try int) *World {
	w := &World{FS: r.Intn(16), Printer: pickI(r, 0, 0, 0, 1, 2)}
	// languages
	nl := 2 + r.Intn(3)
	var tags []string
	for len(tags) < nl {
		t := baseTags[r.Intn(len(baseTags))]
		if !slices.Contains(tags, t) {
			tags = append(tags, t)
		}
	}
	src := ""
	if r.Chance(4, 5) {
		src = pickS(r, "en", "en", "de", "fr", "ar", "lv", "ru")
	}
	// loaders
	doms := []string{"", "app", "web"}
	nd := max(wo.minDoms, 1+r.Intn(3))
	off := r.Intn(3)
	for i := 0; i < nd; i++ {
		l := Loader{Dom: doms[(off+i)%3]}
		switch r.Intn(5) {
		case 0:
		case 1:
			l.Exts = []string{"json"}
		case 2:
			l.Exts = []string{"mo", "po"}
		case 3:
			l.Exts = []string{"cldrpo", "json"}
		case 4:
			l.Exts = []string{"po", "cldrmo"}
		}
		if r.Chance(1, 3) {
			l.Category = pickS(r, "LC_MESSAGES", "cat")
		}
		if r.Chance(1, 6) && l.Dom != "" {
			l.NoSearch = true
		}
		if !wo.noWrap {
			l.Wrap = pickI(r, 0, 1, 1, 1, 2, 3, 5, 7, 8, 12, 16, 17, 24, 32, 33, 40, 40)
		}
		w.Loaders = append(w.Loaders, l)
	}
	// files
	sep := byte('-')
	if r.Chance(1, 3) {
		sep = '_'
	}
	used := map[string]bool{}
	pres := wo.presence
	if pres == 0 {
		pres = 85
	}
	if try > 30 {
		pres = 100
	}
	for _, t := range tags {
		for li := range w.Loaders {
			l := &w.Loaders[li]
			if r.Intn(100) >= pres {
				continue
			}
			n := 1
			if r.Chance(1, 6) {
				n = 2
			}
			for ; n > 0; n-- {
				addFile(r, w, l, t, sep, used, wo)
			}
		}
	}
	// options
	langs := slices.Clone(tags)
	var opts []Opt
	for i := range w.Loaders {
		opts = append(opts, Opt{"dom", []string{fmt.Sprint(i)}})
	}
	if src != "" {
		opts = append(opts, Opt{"src", []string{"=" + src}})
	}
	if r.Chance(3, 5) && len(langs) > 1 {
		i := r.Intn(len(langs))
		opts = append(opts, Opt{"fb", []string{langSpelling(r, langs[i])}})
		langs = slices.Delete(langs, i, i+1)
	} else if src != "" && r.Chance(1, 6) {
		opts = append(opts, Opt{"fb", []string{"=" + src}})
	}
	if r.Chance(1, 4) && len(langs) > 1 {
		opts = append(opts, Opt{"req", []string{langSpelling(r, langs[0])}})
		langs = langs[1:]
	}
	if r.Chance(1, 6) {
		langs = append(langs, pickS(r, "sw", "ko")) // no catalogs
	}
	if src != "" && r.Chance(1, 3) {
		langs = append(langs, src)
	}
	cut := len(langs)
	if r.Chance(1, 3) {
		cut = r.Intn(len(langs) + 1)
	}
	for _, part := range [][]string{langs[:cut], langs[cut:]} {
		if len(part) == 0 {
			continue
		}
		o := Opt{K: "lang"}
		for _, t := range part {
			o.V = append(o.V, langSpelling(r, t))
		}
		opts = append(opts, o)
	}
	if r.Chance(4, 5) || wo.defaults {
		opts = append(opts, Opt{K: "cb"})
	}
	if r.Chance(2, 3) {
		opts = append(opts, Opt{"defdom", []string{w.Loaders[r.Intn(len(w.Loaders))].Dom}})
	}
	if r.Chance(1, 4) {
		opts = append(opts, Opt{"errctx", []string{"alt"}})
	}
	if w.Printer > 0 {
		opts = append(opts, Opt{K: "printer"})
	}
	for i := len(opts) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		opts[i], opts[j] = opts[j], opts[i]
	}
	w.Opts = opts
	return w
}

func langSpelling(r *simrt.Rand, t string) string {
	switch r.Intn(6) {
	case 0:
		return t
	case 1:
		return strings.ReplaceAll(t, "-", "_") + ".UTF-8"
	case 2:
		return t + "@variant"
	case 3:
		if r.Chance(1, 2) {
			return t + ":xx"
		}
	}
	return "=" + t
}

func addFile(r *simrt.Rand, w *World, l *Loader, tag string, sep byte, used map[string]bool, wo worldOpts) {
	cs := l.candidates(language.MustParse(tag))
	for k := 0; k < 10; k++ {
		c := cs[r.Intn(len(cs))]
		if used[c.path] || strings.IndexByte(c.path, '-'+'_'-sep) >= 0 && !strings.Contains(c.path, "LC_MESSAGES") {
			continue
		}
		if strings.Contains(strings.ReplaceAll(c.path, "LC_MESSAGES", ""), string('-'+'_'-sep)) {
			continue
		}
		used[c.path] = true
		format := strings.TrimPrefix(c.dec, "cldr")
		cat := genCat(r, tag, format, fmt.Sprintf("%s#%d", tag, len(w.Cats)), 70)
		f := File{Path: c.path, Cat: len(w.Cats)}
		if wo.allowFB && r.Chance(1, 12) {
			f.Broken = 1 + r.Intn(4)
			if strings.HasPrefix(c.dec, "cldr") && f.Broken == 2 {
				f.Broken = 1
			}
		}
		w.Cats = append(w.Cats, cat)
		w.Files = append(w.Files, f)
		return
	}
}

// ---- real parts built from a world ----

type parts struct {
	w       *World
	fs      fs.FS
	loaders []spreak.Loader
	caps    []*capLoader
	opts    []spreak.BundleOption // without the printer
	err     error
	passed  [][]any // language values given to options
	cbHook  func(t *tstate, err error)
}

// capLoader passes loads through, keeps the catalogs and can make them fail.
type capLoader struct {
	inner spreak.Loader
	spec  *Loader
	wrap  bool
	cats  [simrt.MaxRoots + 2]map[string]catalog.Catalog
}

func (c *capLoader) Load(lang language.Tag, domain string) (catalog.Catalog, error) {
	t := T()
	defer t.in()()
	if t.hook != nil {
		t.hook("load")
	}
	if f := t.event("load", ""); f != nil {
		return nil, t.strike(f, "load", "")
	}
	switch c.spec.verdict(lang.String()) {
	case "notfound":
		return nil, spreak.NewErrNotFound(lang, "custom", "domain=%q", domain)
	case "wrapped":
		return nil, fmt.Errorf("custom loader: %w", spreak.NewErrNotFound(lang, "custom", "domain=%q", domain))
	case "joined":
		return nil, errors.Join(errors.New("custom loader"), spreak.NewErrNotFound(lang, "custom", "domain=%q", domain))
	case "other": // in the loader's own naming
		return nil, spreak.NewErrNotFound(language.Und, "custom", "domain=%q", domain)
	case "fail":
		return nil, errors.New("custom loader fails")
	}
	cat, err := c.inner.Load(lang, domain)
	if err != nil {
		return nil, err
	}
	m := c.cats[t.idx]
	if m == nil {
		m = map[string]catalog.Catalog{}
		c.cats[t.idx] = m
	}
	m[lang.String()] = cat
	if c.wrap {
		return &faultCat{cat, lang.String()}, nil
	}
	return cat, nil
}

type faultCat struct {
	catalog.Catalog
	lang string
}

func (c *faultCat) fail() error {
	t := T()
	defer t.in()()
	simrt.Y(24)
	if t.hook != nil {
		t.hook("lookup")
	}
	kind, ok := t.catFault[c.lang]
	if !ok {
		return nil
	}
	err, ie := makeErr(kind, c.lang, "lookup", c.lang)
	t.fired = append(t.fired, fired{kind: "catalog", err: ie, path: c.lang})
	if kind == "panic" {
		panic(ie)
	}
	return err
}

func (c *faultCat) Lookup(ctx, id string) (string, error) {
	if err := c.fail(); err != nil {
		return "GARBAGE", err
	}
	return c.Catalog.Lookup(ctx, id)
}

func (c *faultCat) LookupPlural(ctx, id string, n any) (string, error) {
	if err := c.fail(); err != nil {
		return "GARBAGE", err
	}
	return c.Catalog.LookupPlural(ctx, id, n)
}

// v1dec hides DecodeReader.
type v1dec struct{ d catalog.Decoder }

func (v v1dec) Decode(l language.Tag, d string, b []byte) (catalog.Catalog, error) {
	t := T()
	defer t.in()()
	if t.hook != nil {
		t.hook("decode")
	}
	if f := t.event("decode", ""); f != nil {
		return nil, t.strike(f, "decode", "")
	}
	return v.d.Decode(l, d, b)
}

// v2dec is a streaming decoder of the user around a real one.
type v2dec struct{ d catalog.Decoder }

func (v v2dec) Decode(l language.Tag, d string, b []byte) (catalog.Catalog, error) {
	return v1dec{v.d}.Decode(l, d, b)
}

func (v v2dec) DecodeReader(l language.Tag, d string, r io.Reader) (catalog.Catalog, error) {
	t := T()
	defer t.in()()
	if t.hook != nil {
		t.hook("decode")
	}
	if f := t.event("decode", ""); f != nil {
		return nil, t.strike(f, "decode", "")
	}
	var cat catalog.Catalog
	var err error
	if x, ok := v.d.(catalog.DecoderV2); ok {
		cat, err = x.DecodeReader(l, d, r)
	} else {
		var data []byte
		if data, err = io.ReadAll(r); err == nil {
			cat, err = v.d.Decode(l, d, data)
		}
	}
	if err != nil {
		return nil, err
	}
	if f := t.event("decode", ""); f != nil {
		return nil, t.strike(f, "decode", "")
	}
	return cat, nil
}

type simResolver struct{ r spreak.Resolver }

func (s simResolver) Resolve(f fs.FS, ext string, l language.Tag, d string) (string, error) {
	t := T()
	defer t.in()()
	if t.hook != nil {
		t.hook("resolve")
	}
	if x := t.event("resolve", ""); x != nil {
		return "", t.strike(x, "resolve", "")
	}
	return s.r.Resolve(f, ext, l, d)
}

func (l *Loader) direct() bool { return l.Wrap&8 != 0 && l.Wrap&1 == 0 && len(l.Verdict) == 0 }

func realDecoder(e string) catalog.Decoder {
	switch e {
	case "po":
		return catalog.NewPoDecoder()
	case "mo":
		return catalog.NewMoDecoder()
	case "json":
		return catalog.NewJSONDecoder()
	case "cldrpo":
		return catalog.NewPoCLDRDecoder()
	case "cldrmo":
		return catalog.NewMoCLDRDecoder()
	}
	panic("decoder " + e)
}

func makeLoader(l *Loader, fsys fs.FS) (spreak.Loader, error) {
	fo, err := loaderOptions(l, fsys)
	if err != nil {
		return nil, err
	}
	return spreak.NewFilesystemLoader(fo...)
}

func loaderOptions(l *Loader, fsys fs.FS) ([]spreak.FsOption, error) {
	var fo []spreak.FsOption
	if l.Wrap&32 != 0 {
		fo = append(fo, spreak.WithPath(simrt.NewDir(fsys)))
	} else {
		fo = append(fo, spreak.WithFs(fsys))
	}
	exts := l.Exts
	if len(exts) == 0 && l.Wrap&18 != 0 {
		exts = l.exts()
	}
	for _, e := range exts {
		if l.Wrap&2 != 0 {
			fo = append(fo, spreak.WithDecoder(extOf(e), v1dec{realDecoder(e)}))
			continue
		}
		if l.Wrap&16 != 0 {
			fo = append(fo, spreak.WithDecoder(extOf(e), v2dec{realDecoder(e)}))
			continue
		}
		switch e {
		case "po":
			fo = append(fo, spreak.WithPoDecoder())
		case "mo":
			fo = append(fo, spreak.WithMoDecoder())
		case "json":
			fo = append(fo, spreak.WithJSONDecoder())
		default:
			fo = append(fo, spreak.WithDecoder(extOf(e), realDecoder(e)))
		}
	}
	if l.Category != "" || l.NoSearch || l.Wrap&4 != 0 {
		var ro []spreak.ResolverOption
		if l.Category != "" {
			ro = append(ro, spreak.WithCategory(l.Category))
		}
		if l.NoSearch {
			ro = append(ro, spreak.WithDisabledSearch())
		}
		res, err := spreak.NewDefaultResolver(ro...)
		if err != nil {
			return nil, err
		}
		if l.Wrap&4 != 0 {
			res = simResolver{res}
		}
		fo = append(fo, spreak.WithResolver(res))
	}
	return fo, nil
}

func makeParts(w *World) *parts {
	p := &parts{w: w, fs: newFS(w.fileMap(), w.FS)}
	for i := range w.Loaders {
		l, err := makeLoader(&w.Loaders[i], p.fs)
		if err != nil {
			p.err = err
			return p
		}
		c := &capLoader{inner: l, spec: &w.Loaders[i], wrap: w.Loaders[i].Wrap&1 != 0}
		p.caps = append(p.caps, c)
		p.loaders = append(p.loaders, c)
	}
	for _, o := range w.Opts {
		if bo := p.option(o); bo != nil {
			p.opts = append(p.opts, bo)
		}
	}
	return p
}

func langVals(vs []string) []any {
	var r []any
	for _, v := range vs {
		switch {
		case v == "!bad":
			r = append(r, 42)
		case strings.HasPrefix(v, "="):
			r = append(r, language.MustParse(v[1:]))
		default:
			r = append(r, v)
		}
	}
	return r
}

func (p *parts) option(o Opt) spreak.BundleOption {
	switch o.K {
	case "src":
		t, _ := optLang(o.V[0])
		return spreak.WithSourceLanguage(t)
	case "fb":
		return spreak.WithFallbackLanguage(langVals(o.V)[0])
	case "lang":
		vs := langVals(o.V)
		p.passed = append(p.passed, vs)
		return spreak.WithLanguage(vs...)
	case "req":
		vs := langVals(o.V)
		p.passed = append(p.passed, vs)
		return spreak.WithRequiredLanguage(vs...)
	case "matcher":
		return spreak.WithLanguageMatcherBuilder(func(ts []language.Tag, mo ...language.MatchOption) language.Matcher {
			userCode("matcher")
			m := language.NewMatcher(slices.Clone(ts), mo...)
			slices.Reverse(ts)
			return m
		})
	case "dom":
		i := atoi(o.V[0])
		l := &p.w.Loaders[i]
		if l.direct() {
			if fo, err := loaderOptions(l, p.fs); err == nil {
				if len(fo) == 1 && l.Wrap&32 != 0 {
					return spreak.WithDomainPath(l.Dom, simrt.NewDir(p.fs))
				}
				if len(fo) == 1 {
					return spreak.WithDomainFs(l.Dom, p.fs)
				}
				return spreak.WithFilesystemLoader(l.Dom, fo...)
			}
		}
		return spreak.WithDomainLoader(l.Dom, p.loaders[i])
	case "cb":
		return spreak.WithMissingTranslationCallback(func(err error) {
			t := T()
			defer t.in()()
			simrt.Y(25)
			t.cb = append(t.cb, canon(err))
			if f := t.hookEvent("callback"); f != nil {
				_ = t.strike(f, "callback", "")
			}
			if p.cbHook != nil {
				p.cbHook(t, err)
			}
		})
	case "defdom":
		return spreak.WithDefaultDomain(o.V[0])
	case "errctx":
		return spreak.WithErrorContext(o.V[0])
	}
	return nil
}

// recPrinter is a printer of the harness: its output names the language.
type recPrinter struct {
	inits int
	langs []string
	wild  bool // overwrites what it is given
}

// userCode announces that user code runs: the hook of the operation and faults
// that name this place apply.
func userCode(what string) {
	t := T()
	defer t.in()()
	if t.hook != nil {
		t.hook(what)
	}
	if f := t.hookEvent(what); f != nil {
		_ = t.strike(f, what, "")
	}
}

func (p *recPrinter) Init(ls []language.Tag) {
	userCode("init")
	p.inits++
	p.langs = nil
	for _, l := range ls {
		p.langs = append(p.langs, l.String())
	}
	if p.wild {
		slices.Reverse(ls)
	}
}

func (p *recPrinter) GetPrintFunc(l language.Tag) spreak.PrintFunc {
	userCode("getprint")
	name := l.String()
	return func(s string, v ...any) string {
		simrt.Y(26)
		userCode("print")
		text := recFormat(name, s, v)
		if p.wild {
			for i := range v {
				v[i] = "garbage"
			}
		}
		return text
	}
}

// build makes a bundle; every build has its own printer.
func (p *parts) build() (*spreak.Bundle, error) {
	if p.err != nil {
		return nil, p.err
	}
	opts := slices.Clone(p.opts)
	switch p.w.Printer {
	case 1, 3:
		opts = append(opts, spreak.WithPrinter(&recPrinter{wild: p.w.Printer == 3}))
	case 2:
		opts = append(opts, spreak.WithPrintFunction(func(s string, v ...any) string {
			simrt.Y(26)
			userCode("print")
			return recFormat("*", s, v)
		}))
	}
	return spreak.NewBundle(opts...)
}

// ---- lookup operations ----

var methods = []string{"Get", "Getf", "DGet", "DGetf", "NGet", "NGetf", "DNGet", "DNGetf", "PGet", "PGetf", "DPGet", "DPGetf", "NPGet", "NPGetf", "DNPGet", "DNPGetf",
	"Localize", "LocalizeWithError", "LocalizeError", "LocalizeErrorL"}

// lookOp is the decoded form of a "look" operation:
// A = [localizer, count type], S = [method, domain, context, id, plural, count, vars...]
type lookOp struct {
	loc    int
	meth   string
	dom    string
	ctx    string
	id     string
	plural string
	n      int64
	frac   string
	ntype  int
	vars   []any
}

func decodeLook(op Op) lookOp {
	k := lookOp{loc: op.A[0], ntype: op.A[1], meth: op.S[0], dom: op.S[1], ctx: op.S[2], id: op.S[3], plural: op.S[4]}
	num, frac, _ := strings.Cut(op.S[5], ".")
	k.n, k.frac = int64(atoi(num)), frac
	for _, v := range op.S[6:] {
		if strings.HasPrefix(v, "#") {
			k.vars = append(k.vars, atoi(v[1:]))
		} else {
			k.vars = append(k.vars, v)
		}
	}
	return k
}

const badCount = 9

func (k lookOp) count() any {
	switch k.ntype {
	case 1:
		return k.n
	case 2:
		return uint32(k.n)
	case 3:
		return float64(k.n)
	case 4:
		return fmt.Sprint(k.n)
	case 5:
		n := int(k.n)
		return &n
	case 6:
		if k.n < 128 && k.n > -128 {
			return int8(k.n)
		}
		return int32(k.n)
	case 7:
		if k.frac != "" {
			return fmt.Sprint(k.n) + "." + k.frac
		}
		return uint64(k.n)
	case 8:
		if k.frac != "" {
			x, _ := strconv.ParseFloat(fmt.Sprint(k.n)+"."+k.frac, 64)
			return x
		}
		if x := float32(k.n); int64(x) == k.n {
			return &x
		}
		return float64(k.n)
	case badCount:
		bad := []any{nil, "abc", nil, "", "1x", "1c", "1.2.3", "--1", "1c2c3", " 1", "1,5", struct{}{}, []int{1, 2}}
		return bad[int(abs64(k.n))%len(bad)]
	case 10:
		return namedInt(k.n)
	case 11:
		n := int32(k.n)
		q := &n
		return &q
	case 12:
		return json.Number(fmt.Sprint(k.n))
	}
	return int(k.n)
}

// namedInt is a number type of the user.
type namedInt int32

func (n namedInt) String() string { return "#" + strconv.Itoa(int(n)) }

// visible returns the fraction digits the code under test gets to see.
func (k lookOp) visible() string {
	if k.ntype == 8 {
		return strings.TrimRight(k.frac, "0")
	}
	if k.ntype == 7 {
		return k.frac
	}
	return ""
}

func (k lookOp) isN() bool {
	return strings.Contains(strings.TrimSuffix(strings.TrimSuffix(k.meth, "f"), "Get"), "N") && strings.Contains(k.meth, "Get")
}

// canonical form for the model
func (k lookOp) look(ml *mLocalizer) Look {
	l := Look{Dom: ml.dom, ID: k.id, N: k.n}
	switch {
	case strings.HasPrefix(k.meth, "LocalizeError"):
		l.Vars = nil
		l.Ctx = ml.b.errCtx
		if k.meth == "LocalizeErrorL" {
			l.Ctx = k.ctx
			l.Vars = k.vars
			if k.dom != "-" {
				l.Dom = k.dom
			}
			if k.plural != "" {
				l.HasPl, l.Plural = true, k.plural
			}
		}
		return l
	case strings.HasPrefix(k.meth, "Localize"):
		l.Ctx = k.ctx
		l.Vars = k.vars
		if k.dom != "-" {
			l.Dom = k.dom
		}
		if k.plural != "" {
			l.HasPl, l.Plural = true, k.plural
		}
		return l
	}
	pre := k.meth[:strings.Index(k.meth, "Get")]
	if strings.Contains(pre, "D") {
		l.Dom = k.dom
	}
	if strings.Contains(pre, "P") {
		l.Ctx = k.ctx
	}
	if strings.Contains(pre, "N") {
		l.HasPl = true
		l.Frac = k.visible()
		l.Plural = k.plural
		if ml.key {
			l.Plural = k.id
		}
	}
	if strings.HasSuffix(k.meth, "f") {
		l.Vars = k.vars
	}
	return l
}

type locMsg struct {
	k    lookOp
	hook bool
}

func (m locMsg) GetMsgID() string {
	userCode("localizable")
	return m.k.id
}
func (m locMsg) GetPluralID() string { return m.k.plural }
func (m locMsg) GetContext() string  { return m.k.ctx }
func (m locMsg) GetVars() []any      { return m.k.vars }
func (m locMsg) GetCount() int       { return int(m.k.n) }
func (m locMsg) HasDomain() bool     { return m.k.dom != "-" }
func (m locMsg) GetDomain() string   { return m.k.dom }

type locErr struct{ locMsg }

// plainErr is an error of the user that is no Localizable.
type plainErr string

func (e plainErr) Error() string {
	userCode("error")
	return string(e)
}

// wrapErr is an error of the user that wraps another one.
type wrapErr struct {
	text  string
	inner error
}

func (e *wrapErr) Error() string {
	userCode("error")
	return e.text
}
func (e *wrapErr) Unwrap() error { return e.inner }

func (e *locErr) Error() string {
	userCode("error")
	return "original " + e.k.id
}

// locz is the real counterpart of mLocalizer.
type locz struct {
	l *spreak.Localizer
	k *spreak.KeyLocalizer
}

func makeLocz(b *spreak.Bundle, s LocSpec) locz {
	if s.Key {
		var k *spreak.KeyLocalizer
		if s.HasDom {
			k = spreak.NewKeyLocalizerForDomain(b, s.Dom, s.langs()...)
		} else {
			k = spreak.NewKeyLocalizer(b, s.langs()...)
		}
		return locz{k.Localizer, k}
	}
	if s.HasDom {
		return locz{l: spreak.NewLocalizerForDomain(b, s.Dom, s.langs()...)}
	}
	return locz{l: spreak.NewLocalizer(b, s.langs()...)}
}

// realLook performs the lookup.
func realLook(z locz, k lookOp, r *opRes) {
	out := func(s string) { r.Vals = append(r.Vals, s) }
	n := k.count()
	if z.k != nil && strings.Contains(k.meth, "Get") {
		l := z.k
		switch k.meth {
		case "Get":
			out(l.Get(k.id))
		case "Getf":
			out(l.Getf(k.id, k.vars...))
		case "DGet":
			out(l.DGet(k.dom, k.id))
		case "DGetf":
			out(l.DGetf(k.dom, k.id, k.vars...))
		case "NGet":
			out(l.NGet(k.id, n))
		case "NGetf":
			out(l.NGetf(k.id, n, k.vars...))
		case "DNGet":
			out(l.DNGet(k.dom, k.id, n))
		case "DNGetf":
			out(l.DNGetf(k.dom, k.id, n, k.vars...))
		case "PGet":
			out(l.PGet(k.ctx, k.id))
		case "PGetf":
			out(l.PGetf(k.ctx, k.id, k.vars...))
		case "DPGet":
			out(l.DPGet(k.dom, k.ctx, k.id))
		case "DPGetf":
			out(l.DPGetf(k.dom, k.ctx, k.id, k.vars...))
		case "NPGet":
			out(l.NPGet(k.ctx, k.id, n))
		case "NPGetf":
			out(l.NPGetf(k.ctx, k.id, n, k.vars...))
		case "DNPGet":
			out(l.DNPGet(k.dom, k.ctx, k.id, n))
		case "DNPGetf":
			out(l.DNPGetf(k.dom, k.ctx, k.id, n, k.vars...))
		}
		return
	}
	l := z.l
	switch k.meth {
	case "Get":
		out(l.Get(k.id))
	case "Getf":
		out(l.Getf(k.id, k.vars...))
	case "DGet":
		out(l.DGet(k.dom, k.id))
	case "DGetf":
		out(l.DGetf(k.dom, k.id, k.vars...))
	case "NGet":
		out(l.NGet(k.id, k.plural, n))
	case "NGetf":
		out(l.NGetf(k.id, k.plural, n, k.vars...))
	case "DNGet":
		out(l.DNGet(k.dom, k.id, k.plural, n))
	case "DNGetf":
		out(l.DNGetf(k.dom, k.id, k.plural, n, k.vars...))
	case "PGet":
		out(l.PGet(k.ctx, k.id))
	case "PGetf":
		out(l.PGetf(k.ctx, k.id, k.vars...))
	case "DPGet":
		out(l.DPGet(k.dom, k.ctx, k.id))
	case "DPGetf":
		out(l.DPGetf(k.dom, k.ctx, k.id, k.vars...))
	case "NPGet":
		out(l.NPGet(k.ctx, k.id, k.plural, n))
	case "NPGetf":
		out(l.NPGetf(k.ctx, k.id, k.plural, n, k.vars...))
	case "DNPGet":
		out(l.DNPGet(k.dom, k.ctx, k.id, k.plural, n))
	case "DNPGetf":
		out(l.DNPGetf(k.dom, k.ctx, k.id, k.plural, n, k.vars...))
	case "Localize":
		out(l.Localize(k.localizable()))
	case "LocalizeWithError":
		s, err := l.LocalizeWithError(k.localizable())
		out(s)
		r.Err, r.HasErr = err, true
	case "LocalizeError", "LocalizeErrorL":
		var in error = plainErr(k.id)
		switch { // what an error wraps has no influence
		case k.meth == "LocalizeErrorL":
			in = &locErr{locMsg{k: k}}
		case k.ntype == 4:
			in = &wrapErr{k.id, plainErr(msgPool[6+int(uint64(k.n)%4)].ID)}
		case k.ntype == 5:
			in = &wrapErr{k.id, &locErr{locMsg{k: k}}}
		case k.ntype == 6:
			in = &localize.Error{Translation: k.id, Wrapped: plainErr(msgPool[6].ID)}
		}
		got := l.LocalizeError(in)
		var le *localize.Error
		switch {
		case got == in:
			out("unchanged")
		case errors.As(got, &le):
			out("wrapped:" + got.Error())
			if !errors.Is(got, in) || errors.Unwrap(got) != in {
				out("lost the original error")
			}
		default:
			out(fmt.Sprintf("neither: %v", got))
		}
	}
}

func (k lookOp) localizable() localize.Localizable {
	if k.dom == "-" && k.n%2 == 0 {
		return &localize.Message{Singular: k.id, Plural: k.plural, Context: k.ctx, Vars: k.vars, Count: int(k.n)}
	}
	return locMsg{k: k}
}

// expectation of one lookup
type expLook struct {
	vals    []string // first value alternatives
	err     string   // canonical error alternatives, "" success
	hasErr  bool
	cbs     []string
	badN    bool
	level   int
	comment string
}

func expectLook(ml *mLocalizer, k lookOp, faults map[string]string) expLook {
	l := k.look(ml)
	res := ml.look(l, faults)
	e := expLook{vals: []string{res.text}, err: res.err, cbs: res.cbs, level: res.level}
	if len(res.errs) > 0 {
		e.err = strings.Join(res.errs, "|")
	}
	if k.ntype == badCount && k.isN() {
		e.badN = true
		b := ml.b
		e.vals = []string{b.format(b.source.lang, l.ID, l.Vars)}
		if l.Plural != "" {
			e.vals = append(e.vals, b.format(b.source.lang, l.Plural, l.Vars))
		}
		return e
	}
	switch k.meth {
	case "LocalizeError", "LocalizeErrorL":
		if e.err == "" {
			e.vals = []string{"wrapped:" + res.text}
		} else {
			e.vals = []string{"unchanged"}
		}
	case "LocalizeWithError":
		e.hasErr = true
	}
	return e
}

const (
	cmpText = 1
	cmpErr  = 2
	cmpCB   = 4
)

// compareLook judges the result of one lookup.
func compareLook(o *Outcome, what int, op Op, r *opRes, e expLook) {
	o.Evals++
	if r == nil || !r.Done {
		o.violate("lost-operation", "operation %d did not finish", op.ID)
		return
	}
	if r.Panic != "" {
		o.violate("panic", "op %d %v panicked: %s", op.ID, op.S, r.Panic)
		return
	}
	if what&cmpText != 0 {
		if len(r.Vals) != 1 || !slices.Contains(e.vals, r.Vals[0]) {
			o.violate("wrong-text", "op %d %q on localizer %d: got %q, want %q", op.ID, op.S, op.A[0], r.Vals, e.vals)
			return
		}
	}
	if e.badN {
		return
	}
	if what&cmpErr != 0 && r.HasErr {
		got := canon(r.Err)
		if (got == "") != (e.err == "") || e.err != "" && e.err != "nolocale" && !matches(got, e.err) {
			o.violate("wrong-error", "op %d %q on localizer %d: got error %q (%v), want %q", op.ID, op.S, op.A[0], got, r.Err, e.err)
			return
		}
	}
	if what&cmpCB != 0 {
		ok := len(r.CB) == len(e.cbs)
		for i := 0; ok && i < len(e.cbs); i++ {
			ok = matches(r.CB[i], e.cbs[i])
		}
		if !ok {
			o.violate("wrong-callbacks", "op %d %q on localizer %d: missing callback got %q, want %q", op.ID, op.S, op.A[0], r.CB, e.cbs)
		}
	}
}

// genLook draws a lookup operation.
func genLook(r *simrt.Rand, w *World, id, nloc int) Op {
	m := msgPool[r.Intn(len(msgPool))]
	if r.Chance(1, 12) {
		m = Msg{ID: "unknown message", Ctx: pickS(r, "", "menu", "noctx")}
	}
	meth := methods[r.Intn(len(methods))]
	dom := "-"
	if len(w.Loaders) > 0 {
		dom = w.Loaders[r.Intn(len(w.Loaders))].Dom
	}
	if r.Chance(1, 12) {
		dom = "nodomain"
	}
	if strings.HasPrefix(meth, "Localize") && r.Chance(1, 3) {
		dom = "-"
	}
	n := counts[r.Intn(len(counts))]
	nt, frac := pickI(r, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12), ""
	if (nt == 7 || nt == 8) && r.Chance(2, 3) {
		frac = "." + pickS(r, fractions...)
	}
	if r.Chance(1, 24) {
		n = -int64(pickI(r, 1, 1, 2, 5, 21, 102))
		frac = ""
		if nt == 2 || nt == 7 {
			nt = 1
		}
	}
	isN := strings.Contains(meth, "N")
	if isN && r.Chance(1, 40) {
		nt = badCount
	}
	pl := m.Plural
	if isN && pl == "" && r.Chance(1, 2) {
		pl = m.ID + "s"
	}
	if r.Chance(1, 12) && (isN || strings.HasPrefix(meth, "Localize")) {
		pl = m.ID
	}
	ctx := m.Ctx
	// singular methods are aimed at messages without context half the time
	if !strings.Contains(meth, "P") && strings.Contains(meth, "Get") && m.Ctx != "" && r.Chance(1, 2) {
		meth = "P" + meth
		if strings.HasPrefix(meth, "PD") {
			meth = strings.Replace(meth, "PD", "DP", 1)
		}
		if strings.Contains(meth, "PN") {
			meth = strings.Replace(meth, "PN", "NP", 1)
		}
	}
	if strings.HasPrefix(meth, "LocalizeErr") && r.Chance(2, 3) {
		m = msgPool[6+r.Intn(4)]
		pl, ctx = m.Plural, m.Ctx
	}
	op := Op{ID: id, K: "look", A: []int{r.Intn(nloc), nt}, S: []string{meth, dom, ctx, m.ID, pl, fmt.Sprint(n) + frac}}
	if strings.HasSuffix(meth, "f") || strings.HasPrefix(meth, "Localize") {
		for i := 0; i+1 < len(m.ID); i++ {
			if m.ID[i] == '%' {
				if m.ID[i+1] == 'd' {
					op.S = append(op.S, fmt.Sprintf("#%d", pickI(r, int(n), 1234567)))
				} else {
					op.S = append(op.S, pickS(r, "x", "wörld", "%d"))
				}
			}
		}
		if r.Chance(1, 20) {
			op.S = append(op.S, "extra")
		}
	}
	return op
}

// genLocs draws localizer specifications; they are setup operations "loc":
// A = [key, hasDom], S = [dom, langs...]
func genLoc(r *simrt.Rand, w *World, id int) Op {
	op := Op{ID: id, K: "loc", A: []int{b2i(r.Chance(1, 4)), 0}, S: []string{""}}
	if r.Chance(1, 2) && len(w.Loaders) > 0 {
		op.A[1] = 1
		op.S[0] = w.Loaders[r.Intn(len(w.Loaders))].Dom
		if r.Chance(1, 10) {
			op.S[0] = "nodomain"
		}
	}
	tags := map[string]bool{}
	for _, o := range w.Opts {
		switch o.K {
		case "src", "fb", "lang", "req":
			for _, v := range o.V {
				if t, err := optLang(v); err == nil {
					tags[t.String()] = true
				}
			}
		}
	}
	known := sortedSet(tags)
	n := 1 + r.Intn(2)
	for i := 0; i < n; i++ {
		t := pickS(r, known...)
		switch r.Intn(8) {
		case 0:
			op.S = append(op.S, t+";q=0.9,xx;q=0.1")
		case 1:
			op.S = append(op.S, t+"-x-priv")
		case 2:
			op.S = append(op.S, pickS(r, "=sw", "=de-CH", "=es-419", "zh", "!bad", "not a language"))
		default:
			op.S = append(op.S, "="+t)
		}
	}
	if r.Chance(1, 15) {
		op.S = op.S[:1]
	}
	return op
}

func locSpec(op Op) LocSpec {
	return LocSpec{Key: op.A[0] == 1, HasDom: op.A[1] == 1, Dom: op.S[0], Langs: op.S[1:]}
}

// sorted returns a sorted copy.
func sorted(s []string) []string {
	c := slices.Clone(s)
	sort.Strings(c)
	return c
}

func tagStrings(ts []language.Tag) []string {
	var r []string
	for _, t := range ts {
		r = append(r, t.String())
	}
	sort.Strings(r)
	return r
}

// faultsOf returns the catalog faults of an operation.
func (p *Plan) faultsOf(op int) map[string]string {
	var m map[string]string
	for _, f := range p.Faults {
		if f.Op == op && f.Kind == "cat" {
			if m == nil {
				m = map[string]string{}
			}
			m[f.Path] = f.Err
		}
	}
	return m
}
