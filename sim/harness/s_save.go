package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"slices"
	"sort"
	"strings"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/catalog/cldrplural"
	"github.com/vorlif/spreak/catalog/po"
	"github.com/vorlif/spreak/humanize"
	"github.com/vorlif/spreak/zz_verif/simrt"
)

func init() {
	scenarios["C12"] = &scenario{genC12, runC12}
	scenarios["C13"] = &scenario{genC13, runC13}
	scenarios["C14"] = &scenario{genC14, runC14}
}

// encSettings are the settings of a po encoder: wrap width, header, empty header,
// references, sort function.
func genSettings(r *simrt.Rand, keepHeader bool) []int {
	w := pickI(r, -1, -1, 0, 1, 2, 10, 20, 40, 76, 80, 200)
	if r.Chance(1, 4) {
		w = r.Intn(120)
	}
	h := 1
	if !keepHeader && r.Chance(1, 4) {
		h = 0
	}
	return []int{w, h, r.Intn(2), r.Intn(2), pickI(r, 0, 0, 0, 1, 2)}
}

func applySettings(enc *po.Encoder, a []int) {
	enc.SetWrapWidth(a[0])
	enc.SetWriteHeader(a[1] == 1)
	enc.SetWriteEmptyHeader(a[2] == 1)
	enc.SetWriteReferences(a[3] == 1)
	switch a[4] {
	case 1:
		enc.SetSortFunction(nil)
	case 2:
		enc.SetSortFunction(func(a, b *po.Message) int { return len(a.ID) - len(b.ID) })
	}
}

// simWriter is a writer whose failures the plan decides.
type simWriter struct {
	got    []byte
	failed bool
	writes int
}

func (w *simWriter) Write(b []byte) (int, error) {
	simrt.Y(25)
	t := T()
	defer t.in()()
	w.writes++
	if t.hook != nil {
		t.hook("write")
	}
	if f := t.event("write", ""); f != nil {
		n := min(f.N, len(b))
		if f.N < 0 {
			n = len(b) * -f.N / 100
		}
		w.got = append(w.got, b[:n]...)
		w.failed = true
		return n, t.strike(f, "write", "")
	}
	w.got = append(w.got, b...)
	return len(b), nil
}

// ---- C12 ----

func genC12(r *simrt.Rand, tier string) *Plan {
	p := &Plan{MapSeed: r.Next(), N: map[string]int{}}
	p.Doc = genDoc(r, docOpts{kind: pickS(r, "po", "po", "json"), max: 10, ctl: true})
	if r.Chance(1, 10) {
		p.Doc.Pad = pickI(r, 5000, 50_000, 60_000, 200_000)
	}
	id := 0
	nt := pickI(r, 1, 1, 1, 2, 3)
	for i := 0; i < nt; i++ {
		var ops []Op
		set := genSettings(r, false)
		for n := 1 + r.Intn(5); n > 0; n-- {
			op := Op{ID: id, K: pickS(r, "enc", "enc", "enc", "enc", "nil", "marshal", "fresh", "enc2"), A: set}
			if r.Chance(1, 8) {
				// sorting with the default function may reorder the references of the file
				mode := set[4]
				set = genSettings(r, false)
				set[4] = mode
			}
			if op.K == "marshal" && set[4] != 0 || op.K == "enc2" && p.Doc.Kind == "json" {
				op.K = "enc"
			}
			if r.Chance(3, 5) {
				f := Fault{Op: id, Kind: "write", Err: pickS(r, append(slices.Clone(errKinds), "panic", "panic")...), N: pickI(r, 0, 0, 1, 17, 1000, -50, -99, -100, 1<<30)}
				if r.Chance(1, 10) {
					f.Nth = r.Intn(3)
				}
				p.Faults = append(p.Faults, f)
			}
			ops = append(ops, op)
			id++
		}
		p.Tasks = append(p.Tasks, ops)
	}
	p.Sched = genSched(r)
	p.Sched.Max = 100_000_000
	return p
}

// part is a smaller document with the same header.
func (d *Doc) part() *Doc {
	q := *d
	q.Pad = 0
	q.Entries = d.Entries[:len(d.Entries)/2]
	if len(d.Entries)%3 == 0 {
		q.Entries = nil
	}
	return &q
}

func encodePO(f *po.File, set []int) ([]byte, error) {
	var b bytes.Buffer
	enc := po.NewEncoder(&b)
	applySettings(enc, set)
	err := enc.Encode(f)
	return b.Bytes(), err
}

// swapWriter lets one encoder write to a new writer in every operation.
type swapWriter struct{ w io.Writer }

func (s *swapWriter) Write(b []byte) (int, error) { return s.w.Write(b) }

func runC12(p *Plan, o *Outcome) {
	d := p.Doc
	tag := language.MustParse(d.Lang)
	var cat catalog.JSONCatalog
	type base struct {
		data []byte
		err  error
	}
	bases := map[string]base{}
	pan, hung := solo(100_000_000, func() {
		if d.Kind == "json" {
			var err error
			cat, err = catalog.NewJSONCatalogWithMessages(tag, "d", d.jsonMessages(0))
			if err != nil {
				o.violate("setup-error", "creating the catalog failed: %v", err)
				return
			}
			var b bytes.Buffer
			e := catalog.NewJSONEncoder(&b).Encode(cat)
			bases["json"] = base{b.Bytes(), e}
			d2, e := json.Marshal(cat)
			bases["jsonmarshal"] = base{d2, e}
			return
		}
		for _, ops := range p.Tasks {
			for _, op := range ops {
				if _, known := bases[fmt.Sprint(op.A)]; known {
					continue
				}
				b, e := encodePO(d.file(0, true), op.A)
				bases[fmt.Sprint(op.A)] = base{b, e}
				b, e = encodePO(d.part().file(0, true), op.A)
				bases[fmt.Sprint("2", op.A)] = base{b, e}
			}
		}
		b, e := po.Marshal(d.file(0, true))
		bases["marshal"] = base{b, e}
	})
	if o.V != nil {
		return
	}
	if pan != "" || hung {
		o.violate("panic", "encoding %s to memory: %s", d.Kind, pan)
		return
	}
	for k, b := range bases {
		if b.err != nil {
			o.violate("encode-error", "encoding %s to memory (%s) fails: %v", d.Kind, k, b.err)
			return
		}
	}
	files := make([]*po.File, len(p.Tasks))
	files2 := make([]*po.File, len(p.Tasks))
	sets := make([]string, len(p.Tasks))
	encs := make([]*po.Encoder, len(p.Tasks))
	jencs := make([]*catalog.JSONEncoder, len(p.Tasks))
	sws := make([]*swapWriter, len(p.Tasks))
	for i := range files {
		files[i] = d.file(0, true)
		files2[i] = d.part().file(0, true)
		sws[i] = &swapWriter{}
		encs[i] = po.NewEncoder(sws[i])
		jencs[i] = catalog.NewJSONEncoder(sws[i])
	}
	ok := runTasks(p, o, func(t *tstate, op Op) {
		i := t.idx
		t.do(p, op, func(r *opRes) {
			w := &simWriter{}
			r.Extra = w
			sws[i].w = w
			r.HasErr = true
			switch op.K {
			case "nil":
				if d.Kind == "json" {
					r.Err = jencs[i].Encode(nil)
				} else if op.ID%3 == 0 {
					w.got, r.Err = po.Marshal(nil)
				} else {
					r.Err = encs[i].Encode(nil)
				}
			case "marshal":
				var b []byte
				if d.Kind == "json" {
					b, r.Err = json.Marshal(cat)
				} else {
					b, r.Err = po.Marshal(files[i])
				}
				w.got = b
			case "fresh":
				if d.Kind == "json" {
					r.Err = catalog.NewJSONEncoder(w).Encode(cat)
					return
				}
				e := po.NewEncoder(w)
				applySettings(e, op.A)
				r.Err = e.Encode(files[i])
			default:
				if d.Kind == "json" {
					r.Err = jencs[i].Encode(cat)
					return
				}
				e := encs[i]
				if s := fmt.Sprint(op.A); s != sets[i] { // the encoder keeps its settings
					if op.A[4] != 1 && op.A[4] != 2 {
						e.SetSortFunction(po.DefaultSortFunction)
					}
					applySettings(e, op.A)
					sets[i] = s
				}
				if op.K == "enc2" {
					r.Err = e.Encode(files2[i])
				} else {
					r.Err = e.Encode(files[i])
				}
			}
		})
	})
	countFired(o)
	if !ok {
		return
	}
	res := resByID()
	fired := 0
	for _, ops := range p.Tasks {
		for _, op := range ops {
			r := res[op.ID]
			if r == nil || !r.Done {
				continue
			}
			o.Evals++
			w := r.Extra.(*simWriter)
			var full []byte
			wantErr := false
			switch {
			case op.K == "nil" && d.Kind == "json":
				full = []byte("{}")
			case op.K == "nil":
				wantErr = true
			case op.K == "marshal" && d.Kind == "json":
				full = bases["jsonmarshal"].data
			case op.K == "marshal":
				full = bases["marshal"].data
			case d.Kind == "json":
				full = bases["json"].data
			case op.K == "enc2":
				full = bases[fmt.Sprint("2", op.A)].data
			default:
				full = bases[fmt.Sprint(op.A)].data
			}
			fired += len(r.Fired)
			o.note(string(w.got), r.Panic, fmt.Sprint(r.Err != nil))
			o.Key = o.Key*31 + hashStr(firedText(r)) + uint64(len(w.got))
			if !bytes.HasPrefix(full, w.got) {
				o.violate("bytes", "op %d (%s of %s, settings %v): the bytes accepted by the writer are not a prefix of the complete output: %s", op.ID, op.K, d.Kind, op.A, diffBytes(w.got, full))
				return
			}
			switch {
			case r.Panic != "":
				if len(r.Fired) == 0 || !strings.HasPrefix(r.Panic, "injected:") {
					o.violate("panic", "op %d (%s of %s): %s", op.ID, op.K, d.Kind, r.Panic)
					return
				}
			case len(r.Fired) > 0:
				if r.Err == nil || !isInjected(r.Err, r.Fired[0].err) {
					o.violate("error-lost", "op %d (%s of %s): the writer failed with %v, Encode returned %v", op.ID, op.K, d.Kind, r.Fired[0].err, r.Err)
					return
				}
			case wantErr:
				if r.Err == nil {
					o.violate("nil", "op %d: encoding a nil po file succeeds", op.ID)
					return
				}
			case r.Err != nil:
				o.violate("spurious-error", "op %d (%s of %s): the writer did not fail, but Encode returns %v", op.ID, op.K, d.Kind, r.Err)
				return
			case !bytes.Equal(w.got, full):
				o.violate("incomplete", "op %d (%s of %s, settings %v): Encode succeeds, but the output is incomplete: %s", op.ID, op.K, d.Kind, op.A, diffBytes(w.got, full))
				return
			}
		}
	}
	o.Key ^= o.Digest
	o.Nontrivial = fired > 0
}

func diffBytes(got, want []byte) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	cut := func(b []byte) []byte { return b[min(len(b), max(0, i-30)):min(len(b), i+60)] }
	return fmt.Sprintf("lengths %d and %d, at byte %d: got %q, want %q", len(got), len(want), i, cut(got), cut(want))
}

// ---- C13 ----

var ruleFields = []string{"n", "i", "f", "t", "v", "w", "c", "e"}

func genRules(r *simrt.Rand) []string {
	var rs []string
	for i := 0; i < 6; i++ {
		if r.Chance(1, 2) {
			s := pickS(r, "@integer 0~15, 100 @decimal 0.1~1.0", "@integer 0~15", "@decimal 0.0~1.5", "@integer 0, 1, …")
			if i < 5 {
				var ors []string
				for j := 1 + r.Intn(2); j > 0; j-- {
					var ands []string
					for k := 1 + r.Intn(2); k > 0; k-- {
						x := ruleFields[r.Intn(len(ruleFields))]
						if r.Chance(1, 2) {
							x += fmt.Sprintf(" %% %d", pickI(r, 10, 100))
						}
						ands = append(ands, x+pickS(r, " = ", " != ")+pickS(r, "0", "1", "2..4", "0,1", "3..10", "11..19"))
					}
					ors = append(ors, strings.Join(ands, " and "))
				}
				s = strings.Join(ors, " or ")
				if r.Chance(1, 3) {
					s += " @integer 1, 2, 5"
				}
			}
			rs = append(rs, fmt.Sprintf("%d=%s", i, s))
		}
	}
	return rs
}

func genC13(r *simrt.Rand, tier string) *Plan {
	p := &Plan{MapSeed: r.Next(), N: map[string]int{"k": 3 + r.Intn(4)}}
	kind := pickS(r, "po", "po", "json", "mo")
	p.Doc = genDoc(r, docOpts{kind: kind, max: 12, ctl: kind != "mo"})
	if kind == "po" || kind == "mo" {
		if r.Chance(1, 3) {
			for i := range p.Doc.Entries { // ties
				p.Doc.Entries[i].Flags = nil
			}
		}
		if p.Doc.Hdr > 0 && r.Chance(1, 3) { // the same field in several spellings
			for n := 2 + r.Intn(2); n > 0; n-- {
				p.Doc.Header = append(p.Doc.Header, pickS(r, "X-spreak-use-CLDR", "X-Spreak-Use-CLDR", "x-spreak-use-cldr"), pickS(r, "true", "false", "TRUE", ""))
			}
			for n := r.Intn(3); n > 0; n-- {
				p.Doc.Header = append(p.Doc.Header, pickS(r, "Plural-Forms", "plural-forms", "PLURAL-FORMS", "language", "LANGUAGE", "X-CUSTOM"), pickS(r, "nplurals=2; plural=0;", "nplurals=2; plural=n==1;", ""))
			}
		}
	}
	id := 0
	var ops []Op
	for n := 1 + r.Intn(4); n > 0; n-- {
		op := Op{ID: id}
		switch r.Intn(8) {
		case 0, 1, 2:
			op.K = map[string]string{"po": "poenc", "mo": "dec", "json": "jsonenc"}[kind]
			if kind == "po" && r.Chance(1, 3) {
				op.K = "pomerge"
			}
			op.A = genSettings(r, false)
		case 3:
			op.K = "dec"
			op.A = []int{r.Intn(2)}
		case 4:
			op.K = "rules"
			op.S = genRules(r)
		case 5:
			op.K = "hget"
			for i := 1 + r.Intn(4); i > 0; i-- {
				op.S = append(op.S, pickS(r, "X-Custom", "x-custom", "X-CUSTOM", "x-Custom", "X-Other", "x-other"), genText(r, nil, 2))
			}
		case 6:
			op.K = "rawjson"
			op.S = []string{genRawJSON(r)}
			if r.Chance(1, 2) {
				op.S = append(op.S, genRawJSON(r))
			}
		case 7:
			if r.Chance(1, 2) {
				op.K = "hum"
				op.S = genHumTies(r)
				op.A = []int{r.Intn(3)}
			} else {
				op.K = "bundle"
				p.World = genWorld(r, worldOpts{})
				p.World.FS &^= fsChunked
				op.A = []int{r.Intn(1 << 20)}
			}
		}
		ops = append(ops, op)
		id++
	}
	p.Tasks = [][]Op{ops}
	return p
}

// genRawJSON draws a JSON document with keys that collide in one way or another.
func genRawJSON(r *simrt.Rand) string {
	var items []string
	for i := 1 + r.Intn(5); i > 0; i-- {
		k := pickS(r, "a", "b", "A", "a_menu", "b_menu", "a_menu_x", "c")
		v := jsonStr(pickS(r, "t1", "t2", "t3", ""))
		if r.Chance(2, 3) {
			var f []string
			for _, c := range []string{"context", "Context", "comment", "COMMENT", "one", "One", "other", "Other", "OTHER", "few", "zero"} {
				if c == "context" && r.Chance(1, 3) && strings.Contains(k, "menu") {
					f = append(f, `"context":`+jsonStr(pickS(r, "menu", "menu_x", "x")))
				} else if c == "other" || strings.ToLower(c) != "context" && r.Chance(1, 4) {
					f = append(f, jsonStr(c)+":"+jsonStr(pickS(r, "u1", "u2", "u3", "")))
				}
			}
			v = "{" + strings.Join(f, ",") + "}"
		}
		items = append(items, jsonStr(k)+":"+v)
	}
	return "{" + strings.Join(items, ",") + "}"
}

func genHumTies(r *simrt.Rand) []string {
	all := []string{"es-AR", "es-MX", "es-CO", "es-VE", "es", "pt", "pt-BR", "zh-Hans", "zh-Hant", "en-GB", "en-AU", "sr", "sr-Latn", "nb", "nn", "de"}
	var s []string
	for n := 2 + r.Intn(4); n > 0; n-- {
		x := all[r.Intn(len(all))]
		if !slices.Contains(s, x) {
			s = append(s, x)
		}
	}
	return s
}

var humAsk = []string{"es-CO", "es", "es-419", "es-PE", "pt-PT", "zh", "zh-TW", "en", "en-US", "de-AT", "sr", "fr-BE", "nb", "no", "it"}

func runC13(p *Plan, o *Outcome) {
	d := p.Doc
	tag := language.MustParse(d.Lang)
	t := ts[0]
	k := max(p.N["k"], 2)
	for _, op := range p.Tasks[0] {
		t.begin(p, op)
		var first string
		for v := 0; v < k; v++ {
			simrt.SetMapSeed(mix(p.MapSeed, uint64(v)+1))
			order := uint64(0)
			if v > 0 {
				order = mix(p.MapSeed, uint64(v)+77)
			}
			var got string
			pan, hung := solo(100_000_000, func() { got = d.variant(p, op, tag, order) })
			o.Evals++
			if pan != "" || hung {
				o.violate("panic", "%s (variant %d): %s", op.K, v, pan)
				return
			}
			if v == 0 {
				first = got
				o.note(got)
				o.Key = o.Key*31 + hashStr(got)
				continue
			}
			if got != first {
				o.violate("order-dependent", "%s: the result depends on the map iteration or insertion order: %s", op.K, diff(strings.Split(got, "\n"), strings.Split(first, "\n")))
				return
			}
		}
		o.Fired["order-"+op.K] += k
	}
	o.Nontrivial = true
}

// variant executes an operation; order decides the order of insertions.
func (d *Doc) variant(p *Plan, op Op, tag language.Tag, order uint64) string {
	fail := func(err error) string { return "failed" }
	switch op.K {
	case "poenc":
		f := d.file(order, true)
		b, err := encodePO(f, op.A)
		if err != nil {
			return fail(err)
		}
		b2, err := encodePO(f, op.A)
		if err != nil || !bytes.Equal(b, b2) {
			return "encoding twice differs\n" + string(b) + string(b2)
		}
		return string(b)
	case "pomerge":
		b, err := encodePO(d.mergedFile(order), op.A)
		if err != nil {
			return fail(err)
		}
		return string(b)
	case "jsonenc":
		c, err := catalog.NewJSONCatalogWithMessages(tag, "d", d.jsonMessages(order))
		if err != nil {
			return fail(err)
		}
		var b bytes.Buffer
		if err := catalog.NewJSONEncoder(&b).Encode(c); err != nil {
			return fail(err)
		}
		return b.String() + d.descr(c, nil)
	case "dec":
		data := d.render()
		c, err := d.decoder(len(op.A) > 0 && op.A[0] == 1).Decode(tag, "d", data)
		s := d.descr(c, err)
		if d.Kind == "po" {
			f, err := po.Parse(data)
			s += fileDescr(f, err)
			if err == nil {
				for _, k := range []string{"X-Custom", "x-custom", "X-CUSTOM", "x-domain", "X-Domain"} {
					s += "\n" + k + "=" + f.Header.Get(k)
				}
				b, err := encodePO(f, []int{-1, 1, 1, 1, 0})
				s += "\n" + string(b) + fmt.Sprint(err == nil)
			}
		}
		return s
	case "rawjson":
		c := catalog.NewJSONCatalog(tag, "d")
		for _, raw := range op.S {
			if err := json.Unmarshal([]byte(raw), c); err != nil {
				return fail(err) // the content is unspecified
			}
		}
		b, err := json.Marshal(c)
		return contentOf(c) + "\n" + string(b) + fmt.Sprint(err == nil)
	case "hget":
		h := &po.Header{UnknownFields: map[string]string{}}
		var kv [][2]string
		for i := 0; i+1 < len(op.S); i += 2 {
			dup := false
			for j := range kv {
				if kv[j][0] == op.S[i] {
					dup = true
				}
			}
			if !dup {
				kv = append(kv, [2]string{op.S[i], op.S[i+1]})
			}
		}
		for _, i := range permutation(order, len(kv)) {
			h.Set(kv[i][0], kv[i][1])
		}
		s := ""
		for _, k := range []string{"X-Custom", "x-custom", "X-CUSTOM", "x-cUSTOM", "X-Other", "x-OTHER", "X-None"} {
			s += k + "=" + h.Get(k) + "\n"
		}
		b, err := po.Marshal(&po.File{Header: h})
		return s + string(b) + fmt.Sprint(err == nil)
	case "rules":
		m := map[cldrplural.Category]string{}
		for _, i := range permutation(order, len(op.S)) {
			k, v, _ := strings.Cut(op.S[i], "=")
			m[cldrplural.Category(atoi(k))] = v
		}
		rs, err := cldrplural.ParseRules(m)
		if err != nil {
			return fail(err)
		}
		s := fmt.Sprint(rs.Categories)
		for _, n := range []any{0, 1, 2, 3, 5, 11, 21, 100, 1.5, "1.0", "0.1", 1e6, "1c6", "1.5c3", "12c1"} {
			c, err := rs.Evaluate(n)
			s += fmt.Sprintf(" %v:%v,%v", n, c, err == nil)
		}
		return s
	case "hum":
		return humTies(op)
	case "bundle":
		return bundleVariant(p, op)
	}
	return ""
}

// humTies builds a collection for languages that match a request equally well.
func humTies(op Op) string {
	opts := []humanize.Option{}
	if len(op.A) > 0 && op.A[0] == 1 {
		opts = append(opts, humanize.WithBundleOption(spreak.WithFallbackLanguage(language.MustParse(op.S[0]))))
	}
	for _, l := range op.S {
		opts = append(opts, humanize.WithLocale(realLocales[l]()))
	}
	c, err := humanize.New(opts...)
	if err != nil {
		return "failed"
	}
	s := ""
	for _, a := range humAsk {
		h := c.CreateHumanizer(a)
		s += fmt.Sprintf("%s: %s %s %s\n", a, h.Language(), h.Intword(1_200_000), h.Apnumber(3))
	}
	return s
}

func bundleVariant(p *Plan, op Op) string {
	parts := makeParts(p.World)
	if parts.err != nil {
		return "failed"
	}
	T().cb = nil
	b, err := parts.build()
	if err != nil {
		return "failed"
	}
	cbs := sorted(T().cb)
	doms := b.Domains()
	sort.Strings(doms)
	s := strings.Join(cbs, "\n") + fmt.Sprint(sorted(tagStrings(b.SupportedLanguages())), doms)
	r := simrt.NewRand(uint64(op.A[0]))
	q := &Plan{World: p.World}
	for i := 0; i < 6; i++ {
		spec := locSpec(genLoc(r, p.World, i))
		z := makeLocz(b, spec)
		s += "\n" + z.l.Language().String()
		for j := 0; j < 4; j++ {
			k := decodeLook(genLook(r, p.World, j, 1))
			res := &opRes{}
			T().cb = nil
			realLook(z, k, res)
			s += fmt.Sprintf("\n%q %v %v", res.Vals, canon(res.Err), T().cb)
		}
	}
	_ = q
	return s
}

// ---- C14 ----

func genC14(r *simrt.Rand, tier string) *Plan {
	p := &Plan{MapSeed: r.Next(), N: map[string]int{}}
	p.Doc = genDoc(r, docOpts{kind: pickS(r, "po", "po", "json"), max: 10, ctl: true, noFuzzy: false})
	d := p.Doc
	for i := range d.Entries {
		e := &d.Entries[i]
		if e.Plural != "" && d.Kind == "po" && r.Chance(1, 8) { // forms without an entry
			for k := range e.Str {
				if r.Chance(1, 2) {
					e.Str[k] = "-"
				}
			}
		}
		if e.Plural == "" && d.Kind == "po" && r.Chance(1, 10) { // forms without a plural id
			for n := 1 + r.Intn(3); n > 0; n-- {
				e.Str = append(e.Str, genText(r, ctlPieces, 3))
			}
			if r.Chance(1, 4) {
				e.Str[0] = "-"
			}
		}
	}
	if len(d.Entries) > 0 && r.Chance(1, 8) { // bytes that are no valid UTF-8
		for n := 1 + r.Intn(3); n > 0; n-- {
			e := &d.Entries[r.Intn(len(d.Entries))]
			if k := r.Intn(len(e.Str)); e.Str[k] != "-" {
				e.Str[k] = pickS(r, "", genText(r, ctlPieces, 3), e.Str[k]) + pickS(r, "\ufffd", "\ufffd", "\ufffd\ufffd", "\ufffdx") + pickS(r, "", genText(r, ctlPieces, 3), e.Str[k])
			}
		}
	}
	if len(d.Header) > 1 && r.Chance(1, 10) { // in values of the header too
		i := r.Intn(len(d.Header)/2)*2 + 1
		d.Header[i] = pickS(r, "", "team ", d.Header[i]) + pickS(r, "\ufffd", "\ufffd\ufffd", "\ufffdx") + pickS(r, "", " end", "ä")
	}
	if r.Chance(1, 12) {
		d.Pad = pickI(r, 300, 5000, 70000)
	}
	var ops []Op
	id := 0
	ops = append(ops, Op{ID: id, K: "full", A: genSettings(r, true)})
	set := ops[0].A
	for n := r.Intn(3); n > 0; n-- {
		id++
		ops = append(ops, Op{ID: id, K: pickS(r, "again", "merge"), A: append(slices.Clone(set), genSettings(r, true)[0], r.Intn(1<<24))})
	}
	for n := 4 + r.Intn(20); n > 0; n-- {
		id++
		ops = append(ops, Op{ID: id, K: "cut", A: append(slices.Clone(set), r.Intn(1<<24), r.Intn(4))})
	}
	p.Tasks = [][]Op{ops}
	return p
}

// savedForms returns what a reload must find; empty and missing forms are equal.
func (e *Entry) savedForms() map[int]string {
	m := map[int]string{}
	for k, s := range e.Str {
		if s != "-" && s != "" {
			m[k] = s
		}
	}
	return m
}

func nonEmpty(m map[int]string) map[int]string {
	r := map[int]string{}
	for k, s := range m {
		if s != "" {
			r[k] = s
		}
	}
	return r
}

func formText(m map[int]string) string {
	ks := make([]int, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	s := ""
	for _, k := range ks {
		s += fmt.Sprintf("[%d]=%q ", k, m[k])
	}
	return s
}

func runC14(p *Plan, o *Outcome) {
	d := p.Doc
	tag := language.MustParse(d.Lang)
	t := ts[0]
	saved := map[string][]byte{}
	cuts := 0
	for _, op := range p.Tasks[0] {
		t.begin(p, op)
		set := op.A[:5]
		key := fmt.Sprint(set)
		if op.K == "again" || op.K == "merge" {
			key = op.K + fmt.Sprint(op.A)
		}
		data, ok := saved[key]
		if !ok {
			w := &simWriter{}
			var err error
			pan, hung := solo(100_000_000, func() {
				if d.Kind == "json" {
					c, e := catalog.NewJSONCatalogWithMessages(tag, "d", d.jsonMessages(0))
					if e != nil {
						err = e
						return
					}
					err = catalog.NewJSONEncoder(w).Encode(c)
					if op.K == "again" && err == nil {
						c2, e := catalog.NewJSONDecoder().Decode(tag, "d", w.got)
						if e != nil {
							err = e
							return
						}
						w = &simWriter{}
						err = catalog.NewJSONEncoder(w).Encode(c2.(catalog.JSONCatalog))
					}
					return
				}
				f := d.file(0, true)
				switch op.K {
				case "merge":
					f = d.mergedFile(uint64(op.A[6]))
				case "again": // a file that was loaded is saved
					b, e := encodePO(f, append([]int{op.A[5]}, set[1:]...))
					if e == nil {
						f, e = po.Parse(b)
					}
					if e != nil {
						if d.Hdr+len(d.all()) == 0 {
							return
						}
						err = e
						return
					}
				}
				enc := po.NewEncoder(w)
				applySettings(enc, set)
				err = enc.Encode(f)
			})
			if pan != "" || hung || err != nil {
				o.violate("save", "saving %s fails: %s %v", d.Kind, pan, err)
				return
			}
			data = w.got
			saved[key] = data
			o.note(string(data))
			o.Key = o.Key*31 + hashStr(string(data))
		}
		disk := data
		if op.K == "cut" {
			disk = data[:cutPoint(data, op.A[5], op.A[6])]
			cuts++
			o.Fired["crash-while-saving"]++
		}
		var msg string
		pan, hung := solo(50_000_000, func() {
			if d.Kind == "json" {
				msg = d.reloadJSON(tag, data, disk)
			} else {
				msg = d.reloadPO(tag, disk, len(disk) == len(data), set, op.K == "merge")
			}
		})
		o.Evals++
		if pan != "" || hung {
			o.violate("panic", "reloading %d of %d saved bytes (%s, settings %v): %s", len(disk), len(data), d.Kind, set, pan)
			return
		}
		if msg != "" {
			tail := disk
			if len(tail) > 200 {
				tail = tail[len(tail)-200:]
			}
			o.violate(map[bool]string{true: "reload", false: "torn"}[len(disk) == len(data)], "reloading %d of %d saved bytes (%s, settings %v): %s; the saved bytes end with %q", len(disk), len(data), d.Kind, set, msg, tail)
			return
		}
	}
	o.Nontrivial = cuts > 0
}

// cutPoint chooses where the crash struck.
func cutPoint(data []byte, a, kind int) int {
	n := len(data)
	if n == 0 {
		return 0
	}
	at := a % n
	switch kind {
	case 0: // after a quote
		if i := bytes.IndexByte(data[at:], '"'); i >= 0 {
			return at + i + 1
		}
	case 1: // after a line
		if i := bytes.IndexByte(data[at:], '\n'); i >= 0 {
			return at + i + b2i(a%2 == 0)
		}
	case 2: // the last bytes
		return max(0, n-1-a%40)
	}
	return at
}

func (d *Doc) reloadJSON(tag language.Tag, data, disk []byte) string {
	c, err := catalog.NewJSONDecoder().Decode(tag, "d", bytes.Clone(disk))
	if len(bytes.TrimRight(disk, " \n\r\t")) < len(bytes.TrimRight(data, " \n\r\t")) {
		if err == nil {
			return "a torn json catalog is accepted"
		}
		return ""
	}
	if err != nil {
		return "fails: " + err.Error()
	}
	if got, want := contentOf(c), d.wantContent(); got != want {
		return "other content: " + diff(strings.Split(got, "\n"), strings.Split(want, "\n"))
	}
	return ""
}

func (d *Doc) reloadPO(tag language.Tag, disk []byte, full bool, set []int, merged bool) string {
	f, err := po.Parse(disk)
	es := d.all()
	if err != nil {
		if full && d.Hdr+len(es) > 0 {
			return "fails: " + err.Error()
		}
		_, err = catalog.NewPoDecoder().Decode(tag, "d", disk)
		if err == nil {
			return "the parser fails, but the decoder does not"
		}
		return ""
	}
	byKey := map[string]*Entry{}
	for i := range es {
		byKey[es[i].Ctx+"\x04"+es[i].ID] = &es[i]
	}
	count := 0
	var partial []string
	for ctx, m := range f.Messages {
		for id, msg := range m {
			count++
			if ctx != msg.Context || id != msg.ID {
				return fmt.Sprintf("entry %q/%q is filed under %q/%q", msg.Context, msg.ID, ctx, id)
			}
			e := byKey[ctx+"\x04"+id]
			if e != nil && e.Plural == msg.IDPlural && formText(nonEmpty(msg.Str)) == formText(e.savedForms()) {
				if full {
					var fl []string
					if msg.Comment != nil {
						fl = msg.Comment.Flags
					}
					if fmt.Sprint(sorted(fl)) != fmt.Sprint(sorted(e.Flags)) {
						return fmt.Sprintf("entry %q/%q has the flags %q instead of %q", ctx, id, fl, e.Flags)
					}
					if m := sameComment(msg.Comment, e.message(d, true).Comment, set[3] == 1, merged); m != "" {
						return fmt.Sprintf("entry %q/%q %s", ctx, id, m)
					}
				}
				continue
			}
			if full {
				if e == nil {
					return fmt.Sprintf("there is an entry %q/%q that was not saved", ctx, id)
				}
				return fmt.Sprintf("entry %q/%q (plural %q): %s, saved was (plural %q) %s", ctx, id, msg.IDPlural, formText(msg.Str), e.Plural, formText(e.savedForms()))
			}
			partial = append(partial, fmt.Sprintf("%q/%q plural %q %s", ctx, id, msg.IDPlural, formText(msg.Str)))
			if len(partial) > 1 {
				return "more than one entry differs from the saved ones: " + strings.Join(partial, "; ")
			}
			// a leading part of some saved entry
			ok := false
			for i := range es {
				if es[i].leading(msg) {
					ok = true
				}
			}
			if !ok {
				return fmt.Sprintf("entry %s is no leading part of a saved one", partial[0])
			}
		}
	}
	if full {
		if count != len(es) {
			return fmt.Sprintf("%d entries, saved were %d", count, len(es))
		}
		if d.Hdr > 0 {
			want := d.header(true)
			if g, w := strings.Join(dumpHeader(f.Header), "\n"), strings.Join(dumpHeader(want), "\n"); g != w {
				return "other header: " + diff(strings.Split(g, "\n"), strings.Split(w, "\n"))
			}
			if m := sameComment(f.Header.Comment, d.file(0, true).Header.Comment, set[3] == 1, false); m != "" && !merged {
				return "the header " + m
			}
			if m := checkGet(f.Header); m != "" {
				return "header lookup: " + m
			}
		}
	} else if d.Hdr > 0 && f.Header != nil {
		// header values are the saved ones or, for the last one, a leading part
		want := d.header(true)
		for _, k := range headerKeys {
			if !strings.HasPrefix(want.Get(k), f.Header.Get(k)) {
				return fmt.Sprintf("header %s is %q, saved was %q", k, f.Header.Get(k), want.Get(k))
			}
		}
	}
	c, err := catalog.NewPoDecoder().Decode(tag, "d", disk)
	if err != nil {
		if strings.Contains(err.Error(), "plural rule") && !full {
			return ""
		}
		return "the decoder fails: " + err.Error()
	}
	// the decoded catalog has the entries of the file that are not fuzzy
	var lines []string
	for ctx, m := range f.Messages {
		for id, msg := range m {
			if msg.Comment != nil && msg.Comment.HasFlag("fuzzy") {
				continue
			}
			ks := make([]int, 0)
			for k := range msg.Str {
				ks = append(ks, k)
			}
			for _, k := range ks {
				lines = append(lines, fmt.Sprintf("%q/%q[%d]=%q", ctx, id, k, msg.Str[k]))
			}
			if len(ks) == 0 {
				lines = append(lines, fmt.Sprintf("%q/%q", ctx, id))
			}
		}
	}
	sort.Strings(lines)
	if got, want := contentOf(c), strings.Join(lines, "\n"); got != want {
		return "the decoded catalog has other content: " + diff(strings.Split(got, "\n"), strings.Split(want, "\n"))
	}
	return ""
}

// sameComment compares the reloaded comment with the saved one. Wrapping may
// change the white space.
func sameComment(got, saved *po.Comment, references, merged bool) string {
	if got == nil {
		got = &po.Comment{}
	}
	if saved == nil {
		saved = &po.Comment{}
	}
	if g, w := strings.Fields(got.Translator), strings.Fields(saved.Translator); !slices.Equal(g, w) {
		return fmt.Sprintf("has the translator comment %q instead of %q", got.Translator, saved.Translator)
	}
	if g, w := strings.Fields(got.Extracted), strings.Fields(saved.Extracted); !slices.Equal(g, w) {
		return fmt.Sprintf("has the extracted comment %q instead of %q", got.Extracted, saved.Extracted)
	}
	list := func(c *po.Comment) []string {
		var l []string
		for _, r := range c.References {
			if r.Line > 0 {
				l = append(l, fmt.Sprintf("%s line %d", r.Path, r.Line))
			} else {
				l = append(l, r.Path)
			}
		}
		sort.Strings(l)
		if merged { // the same reference is kept once
			l = slices.Compact(l)
		}
		return l
	}
	w := list(saved)
	if !references {
		w = nil
	}
	if g := list(got); !slices.Equal(g, w) {
		return fmt.Sprintf("has the references %q instead of %q", g, w)
	}
	return ""
}

// leading tells whether the message is what remains of the entry when writing it
// was interrupted.
func (e *Entry) leading(m *po.Message) bool {
	if e.Ctx != m.Context || !strings.HasPrefix(e.ID, m.ID) {
		return false
	}
	if m.ID != e.ID {
		return m.IDPlural == "" && len(nonEmpty(m.Str)) == 0
	}
	if !strings.HasPrefix(e.Plural, m.IDPlural) {
		return false
	}
	saved := e.savedForms()
	got := nonEmpty(m.Str)
	if e.Plural != m.IDPlural {
		return len(got) == 0
	}
	last := -1
	for k := range got {
		last = max(last, k)
	}
	for k, s := range got {
		if k == last {
			if !strings.HasPrefix(saved[k], s) {
				return false
			}
		} else if saved[k] != s {
			return false
		}
	}
	for k := range saved {
		if k < last && got[k] != saved[k] {
			return false
		}
	}
	return true
}
