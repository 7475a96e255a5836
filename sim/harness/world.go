package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/vorlif/spreak/zz_verif/simrt"
)

// A World is everything a bundle is built from.
type World struct {
	Cats    []Cat    `json:"cats"`
	Files   []File   `json:"files"`
	Loaders []Loader `json:"loaders"`
	Opts    []Opt    `json:"opts"`
	Printer int      `json:"printer,omitempty"` // 0 default, 1 recording printer, 2 print function
	FS      int      `json:"fs"`
}

// Msg is a message of a catalog.
type Msg struct {
	Ctx    string `json:"c,omitempty"`
	ID     string `json:"i"`
	Plural string `json:"p,omitempty"`
	Empty  []int  `json:"e,omitempty"` // forms without text
	Fuzzy  bool   `json:"f,omitempty"`
}

// Cat is the content of one catalog file.
type Cat struct {
	Tag  string `json:"tag"` // language whose plural rules the file follows
	Fmt  string `json:"fmt"` // po, mo, json
	BE   bool   `json:"be,omitempty"`
	Hdr  int    `json:"hdr"` // 0: no plural header, 1: the language's formula, 2: with the CLDR flag, 3: another formula
	Mark string `json:"mark"`
	Msgs []Msg  `json:"msgs"`
	Pad  int    `json:"pad,omitempty"` // size of an additional long message
}

// File places a catalog.
type File struct {
	Path   string `json:"path"`
	Cat    int    `json:"cat"`
	Broken int    `json:"broken,omitempty"`
}

// Loader describes the loader of a domain.
type Loader struct {
	Dom      string   `json:"dom"`
	Exts     []string `json:"exts,omitempty"` // po, mo, json, cldrpo (ext .po with CLDR decoder), cldrmo; empty: defaults
	Category string   `json:"category,omitempty"`
	NoSearch bool     `json:"nosearch,omitempty"`
	Wrap     int      `json:"wrap,omitempty"`    // bit 0: catalogs that can fail, bit 1: v1 decoders only, bit 2: custom resolver wrapper, bit 3: WithFilesystemLoader, bit 4: streaming decoder wrapper, bit 5: behind a path
	Verdict  []string `json:"verdict,omitempty"` // "tag=notfound|wrapped|fail": what the loader says instead
}

func (l *Loader) verdict(tag string) string {
	for _, v := range l.Verdict {
		if t, k, _ := strings.Cut(v, "="); t == tag {
			return k
		}
	}
	return ""
}

// Opt is one bundle option.
type Opt struct {
	K string   `json:"k"` // src fb lang req dom cb defdom errctx printer
	V []string `json:"v,omitempty"`
}

// ---- plural data ----

type plang struct {
	tag     string
	formula string
	form    func(n int64) int    // index of the gettext formula
	cat     func(n int64) string // CLDR category of an integer
	cats    []string             // CLDR categories in order
	src     func(n int64) int    // index of the built-in gettext rule
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func oneOther(n int64) string {
	if n == 1 {
		return "one"
	}
	return "other"
}

func slav(n int64, one bool) int {
	switch {
	case one:
		return 0
	case n%10 >= 2 && n%10 <= 4 && (n%100 < 12 || n%100 > 14):
		return 1
	}
	return 2
}

func pick3(i int, a ...string) string { return a[i] }

var plangs = map[string]*plang{}

// the list is ordered so that seeds select the same languages everywhere
var plangList = []*plang{
	{tag: "en", formula: "nplurals=2; plural=(n != 1);", form: func(n int64) int { return b2i(n != 1) }, cat: oneOther, cats: []string{"one", "other"}},
	{tag: "de", formula: "nplurals=2; plural=(n != 1);", form: func(n int64) int { return b2i(n != 1) }, cat: oneOther, cats: []string{"one", "other"}},
	{tag: "fr", formula: "nplurals=2; plural=(n > 1);", form: func(n int64) int { return b2i(n > 1) }, cat: func(n int64) string {
		if n < 2 {
			return "one"
		}
		if n != 0 && n%1000000 == 0 {
			return "many"
		}
		return "other"
	}, cats: []string{"one", "many", "other"}},
	{tag: "es", formula: "nplurals=2; plural=(n != 1);", form: func(n int64) int { return b2i(n != 1) }, cat: func(n int64) string {
		if n == 1 {
			return "one"
		}
		if n != 0 && n%1000000 == 0 {
			return "many"
		}
		return "other"
	}, cats: []string{"one", "many", "other"}},
	{tag: "pl", formula: "nplurals=3; plural=(n==1 ? 0 : n%10>=2 && n%10<=4 && (n%100<12 || n%100>14) ? 1 : 2);",
		form: func(n int64) int { return slav(n, n == 1) }, cat: func(n int64) string { return pick3(slav(n, n == 1), "one", "few", "many") },
		cats: []string{"one", "few", "many", "other"}},
	{tag: "ru", formula: "nplurals=3; plural=(n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<12 || n%100>14) ? 1 : 2);",
		form: func(n int64) int { return slav(n, n%10 == 1 && n%100 != 11) }, cat: func(n int64) string {
			return pick3(slav(n, n%10 == 1 && n%100 != 11), "one", "few", "many")
		}, cats: []string{"one", "few", "many", "other"}},
	{tag: "ar", formula: "nplurals=6; plural=(n==0 ? 0 : n==1 ? 1 : n==2 ? 2 : n%100>=3 && n%100<=10 ? 3 : n%100>=11 ? 4 : 5);",
		form: arForm, cat: func(n int64) string { return []string{"zero", "one", "two", "few", "many", "other"}[arForm(n)] },
		cats: []string{"zero", "one", "two", "few", "many", "other"}},
	{tag: "ja", formula: "nplurals=1; plural=0;", form: func(n int64) int { return 0 }, cat: func(n int64) string { return "other" }, cats: []string{"other"}},
	{tag: "cs", formula: "nplurals=3; plural=(n==1 ? 0 : n>=2 && n<=4 ? 1 : 2);", form: csForm, cat: func(n int64) string {
		return pick3(csForm(n), "one", "few", "other")
	}, cats: []string{"one", "few", "many", "other"}},
	{tag: "lv", formula: "nplurals=3; plural=(n%10==0 || n%100>=11 && n%100<=19 ? 0 : n%10==1 && n%100!=11 ? 1 : 2);", form: lvForm, cat: func(n int64) string {
		return pick3(lvForm(n), "zero", "one", "other")
	}, cats: []string{"zero", "one", "other"}},
	{tag: "da", formula: "nplurals=2; plural=n != 1;", form: func(n int64) int { return b2i(n != 1) }, cat: oneOther, cats: []string{"one", "other"}},
	{tag: "hr", formula: "nplurals=3; plural=n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2;",
		form: func(n int64) int { return slav(n, n%10 == 1 && n%100 != 11) }, cat: func(n int64) string {
			return pick3(slav(n, n%10 == 1 && n%100 != 11), "one", "few", "other")
		}, cats: []string{"one", "few", "other"}},
	{tag: "lt", formula: "nplurals=3; plural=(n%10==1 && n%100!=11 ? 0 : n%10>=2 && (n%100<10 || n%100>=20) ? 1 : 2);",
		form: ltForm, cat: func(n int64) string { return pick3(ltForm(n), "one", "few", "other") }, cats: []string{"one", "few", "many", "other"}},
	{tag: "sl", formula: "nplurals=4; plural=(n%100==1 ? 0 : n%100==2 ? 1 : n%100==3 || n%100==4 ? 2 : 3);",
		form: slForm, cat: func(n int64) string { return pick3(slForm(n), "one", "two", "few", "other") }, cats: []string{"one", "two", "few", "other"}},
	{tag: "ga", formula: "nplurals=5; plural=(n==1 ? 0 : n==2 ? 1 : n>2 && n<7 ? 2 : n>6 && n<11 ? 3 : 4);",
		form: gaForm, cat: func(n int64) string { return pick3(gaForm(n), "one", "two", "few", "many", "other") }, cats: []string{"one", "two", "few", "many", "other"}},
	{tag: "cy", formula: "nplurals=6; plural=(n==0) ? 0 : (n==1) ? 1 : (n==2) ? 2 : (n==3) ? 3 : (n==6) ? 4 : 5;",
		form: cyForm, cat: func(n int64) string { return pick3(cyForm(n), "zero", "one", "two", "few", "many", "other") },
		cats: []string{"zero", "one", "two", "few", "many", "other"}},
}

func ltForm(n int64) int {
	switch {
	case n%10 == 1 && n%100 != 11:
		return 0
	case n%10 >= 2 && (n%100 < 10 || n%100 >= 20):
		return 1
	}
	return 2
}

func slForm(n int64) int {
	switch n % 100 {
	case 1, 2:
		return int(n%100) - 1
	case 3, 4:
		return 2
	}
	return 3
}

func gaForm(n int64) int {
	switch {
	case n == 1 || n == 2:
		return int(n) - 1
	case n >= 3 && n <= 6:
		return 2
	case n >= 7 && n <= 10:
		return 3
	}
	return 4
}

func cyForm(n int64) int {
	switch n {
	case 0, 1, 2, 3:
		return int(n)
	case 6:
		return 4
	}
	return 5
}

func arForm(n int64) int {
	switch {
	case n <= 2:
		return int(n)
	case n%100 >= 3 && n%100 <= 10:
		return 3
	case n%100 >= 11:
		return 4
	}
	return 5
}

func csForm(n int64) int {
	switch {
	case n == 1:
		return 0
	case n >= 2 && n <= 4:
		return 1
	}
	return 2
}

func lvForm(n int64) int {
	switch {
	case n%10 == 0 || n%100 >= 11 && n%100 <= 19:
		return 0
	case n%10 == 1 && n%100 != 11:
		return 1
	}
	return 2
}

func init() {
	for _, p := range plangList {
		// built-in gettext rules: the CLDR categories of integers, numbered
		order := map[string]int{}
		ints := map[string]bool{}
		for _, n := range counts {
			ints[p.cat(n)] = true
		}
		i := 0
		for _, c := range []string{"zero", "one", "two", "few", "many", "other"} {
			if ints[c] {
				order[c] = i
				i++
			}
		}
		pp := p
		p.src = func(n int64) int { return order[pp.cat(n)] }
		plangs[p.tag] = p
	}
	for alias, base := range map[string]string{"de-AT": "de", "es-MX": "es", "es-419": "es", "de-CH": "de", "fr-CA": "fr", "und": "en"} {
		plangs[alias] = plangs[base]
	}
}

// counts for which the tables above have been verified
var counts = []int64{0, 1, 2, 3, 4, 5, 6, 7, 10, 11, 12, 14, 19, 20, 21, 22, 25, 100, 101, 102, 103, 111, 112, 1000000, 1000001, 1234567, 2000000, 21000021, 2147483647}

// fractions are the digits after the decimal point of counts that are no integers.
var fractions = []string{"5", "0", "00", "1", "10", "50", "25", "11", "21", "15", "75", "01", "90", "001"}

// catF is the CLDR category of a number with visible fraction digits.
func (p *plang) catF(n int64, frac string) string {
	if frac == "" {
		return p.cat(n)
	}
	v, f := len(frac), atoi(frac)
	whole := f == 0
	is := func(c string, ok bool) string {
		if ok {
			return c
		}
		return "other"
	}
	switch base, _, _ := strings.Cut(p.tag, "-"); base {
	case "fr":
		return is("one", n < 2)
	case "es":
		return is("one", n == 1 && whole)
	case "ar":
		if whole {
			return p.cat(n)
		}
	case "cs":
		return "many"
	case "da":
		return is("one", n < 2 && !whole || n == 1)
	case "hr":
		return pick3(slav(int64(f), f%10 == 1 && f%100 != 11), "one", "few", "other")
	case "sl":
		return "few"
	case "ga", "cy":
		if whole {
			return p.cat(n)
		}
	case "lt":
		if whole {
			return p.cat(n)
		}
		return "many"
	case "lv":
		switch {
		case whole && (n%10 == 0 || n%100 >= 11 && n%100 <= 19) || v == 2 && f%100 >= 11 && f%100 <= 19:
			return "zero"
		case whole && n%10 == 1 && n%100 != 11 || v == 2 && f%10 == 1 && f%100 != 11 || v != 2 && f%10 == 1:
			return "one"
		}
	}
	return "other"
}

// nearest is the integer that gettext rules are applied to.
func nearest(n int64, frac string) int64 {
	n = abs64(n)
	if frac == "" {
		return n
	}
	half := "5" + strings.Repeat("0", len(frac)-1)
	if frac > half || frac == half && n%2 == 1 {
		n++
	}
	return n
}

// oddRules are rules that make use of numbers as conditions, as in C.
var oddRules = []struct {
	formula string
	form    func(n int64) int
}{
	{"nplurals=3; plural=(n%10 ? n%5 ? 0 : 1 : 2);", func(n int64) int {
		switch {
		case n%10 == 0:
			return 2
		case n%5 == 0:
			return 1
		}
		return 0
	}},
	{"nplurals=2; plural=(n%4 && n%3 || n == 12);", func(n int64) int { return b2i(n%4 != 0 && n%3 != 0 || n == 12) }},
	{"nplurals=4; plural=n%4;", func(n int64) int { return int(n % 4) }},
	{"nplurals=3; plural=(n%100 || n == 0 ? n > 1 : 2);", func(n int64) int {
		if n%100 != 0 || n == 0 {
			return b2i(n > 1)
		}
		return 2
	}},
}

// rule returns the plural rule of the file's header and whether the file has one that counts.
func (c *Cat) rule() (string, func(n int64) int) {
	if c.Hdr == 3 {
		o := oddRules[len(c.Mark)%len(oddRules)]
		return o.formula, o.form
	}
	return plangs[c.Tag].formula, plangs[c.Tag].form
}

// baseTags are languages that the generators choose from.
var baseTags = []string{"en", "de", "fr", "es", "pl", "ru", "ar", "ja", "cs", "lv", "de-AT", "es-MX", "fr-CA", "da", "hr", "lt", "sl", "ga", "cy"}

// ---- content ----

var catNames = []string{"zero", "one", "two", "few", "many", "other"}

// text is the translation of form k of a message. It is unique to the catalog,
// the message and the form and contains the verbs of the id.
func (c *Cat) text(m *Msg, k string) string {
	for _, e := range m.Empty {
		if fmt.Sprint(e) == k {
			return ""
		}
	}
	return c.Mark + "." + k + "<" + m.Ctx + "|" + m.ID + ">"
}

// forms returns the form names a message of the catalog has.
func (c *Cat) forms(m *Msg) []string {
	if m.Plural == "" {
		return []string{"0"}
	}
	p := plangs[c.Tag]
	n := len(p.cats)
	if c.Hdr&1 != 0 {
		n = 0
		_, form := c.rule()
		for _, x := range counts {
			n = max(n, form(x)+1)
		}
	}
	var r []string
	for i := 0; i < n; i++ {
		r = append(r, fmt.Sprint(i))
	}
	return r
}

// jsonCats returns the plural categories of a JSON message.
func (c *Cat) jsonCats(m *Msg) []string {
	if m.Plural == "" {
		return []string{"other"}
	}
	return plangs[c.Tag].cats
}

func (c *Cat) jsonText(m *Msg, cat string) string {
	for _, e := range m.Empty {
		if e < len(catNames) && catNames[e] == cat {
			return ""
		}
	}
	return c.Mark + "." + cat + "<" + m.Ctx + "|" + m.ID + ">"
}

func (c *Cat) jsonKey(m *Msg) string {
	if m.Ctx != "" {
		return m.ID + "_" + m.Ctx
	}
	return m.ID
}

func poQuote(s string) string {
	r := strings.NewReplacer(`\`, `\\`, `"`, `\"`, "\n", `\n`, "\t", `\t`)
	return `"` + r.Replace(s) + `"`
}

func (c *Cat) header() string {
	h := "Project-Id-Version: " + c.Mark + "\nLanguage: " + c.Tag + "\nMIME-Version: 1.0\nContent-Type: text/plain; charset=UTF-8\nContent-Transfer-Encoding: 8bit\n"
	if c.Hdr > 0 {
		formula, _ := c.rule()
		h += "Plural-Forms: " + formula + "\n"
	}
	if c.Hdr == 2 {
		h += "X-spreak-use-CLDR: true\n"
	}
	return h
}

// render writes the catalog file; the writers are independent of the code under test.
func (c *Cat) render() []byte {
	switch c.Fmt {
	case "json":
		return c.renderJSON()
	case "mo":
		return c.renderMO()
	}
	return c.renderPO()
}

func (c *Cat) pad() string { return strings.Repeat("long text ", c.Pad/10+1) + "end" }

func (c *Cat) renderPO() []byte {
	var b strings.Builder
	b.WriteString("# catalog " + c.Mark + "\nmsgid \"\"\nmsgstr \"\"\n")
	for _, l := range strings.SplitAfter(c.header(), "\n") {
		if l != "" {
			b.WriteString(poQuote(l) + "\n")
		}
	}
	for i := range c.Msgs {
		m := &c.Msgs[i]
		b.WriteString("\n#: src/file.go:" + fmt.Sprint(i+1) + "\n")
		if m.Fuzzy {
			b.WriteString("#, fuzzy\n")
		}
		if m.Ctx != "" {
			b.WriteString("msgctxt " + poQuote(m.Ctx) + "\n")
		}
		b.WriteString("msgid " + poQuote(m.ID) + "\n")
		if m.Plural != "" {
			b.WriteString("msgid_plural " + poQuote(m.Plural) + "\n")
			for _, k := range c.forms(m) {
				t := c.text(m, k)
				if len(t)%3 == 0 && len(t) > 4 { // some texts in several pieces
					b.WriteString("msgstr[" + k + "] \"\"\n" + poQuote(t[:2]) + "\n" + poQuote(t[2:]) + "\n")
				} else {
					b.WriteString("msgstr[" + k + "] " + poQuote(t) + "\n")
				}
			}
		} else {
			b.WriteString("msgstr " + poQuote(c.text(m, "0")) + "\n")
		}
	}
	if c.Pad > 0 {
		b.WriteString("\nmsgid \"padding\"\nmsgstr " + poQuote(c.pad()) + "\n")
	}
	return []byte(b.String())
}

func (c *Cat) renderJSON() []byte {
	var b strings.Builder
	b.WriteString("{")
	for i := range c.Msgs {
		m := &c.Msgs[i]
		if i > 0 {
			b.WriteString(",")
		}
		b.WriteString("\n  " + jsonStr(c.jsonKey(m)) + ": ")
		if m.Plural == "" && m.Ctx == "" {
			b.WriteString(jsonStr(c.jsonText(m, "other")))
			continue
		}
		b.WriteString("{")
		if m.Ctx != "" {
			b.WriteString(`"context": ` + jsonStr(m.Ctx) + ", ")
		}
		for j, cat := range c.jsonCats(m) {
			if j > 0 {
				b.WriteString(", ")
			}
			b.WriteString(jsonStr(cat) + ": " + jsonStr(c.jsonText(m, cat)))
		}
		b.WriteString("}")
	}
	if c.Pad > 0 {
		if len(c.Msgs) > 0 {
			b.WriteString(",")
		}
		b.WriteString("\n  \"padding\": " + jsonStr(c.pad()))
	}
	b.WriteString("\n}\n")
	return []byte(b.String())
}

func jsonStr(s string) string {
	d, _ := json.Marshal(s)
	return string(d)
}

type moEntry struct{ id, str string }

func (c *Cat) moEntries() []moEntry {
	es := []moEntry{{"", c.header()}}
	for i := range c.Msgs {
		m := &c.Msgs[i]
		if m.Fuzzy {
			continue // msgfmt leaves fuzzy entries out
		}
		id := m.ID
		if m.Ctx != "" {
			id = m.Ctx + "\x04" + id
		}
		if m.Plural != "" {
			id += "\x00" + m.Plural
		}
		var strs []string
		for _, k := range c.forms(m) {
			strs = append(strs, c.text(m, k))
		}
		es = append(es, moEntry{id, strings.Join(strs, "\x00")})
	}
	if c.Pad > 0 {
		es = append(es, moEntry{"padding", c.pad()})
	}
	sort.Slice(es, func(i, j int) bool { return es[i].id < es[j].id })
	return es
}

func (c *Cat) renderMO() []byte {
	var bo binary.ByteOrder = binary.LittleEndian
	if c.BE {
		bo = binary.BigEndian
	}
	es := c.moEntries()
	n := len(es)
	b := make([]byte, 28+16*n)
	bo.PutUint32(b[0:], 0x950412de)
	bo.PutUint32(b[4:], 0)
	bo.PutUint32(b[8:], uint32(n))
	bo.PutUint32(b[12:], 28)
	bo.PutUint32(b[16:], uint32(28+8*n))
	bo.PutUint32(b[20:], 0)
	bo.PutUint32(b[24:], uint32(28+16*n))
	for i, e := range es {
		bo.PutUint32(b[28+8*i:], uint32(len(e.id)))
		bo.PutUint32(b[28+8*i+4:], uint32(len(b)))
		b = append(append(b, e.id...), 0)
	}
	for i, e := range es {
		bo.PutUint32(b[28+8*n+8*i:], uint32(len(e.str)))
		bo.PutUint32(b[28+8*n+8*i+4:], uint32(len(b)))
		b = append(append(b, e.str...), 0)
	}
	return b
}

// broken returns the content of an undecodable file.
func broken(kind int, c *Cat) []byte {
	if kind == 3 { // an empty file
		return []byte{}
	}
	d := c.render()
	switch c.Fmt {
	case "mo":
		switch kind % 3 {
		case 0:
			return []byte{}
		case 1:
			d[0] ^= 0xff
			return d
		}
		return d[:len(d)/2]
	case "json":
		switch kind % 3 {
		case 0:
			return []byte("{}")
		case 1:
			return []byte(`{"a": 1`)
		}
		return []byte(`{"a": {"one": "x"}}`)
	}
	switch kind % 3 {
	case 0:
		return append(d, "\nmsgunknown \"a\"\nmsgstr \"x\"\n"...)
	case 1:
		return []byte("\n\n")
	}
	return append(d, "\nmsgid \"unterminated\nmsgstr \"x\"\n"...)
}

func (w *World) fileMap() map[string][]byte {
	m := map[string][]byte{}
	for _, f := range w.Files {
		if f.Broken > 0 {
			m[f.Path] = broken(f.Broken-1, &w.Cats[f.Cat])
		} else {
			m[f.Path] = w.Cats[f.Cat].render()
		}
	}
	return m
}

// ---- message pool ----

var msgPool = []Msg{
	{ID: "hello"},
	{ID: "hello %s"},
	{ID: "%d file", Plural: "%d files"},
	{ID: "%d of %s", Plural: "%d of many %s"},
	{Ctx: "menu", ID: "open"},
	{Ctx: "menu", ID: "%d entry", Plural: "%d entries"},
	{Ctx: "errors", ID: "boom"},
	{Ctx: "errors", ID: "not found"},
	{Ctx: "errors", ID: "%d failure", Plural: "%d failures"},
	{Ctx: "alt", ID: "boom"},
	{ID: "open"},
	{ID: "quote \"x\" back\\slash"},
	{ID: "umlaut ä ö 日本"},
	{ID: "%d day", Plural: "%d days"},
	{Ctx: "menu", ID: "hello"},
	{ID: "%s, %s, %s, %s and %d", Plural: "%s, %s, %s, %s and %d of them"},
}

// genCat draws a catalog.
func genCat(r *simrt.Rand, tag, format, mark string, density int) Cat {
	c := Cat{Tag: tag, Fmt: format, Mark: mark, BE: r.Chance(1, 3), Hdr: pickI(r, 0, 1, 2, 0, 1, 2, 3)}
	for _, m := range msgPool {
		if r.Intn(100) >= density {
			continue
		}
		m.Empty = nil
		if r.Chance(1, 10) {
			if format == "json" && m.Plural != "" {
				m.Empty = []int{r.Intn(6)}
			} else if m.Plural != "" {
				m.Empty = []int{r.Intn(len(c.forms(&m)))}
			} else if format != "json" {
				m.Empty = []int{0}
			} else {
				m.Empty = []int{5}
			}
		}
		if format != "json" && r.Chance(1, 12) {
			m.Fuzzy = true
		}
		c.Msgs = append(c.Msgs, m)
	}
	if len(c.Msgs) == 0 {
		c.Msgs = append(c.Msgs, msgPool[0])
	}
	return c
}
