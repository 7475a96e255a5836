package main

import (
	"encoding/binary"
	"fmt"
	"slices"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/catalog/cldrplural"
	"github.com/vorlif/spreak/catalog/po"
	"github.com/vorlif/spreak/zz_verif/simrt"
)

// Doc is a document to be saved, loaded or corrupted.
type Doc struct {
	Kind    string   `json:"kind"` // po mo json
	Lang    string   `json:"lang"`
	Hdr     int      `json:"hdr"` // 0: no header, 1: without plural rule, 2: with the language's rule, 3: with the CLDR flag, 4: nothing but unknown fields
	BE      bool     `json:"be,omitempty"`
	Style   uint64   `json:"style"`
	Pad     int      `json:"pad,omitempty"`
	Entries []Entry  `json:"entries"`
	Header  []string `json:"header,omitempty"` // further header fields: key, value, ...
}

// Entry of a document.
type Entry struct {
	Ctx    string   `json:"c,omitempty"`
	ID     string   `json:"i"`
	Plural string   `json:"p,omitempty"`
	Str    []string `json:"s,omitempty"`
	Flags  []string `json:"f,omitempty"`
}

// hasLang and hasRule tell what the header contains.
func (d *Doc) hasLang() bool { return d.Hdr >= 1 && d.Hdr <= 3 }
func (d *Doc) hasRule() bool { return d.Hdr == 2 || d.Hdr == 3 }

// Mut is one corruption.
type Mut struct {
	K string `json:"k"`
	A int    `json:"a"`
	B int    `json:"b"`
}

func (e *Entry) fuzzy() bool { return slices.Contains(e.Flags, "fuzzy") }

// ---- texts ----

var textPieces = []string{
	"a", "b", "word ", "two words ", " ", "  ", "x", "%s", "%d", "100%", "ä", "ß", "日本語", "🎉", "é",
	`"`, `""`, `\`, `\\`, `\n`, `\"`, "\n", "\n", "\n\n", "\t", "#", "#, fuzzy", "msgid \"x\"", "msgstr \"y\"", "[0]", "msgctxt",
	"'", "/", ":", "{", "}", "<b>", "&amp;", ", ", "\u00a0", "\u2028", "\u0085", "\u200b", "\ufeff", `\x41`, `\u0041`, `\t`, `\r`, "\r", "\r\n",
	"\a", "\b", "\f", "\v", "\x7f", "~", "|", "_menu", "_", ".", "...", "-", "=", "other", "null", "true", "//", "/*", "\ufffd",
}

// ctlPieces can only be saved with numeric escapes.
var ctlPieces = []string{"\x01", "\x1b", "\x1f", "\x1b[0m", "\x02a", "\x0e"}

func genText(r *simrt.Rand, extra []string, maxPieces int) string {
	n := 1 + r.Intn(maxPieces)
	if r.Chance(1, 20) {
		n *= 8
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		if len(extra) > 0 && r.Chance(1, 8) {
			b.WriteString(extra[r.Intn(len(extra))])
			continue
		}
		if r.Chance(1, 2) {
			b.WriteString(textPieces[r.Intn(12)])
		} else {
			b.WriteString(textPieces[r.Intn(len(textPieces))])
		}
	}
	return b.String()
}

var headerPool = []string{
	"Project-Id-Version", "demo 1.0", "Report-Msgid-Bugs-To", "bugs@example.com", "POT-Creation-Date", "2020-01-01 10:00+0100",
	"PO-Revision-Date", "2021-02-03 04:05+0000", "Last-Translator", "J. \"Joe\" Doe <joe@example.com>", "Language-Team", "Team \\ X",
	"MIME-Version", "1.0", "Content-Type", "text/plain; charset=UTF-8", "Content-Transfer-Encoding", "8bit", "X-Generator", "Poedit 3.0.1",
	"X-Custom", "some: value", "X-Other", "ä ö", "X-custom", "lower case", "x-domain", "app",
}

// formCount returns how many forms a plural entry has.
func (d *Doc) formCount() int {
	p := plangs[d.Lang]
	if d.Kind == "json" || d.Hdr != 2 {
		return len(p.cats)
	}
	n := 0
	for _, x := range counts {
		n = max(n, p.form(x)+1)
	}
	return n
}

type docOpts struct {
	kind    string
	ctl     bool // control characters that need numeric escapes
	max     int
	noFuzzy bool
}

func genDoc(r *simrt.Rand, do docOpts) *Doc {
	d := &Doc{Kind: do.kind, Style: r.Next(), BE: r.Chance(1, 2), Hdr: r.Intn(4)}
	if d.Kind == "" {
		d.Kind = pickS(r, "po", "po", "mo", "json")
	}
	d.Lang = plangList[r.Intn(len(plangList))].tag
	if d.Hdr > 0 && r.Chance(1, 8) {
		d.Hdr = 4
		d.Header = []string{"X-Custom", pickS(r, "some: value", "1", "ä")}
		if r.Chance(1, 3) {
			d.Header = append(d.Header, "X-Other", "ä ö")
		}
	}
	if d.Hdr > 0 && d.Hdr < 4 {
		for i := 0; i+1 < len(headerPool); i += 2 {
			if r.Chance(1, 3) {
				v := headerPool[i+1]
				if r.Chance(1, 6) {
					v = pickS(r, `C:\new\tables`, "tab\there", `ends with \`, `\"`, `a \\ b \t`, `"quoted"`, `\n`, "x: y: z", `\x41`)
				}
				d.Header = append(d.Header, headerPool[i], v)
			}
		}
		if len(d.Header) == 0 {
			d.Header = append(d.Header, headerPool[0], headerPool[1])
		}
	}
	var extra []string
	if do.ctl {
		extra = ctlPieces
	}
	n := 1 + r.Intn(max(do.max, 1))
	empty := r.Chance(1, 30) && d.Kind != "json" && d.Hdr > 0
	if empty {
		n = 0
	}
	seen := map[string]bool{}
	ctxs := []string{"", "", "menu", "errors", genText(r, extra, 3)}
	for i := 0; i < n; i++ {
		e := Entry{Ctx: ctxs[r.Intn(len(ctxs))], ID: genText(r, extra, 6)}
		if r.Chance(1, 4) && len(d.Entries) > 0 { // shares a prefix with another id
			e.ID = d.Entries[r.Intn(len(d.Entries))].ID + genText(r, extra, 2)
		}
		key := e.Ctx + "\x04" + e.ID
		if d.Kind == "json" {
			key = e.key()
		}
		if e.ID == "" || seen[key] {
			continue
		}
		seen[key] = true
		forms := 1
		if r.Chance(1, 3) {
			e.Plural = genText(r, extra, 4)
			forms = d.formCount()
			if d.Kind != "json" && r.Chance(1, 12) { // more forms than the rule uses
				forms += pickI(r, 1, 3, 6, 12)
			}
		}
		for k := 0; k < forms; k++ {
			s := genText(r, extra, 8)
			if r.Chance(1, 12) {
				s = ""
			}
			e.Str = append(e.Str, s)
		}
		if !do.noFuzzy && d.Kind != "json" && r.Chance(1, 10) {
			e.Flags = append(e.Flags, "fuzzy")
		}
		if r.Chance(1, 6) {
			e.Flags = append(e.Flags, pickS(r, "c-format", "no-wrap", "go-format", "range:0..10", "range: 0..10"))
			if r.Chance(1, 6) {
				for i, n := 0, 1+r.Intn(9); i < n; i++ {
					e.Flags = append(e.Flags, fmt.Sprintf("%s-format", []string{"a", "python", "no-c", "kde", "possible-sh", "boost", "qt-plural", "lua", "z"}[i]))
				}
			}
		}
		d.Entries = append(d.Entries, e)
	}
	if !empty && r.Chance(1, 60) { // many entries, in many contexts
		nctx := pickI(r, 1, 3, 20, 150)
		for i, n := 0, pickI(r, 17, 40, 130, 300, 520); i < n; i++ {
			e := Entry{ID: fmt.Sprintf("m%d", i/2*7), Str: []string{fmt.Sprintf("t%d", i)}}
			if c := i % nctx; c > 0 {
				e.Ctx = fmt.Sprintf("c%d", c)
			}
			key := e.Ctx + "\x04" + e.ID
			if d.Kind == "json" {
				key = e.key()
			}
			if seen[key] {
				continue
			}
			seen[key] = true
			if i%5 == 0 {
				e.Plural = e.ID + "s"
				for k := d.formCount(); k > 1; k-- {
					e.Str = append(e.Str, fmt.Sprintf("t%d.%d", i, k))
				}
			}
			d.Entries = append(d.Entries, e)
		}
	}
	if len(d.Entries) == 0 && !empty {
		d.Entries = []Entry{{ID: "a", Str: []string{"b"}}}
	}
	return d
}

func (e *Entry) key() string {
	if e.Ctx != "" {
		return e.ID + "_" + e.Ctx
	}
	return e.ID
}

func (d *Doc) all() []Entry {
	es := slices.Clone(d.Entries)
	if d.Pad > 0 {
		es = append(es, Entry{ID: "padding", Str: []string{d.padText()}})
	}
	return es
}

func (d *Doc) padText() string { return strings.Repeat("long text ", d.Pad/10+1) + "end" }

func (d *Doc) headerText() string {
	if d.Hdr == 0 {
		return ""
	}
	var b strings.Builder
	put := func(k, v string) {
		b.WriteString(k + []string{": ", ": ", ": ", ":", ":  ", ":\t"}[d.Style/16%6] + v + "\n")
	}
	for i := 0; i+1 < len(d.Header); i += 2 {
		put(d.Header[i], d.Header[i+1])
	}
	if d.Style/96%12 == 0 {
		b.WriteString("\n") // an empty line
	}
	if d.hasLang() {
		put("Language", d.Lang)
	}
	if d.hasRule() {
		put("Plural-Forms", plangs[d.Lang].formula)
	}
	if d.Hdr == 3 {
		put("X-spreak-use-CLDR", "true")
	}
	return b.String()
}

func (d *Doc) render() []byte {
	switch d.Kind {
	case "mo":
		return d.renderMO()
	case "json":
		return d.renderJSON()
	}
	b, _ := d.renderPO()
	return b
}

// poComment is what the comments of an entry say. Free lines between are normalised away.
type poComment struct {
	tr, ex, refs, flags []string
	ctx, id             string
	nctx, nid           int  // how often there is a previous context or id
	open                bool // contains an obsolete entry
}

func (c *poComment) String() string {
	if c.open {
		return "?"
	}
	ctx, id := c.ctx, c.id
	if c.nctx > 1 || c.nid > 1 {
		ctx, id = "?", "?"
	}
	return fmt.Sprintf("%q %q %q %q %q %q", c.tr, c.ex, c.refs, c.flags, ctx, id)
}

// wantFile lists what a well-formed po file contains, in the format of gotFile.
func (d *Doc) wantFile(comments bool) string {
	var cs []*poComment
	if d.Kind == "po" {
		_, cs = d.renderPO()
	}
	var lines []string
	if d.Hdr > 0 {
		h := d.header(true)
		for _, k := range headerKeys {
			*headerField(h, k) = strings.TrimSpace(*headerField(h, k))
		}
		lines = dumpHeader(h)
		if comments {
			lines = append(lines, "header comment "+cs[0].String())
			cs = cs[1:]
		}
	}
	for i, e := range d.all() {
		if d.Kind == "mo" && e.fuzzy() {
			continue
		}
		s := fmt.Sprintf("%q/%q plural=%q %q", e.Ctx, e.ID, e.Plural, e.Str)
		if comments {
			s += " comment " + cs[i].String()
		}
		lines = append(lines, s)
	}
	sort.Strings(lines)
	return strings.Join(lines, "\n")
}

// gotFile lists what was parsed. Comments of entries which the wanted list leaves open are left open.
func gotFile(f *po.File, comments bool, want string) string {
	if f == nil {
		return "nil file"
	}
	comment := func(prefix string, c *po.Comment) string {
		g := &poComment{}
		if c != nil {
			nonEmpty := func(s string) (r []string) {
				for _, l := range strings.Split(s, "\n") {
					if l != "" {
						r = append(r, l)
					}
				}
				return r
			}
			g.tr, g.ex, g.flags, g.ctx, g.id = nonEmpty(c.Translator), nonEmpty(c.Extracted), c.Flags, c.PrevMsgContext, c.PrevMsgID
			for _, x := range c.References {
				if x.Path != "" {
					g.refs = append(g.refs, fmt.Sprintf("%s %d", x.Path, max(x.Line, 0)))
				}
			}
		}
		if s := prefix + "?"; strings.Contains("\n"+want+"\n", "\n"+s+"\n") {
			return s
		}
		s := prefix + g.String()
		if q := prefix + strings.TrimSuffix(g.String(), fmt.Sprintf("%q %q", g.ctx, g.id)) + `"?" "?"`; strings.Contains("\n"+want+"\n", "\n"+q+"\n") {
			return q
		}
		return s
	}
	var lines []string
	if f.Header != nil {
		lines = dumpHeader(f.Header)
	}
	if comments && f.Header != nil && strings.Contains(want, "header comment") {
		lines = append(lines, comment("header comment ", f.Header.Comment))
	}
	for ctx, m := range f.Messages {
		for id, msg := range m {
			var str []string
			for k := 0; k < len(msg.Str); k++ {
				str = append(str, msg.Str[k])
			}
			s := fmt.Sprintf("%q/%q plural=%q %q", ctx, id, msg.IDPlural, str)
			if msg.Context != ctx || msg.ID != id {
				s += fmt.Sprintf(" filed under a wrong key, is %q/%q", msg.Context, msg.ID)
			}
			if comments {
				s = comment(s+" comment ", msg.Comment)
			}
			lines = append(lines, s)
		}
	}
	sort.Strings(lines)
	return strings.Join(lines, "\n")
}

var poEsc = strings.NewReplacer(`\`, `\\`, `"`, `\"`, "\n", `\n`, "\t", `\t`, "\r", `\r`, "\a", `\a`, "\b", `\b`, "\f", `\f`, "\v", `\v`)

// renderPO renders the document and tells what the comments of the header and the entries say.
func (d *Doc) renderPO() ([]byte, []*poComment) {
	r := simrt.NewRand(d.Style)
	eol := "\n"
	if r.Chance(1, 5) {
		eol = "\r\n"
	}
	indent := r.Chance(1, 6)
	trail := r.Chance(1, 4)
	splitPct := pickI(r, 0, 0, 20, 60, 100)
	gap := pickI(r, 1, 1, 1, 2, 0, 9)
	commentPct := pickI(r, 0, 30, 80, 100)
	rawTab := r.Chance(1, 3)
	var b strings.Builder
	line := func(s string) {
		if indent && r.Chance(1, 3) {
			b.WriteString(pickS(r, " ", "  ", "\t"))
		}
		b.WriteString(s)
		if trail && r.Chance(1, 3) {
			b.WriteString(pickS(r, " ", "  ", "\t"))
		}
		b.WriteString(eol)
	}
	quote := func(s string) string {
		q := poEsc.Replace(s)
		if rawTab && strings.Contains(s, "\t") {
			q = poEsc.Replace(strings.ReplaceAll(s, "\t", "\x00"))
			q = strings.ReplaceAll(q, "\x00", "\t")
		}
		return `"` + q + `"`
	}
	stmt := func(kw, s string) {
		sp := " "
		if r.Chance(1, 10) {
			sp = pickS(r, "  ", "   ", " \t")
			if strings.HasPrefix(kw, "msgstr") && r.Chance(1, 2) {
				sp = ""
			}
		}
		if r.Intn(100) >= splitPct {
			line(kw + sp + quote(s))
			return
		}
		var parts []string
		rest := s
		if r.Chance(2, 3) {
			parts = append(parts, "")
		}
		for rest != "" {
			n := 0
			if i := strings.Index(rest, "\n"); i >= 0 && r.Chance(2, 3) {
				n = i + 1
			} else {
				n = 1 + r.Intn(min(len(rest), 40))
				for n < len(rest) && !utf8.RuneStart(rest[n]) {
					n++
				}
			}
			parts = append(parts, rest[:n])
			rest = rest[n:]
		}
		if len(parts) == 0 {
			parts = []string{""}
		}
		if r.Chance(1, 6) {
			parts = append(parts, "")
		}
		line(kw + sp + quote(parts[0]))
		for _, x := range parts[1:] {
			line(quote(x))
		}
	}
	var cs []*poComment
	comments := func(e *Entry) {
		c := &poComment{}
		cs = append(cs, c)
		flags := func(s string, f ...string) {
			line("#, " + s)
			c.flags = append(c.flags, f...)
		}
		if r.Intn(100) < commentPct {
			for i := r.Intn(4); i > 0; i-- {
				switch r.Intn(15) {
				case 11:
					line(`#| msgctxt ""`)
					line(`#| "old "`)
					line(`#| "context"`)
					line(`#| msgid "old id"`)
					c.ctx, c.id = "old context", "old id"
					c.nctx++
					c.nid++
				case 12:
					line(`#| msgid "old id"`)
					line(`#| msgid_plural ""`)
					line(`#| "old ids"`)
					c.nid += 2 // whether the plural is part of it is open
				case 13:
					line(`#~| msgid "older"`)
					line(`#~ msgctxt "obsolete"`)
					line(`#~ msgid "obsolete"`)
					line(`#~ msgid_plural "obsoletes"`)
					line(`#~ msgstr[0] "gone"`)
					line(`#~ msgstr[1] "all gone"`)
					c.open = true
				case 14:
					switch r.Intn(6) {
					case 0:
						flags("c-format", "c-format")
					case 5:
						line("#,no-c-format")
						c.flags = append(c.flags, "no-c-format")
					case 1:
						flags("no-wrap, c-format", "no-wrap", "c-format")
					case 2:
						flags("range: 0..10", "range: 0..10")
					case 3:
						flags(",")
					case 4:
						flags("go-format,,no-wrap", "go-format", "no-wrap")
					}
				case 0:
					line("# translator \"quoted\" comment \\")
					c.tr = append(c.tr, "translator \"quoted\" comment \\")
				case 1:
					line("#")
				case 2:
					line(pickS(r, "#. extracted comment", "#.extracted comment", "#.   extracted comment"))
					c.ex = append(c.ex, "extracted comment")
				case 3:
					if r.Chance(1, 6) {
						line("#:near.go:4")
						c.refs = append(c.refs, "near.go 4")
						break
					}
					if r.Chance(1, 3) {
						line("#: C:/x/a.go:12 dir:b.go b:c:3")
						c.refs = append(c.refs, "C:/x/a.go 12", "dir:b.go 0", "b:c 3")
						break
					}
					line("#: src/a.go:12 src/b.go:7 c.go")
					c.refs = append(c.refs, "src/a.go 12", "src/b.go 7", "c.go 0")
				case 4:
					line(`#| msgid "old id"`)
					c.id = "old id"
					c.nid++
				case 5:
					line(`#| msgctxt "old"`)
					line(`#| msgid ""`)
					line(`#| "old id"`)
					c.ctx, c.id = "old", "old id"
					c.nctx++
					c.nid++
				case 6:
					line(`#~ msgid "obsolete"`)
					line(`#~ msgstr "gone"`)
					c.open = true
				case 7:
					n := r.Intn(200)
					line("#" + strings.Repeat("=", n))
					if n > 0 {
						c.tr = append(c.tr, strings.Repeat("=", n))
					}
				case 8:
					line(pickS(r, "#.", "#:", "#,"))
				case 9:
					line("#:  spaced.go:1  other.go:2 ")
					c.refs = append(c.refs, "spaced.go 1", "other.go 2")
				case 10:
					line("#  ")
				}
			}
		}
		if e != nil && len(e.Flags) > 0 {
			flags(strings.Join(e.Flags, pickS(r, ", ", ",", " , ")), e.Flags...)
		}
	}
	if d.Hdr > 0 {
		comments(nil)
		if r.Chance(1, 5) {
			line("#, fuzzy")
			cs[0].flags = append(cs[0].flags, "fuzzy")
		}
		stmtHeader := func() {
			if r.Chance(1, 2) {
				line(`msgid ""`)
				line(`msgstr ""`)
				for _, l := range strings.SplitAfter(d.headerText(), "\n") {
					if l != "" {
						line(quote(l))
					}
				}
				return
			}
			line(`msgid ""`)
			line("msgstr " + quote(d.headerText()))
		}
		stmtHeader()
	}
	first := d.Hdr == 0
	es := d.all()
	for i := range es {
		e := &es[i]
		if !first {
			n := gap
			if gap == 9 {
				n = r.Intn(3)
			}
			for ; n > 0; n-- {
				line("")
			}
		}
		first = false
		comments(e)
		if e.Ctx != "" {
			stmt("msgctxt", e.Ctx)
		}
		stmt("msgid", e.ID)
		if e.Plural != "" {
			stmt("msgid_plural", e.Plural)
			order := permutation(0, len(e.Str))
			if r.Chance(1, 12) {
				order = permutation(r.Next(), len(e.Str))
			}
			for _, k := range order {
				stmt(fmt.Sprintf("msgstr[%d]", k), e.Str[k])
			}
		} else {
			stmt("msgstr", e.Str[0])
		}
	}
	s := b.String()
	if r.Chance(1, 4) {
		s = strings.TrimRight(s, "\r\n\t ")
	} else if r.Chance(1, 4) {
		s += eol + "# the end" + eol
	}
	return []byte(s), cs
}

func (d *Doc) renderMO() []byte {
	r := simrt.NewRand(d.Style)
	var bo binary.ByteOrder = binary.LittleEndian
	if d.BE {
		bo = binary.BigEndian
	}
	var es []moEntry
	if d.Hdr > 0 {
		es = append(es, moEntry{"", d.headerText()})
	}
	for _, e := range d.all() {
		if e.fuzzy() {
			continue
		}
		id := e.ID
		if e.Ctx != "" {
			id = e.Ctx + "\x04" + id
		}
		if e.Plural != "" {
			id += "\x00" + e.Plural
		}
		es = append(es, moEntry{id, strings.Join(e.Str, "\x00")})
	}
	sort.Slice(es, func(i, j int) bool { return es[i].id < es[j].id })
	n := len(es)
	hash := 0
	if r.Chance(1, 2) {
		hash = n + 1 + r.Intn(4)
	}
	align := r.Chance(1, 2)
	back := r.Chance(1, 4) // the tables follow the strings
	major, minor := 0, 0
	if d.Style/7%4 == 0 {
		major, minor = int(d.Style/28%2), int(d.Style/56%2)
	}
	h := 28 + 20*minor // no system dependent texts
	b := make([]byte, h)
	idTab, strTab, hashTab := h, h+8*n, h+16*n
	if !back {
		b = append(b, make([]byte, 16*n+4*hash)...)
	}
	var pos [][2]int // length, offset
	put := func(s string) {
		for align && len(b)%4 != 0 {
			b = append(b, 0)
		}
		pos = append(pos, [2]int{len(s), len(b)})
		b = append(append(b, s...), 0)
	}
	for _, e := range es {
		put(e.id)
	}
	for _, e := range es {
		put(e.str)
	}
	if back {
		for len(b)%4 != 0 {
			b = append(b, 0)
		}
		idTab = len(b)
		strTab, hashTab = idTab+8*n, idTab+16*n
		b = append(b, make([]byte, 16*n+4*hash)...)
	}
	bo.PutUint32(b[0:], 0x950412de)
	bo.PutUint32(b[4:], uint32(major<<16|minor))
	bo.PutUint32(b[8:], uint32(n))
	bo.PutUint32(b[12:], uint32(idTab))
	bo.PutUint32(b[16:], uint32(strTab))
	bo.PutUint32(b[20:], uint32(hash))
	bo.PutUint32(b[24:], uint32(hashTab))
	for i := 0; i < n; i++ {
		bo.PutUint32(b[idTab+8*i:], uint32(pos[i][0]))
		bo.PutUint32(b[idTab+8*i+4:], uint32(pos[i][1]))
		bo.PutUint32(b[strTab+8*i:], uint32(pos[n+i][0]))
		bo.PutUint32(b[strTab+8*i+4:], uint32(pos[n+i][1]))
	}
	return b
}

func (d *Doc) renderJSON() []byte {
	r := simrt.NewRand(d.Style)
	uni := r.Chance(1, 3)
	nl := pickS(r, "\n", "", " ", "\r\n", "\n\t")
	str := func(s string) string {
		if !uni {
			return jsonStr(s)
		}
		var b strings.Builder
		b.WriteByte('"')
		for _, c := range s {
			switch {
			case c == '"' || c == '\\':
				b.WriteByte('\\')
				b.WriteRune(c)
			case c < 0x20 || c > 0x7e && c < 0x10000:
				fmt.Fprintf(&b, `\u%04x`, c)
			case c == '/':
				b.WriteString(`\/`)
			default:
				b.WriteRune(c)
			}
		}
		b.WriteByte('"')
		return b.String()
	}
	var items []string
	for _, e := range d.all() {
		k := str(e.key()) + pickS(r, ":", ": ", " : ")
		if e.Plural == "" && e.Ctx == "" && r.Chance(3, 4) {
			items = append(items, k+str(e.Str[0]))
			continue
		}
		var f []string
		if e.Ctx != "" {
			f = append(f, str("context")+":"+str(e.Ctx))
		}
		if r.Chance(1, 4) {
			f = append(f, str(pickS(r, "comment", "Comment"))+": "+str("a \"comment\""))
		}
		if r.Chance(1, 8) {
			f = append(f, str("unknown")+": "+str("ignored"))
		}
		if e.Plural == "" {
			f = append(f, str("other")+":"+str(e.Str[0]))
		} else {
			for i, c := range plangs[d.Lang].cats {
				if r.Chance(1, 8) {
					c = strings.ToUpper(c[:1]) + c[1:]
				}
				f = append(f, str(c)+":"+str(e.Str[i]))
			}
		}
		for i := len(f) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			f[i], f[j] = f[j], f[i]
		}
		items = append(items, k+"{"+strings.Join(f, ","+nl)+"}")
	}
	for i := len(items) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		items[i], items[j] = items[j], items[i]
	}
	return []byte(pickS(r, "", "\n", " ") + "{" + nl + strings.Join(items, ","+nl) + nl + "}" + pickS(r, "", "\n", "\n\n"))
}

// wantContent is what contentOf must return for the document.
func (d *Doc) wantContent() string {
	var lines []string
	for _, e := range d.all() {
		if d.Kind == "json" {
			if e.Plural == "" {
				lines = append(lines, fmt.Sprintf("%q/%q[other]=%q", e.Ctx, e.key(), e.Str[0]))
				continue
			}
			for i, c := range plangs[d.Lang].cats {
				lines = append(lines, fmt.Sprintf("%q/%q[%s]=%q", e.Ctx, e.key(), c, e.Str[i]))
			}
			continue
		}
		if e.fuzzy() {
			continue
		}
		for k, s := range e.Str {
			lines = append(lines, fmt.Sprintf("%q/%q[%d]=%q", e.Ctx, e.ID, k, s))
		}
	}
	sort.Strings(lines)
	return strings.Join(lines, "\n")
}

// wantLookup returns the text a lookup must find ("" if there is none).
func (d *Doc) wantLookup(e *Entry, plural bool, n int64, cldr bool) string {
	if d.Kind != "json" && e.fuzzy() {
		return ""
	}
	p := plangs[d.Lang]
	i := 0
	switch {
	case d.Kind == "json":
		c := "other"
		if plural {
			c = p.cat(n)
		}
		if e.Plural == "" {
			if c != "other" {
				return ""
			}
			return e.Str[0]
		}
		i = slices.Index(p.cats, c)
	case plural && d.Hdr == 2 && !cldr:
		i = p.form(n)
	case plural:
		i = slices.Index(p.cats, p.cat(n))
	}
	if i < 0 || i >= len(e.Str) {
		return ""
	}
	return e.Str[i]
}

// lookups queries a catalog for every entry of the document and for missing ones.
func (d *Doc) lookups(c catalog.Catalog) []string {
	var r []string
	for _, e := range d.all() {
		s, err := c.Lookup(e.Ctx, e.ID)
		r = append(r, fmt.Sprintf("%q,%v", s, err == nil))
		for _, n := range docCounts {
			s, err := c.LookupPlural(e.Ctx, e.ID, n)
			r = append(r, fmt.Sprintf("%q,%v", s, err == nil))
		}
	}
	for _, x := range [][2]string{{"", "no such message"}, {"no such context", "a"}, {"", ""}} {
		s, err := c.Lookup(x[0], x[1])
		r = append(r, fmt.Sprintf("%q,%v", s, err == nil))
	}
	return r
}

var docCounts = []int64{0, 1, 2, 5, 11, 21, 100}

func (d *Doc) wantLookups(cldr bool) []string {
	var r []string
	add := func(id, s string) {
		if s == "" {
			r = append(r, fmt.Sprintf("%q,false", id))
		} else {
			r = append(r, fmt.Sprintf("%q,true", s))
		}
	}
	for _, e := range d.all() {
		add(e.ID, d.wantLookup(&e, false, 0, cldr))
		for _, n := range docCounts {
			add(e.ID, d.wantLookup(&e, true, n, cldr))
		}
	}
	for _, id := range []string{"no such message", "a", ""} {
		add(id, "")
	}
	return r
}

// ---- po files ----

var headerKeys = []string{"Project-Id-Version", "Report-Msgid-Bugs-To", "POT-Creation-Date", "PO-Revision-Date", "Last-Translator",
	"Language-Team", "Language", "MIME-Version", "Content-Type", "Content-Transfer-Encoding", "Plural-Forms", "X-Generator"}

func dumpComment(c *po.Comment) string {
	if c == nil {
		return ""
	}
	refs := ""
	for _, x := range c.References {
		refs += fmt.Sprintf("%s:%d:%d ", x.Path, x.Line, x.Column)
	}
	if c.Translator == "" && c.Extracted == "" && refs == "" && len(c.Flags) == 0 && c.PrevMsgContext == "" && c.PrevMsgID == "" {
		return ""
	}
	return fmt.Sprintf("%q %q %q %q %q %q", c.Translator, c.Extracted, refs, c.Flags, c.PrevMsgContext, c.PrevMsgID)
}

func dumpHeader(h *po.Header) []string {
	var r []string
	if h == nil {
		return []string{"no header"}
	}
	for _, k := range headerKeys {
		if v := *headerField(h, k); v != "" {
			r = append(r, fmt.Sprintf("header %s=%q", k, v))
		}
	}
	for k, v := range h.UnknownFields {
		if v != "" {
			r = append(r, fmt.Sprintf("header %s=%q", k, v))
		}
	}
	sort.Strings(r)
	return r
}

// dumpFile lists everything a po file contains.
func dumpFile(f *po.File, comments bool) string {
	if f == nil {
		return "nil file"
	}
	lines := dumpHeader(f.Header)
	if comments && f.Header != nil {
		lines = append(lines, "header comment "+dumpComment(f.Header.Comment))
	}
	for ctx, m := range f.Messages {
		for id, msg := range m {
			s := fmt.Sprintf("%q/%q ctx=%q id=%q plural=%q", ctx, id, msg.Context, msg.ID, msg.IDPlural)
			ks := make([]int, 0, len(msg.Str))
			for k := range msg.Str {
				ks = append(ks, k)
			}
			sort.Ints(ks)
			for _, k := range ks {
				s += fmt.Sprintf(" [%d]=%q", k, msg.Str[k])
			}
			if comments {
				s += " comment " + dumpComment(msg.Comment)
			}
			lines = append(lines, s)
		}
	}
	sort.Strings(lines)
	return strings.Join(lines, "\n")
}

// header builds the header, with the methods of po.Header or by assigning the fields.
func (d *Doc) header(direct bool) *po.Header {
	if d.Hdr == 0 {
		return nil
	}
	h := &po.Header{}
	set := h.Set
	if direct {
		set = func(k, v string) {
			if p := headerField(h, k); p != nil {
				*p = v
				return
			}
			if h.UnknownFields == nil {
				h.UnknownFields = map[string]string{}
			}
			h.UnknownFields[k] = v
		}
	}
	for i := 0; i+1 < len(d.Header); i += 2 {
		set(d.Header[i], d.Header[i+1])
	}
	if d.hasLang() {
		set("Language", d.Lang)
	}
	if d.hasRule() {
		set("Plural-Forms", plangs[d.Lang].formula)
	}
	if d.Hdr == 3 {
		set("X-spreak-use-CLDR", "true")
	}
	return h
}

// headerField returns the field of a standard key.
func headerField(h *po.Header, key string) *string {
	for i, k := range headerKeys {
		if strings.EqualFold(k, key) {
			return []*string{&h.ProjectIDVersion, &h.ReportMsgidBugsTo, &h.POTCreationDate, &h.PORevisionDate, &h.LastTranslator,
				&h.LanguageTeam, &h.Language, &h.MimeVersion, &h.ContentType, &h.ContentTransferEncoding, &h.PluralForms, &h.XGenerator}[i]
		}
	}
	return nil
}

// checkGet compares the answers of Header.Get with the fields.
func checkGet(h *po.Header) string {
	for _, k := range headerKeys {
		for _, q := range []string{k, strings.ToLower(k), strings.ToUpper(k)} {
			if g, w := h.Get(q), *headerField(h, k); g != w {
				return fmt.Sprintf("Get(%q) = %q, the header has %q", q, g, w)
			}
		}
	}
	for k, v := range h.UnknownFields {
		if g := h.Get(k); g != v {
			return fmt.Sprintf("Get(%q) = %q, the header has %q", k, g, v)
		}
	}
	if g := h.Get("X-No-Such-Field"); g != "" {
		return fmt.Sprintf("Get of an absent field = %q", g)
	}
	return ""
}

// file builds the document with the API of the po package. Entries are inserted in
// an order that depends on order.
func (d *Doc) file(order uint64, decorate bool) *po.File {
	f := po.NewFile()
	f.Header = rawHeader(d.header(d.Style%8 < 4))
	if f.Header != nil && decorate && d.Style%3 == 0 {
		f.Header.Comment = &po.Comment{Translator: "the header comment\nwith two lines", Flags: []string{"fuzzy"}}
	}
	es := d.all()
	idx := permutation(order, len(es))
	for _, i := range idx {
		f.AddMessage(es[i].message(d, decorate))
	}
	return f
}

// mergedFile builds the same file from parts: messages are added several times,
// each time with some of their references and flags. The order decides which
// parts come first.
func (d *Doc) mergedFile(order uint64) *po.File {
	f := po.NewFile()
	f.Header = rawHeader(d.header(d.Style%8 < 4))
	var parts []*po.Message
	es := d.all()
	for i := range es {
		e := &es[i]
		h := hashStr(e.ID+"\x04"+e.Ctx) ^ d.Style
		k := 1 + int(h%4)
		if k == 1 {
			parts = append(parts, e.message(d, true))
			continue
		}
		ps := make([]*po.Message, k)
		var refs []*po.Reference
		for j := range ps {
			m := e.message(d, true)
			if j != int(h>>8)%k {
				m.IDPlural = ""
			}
			ps[j] = m
			if m.Comment == nil {
				continue
			}
			if refs == nil {
				for _, r := range m.Comment.References {
					if !slices.ContainsFunc(refs, func(x *po.Reference) bool { return *x == *r }) {
						refs = append(refs, r)
					}
				}
			}
			m.Comment.References = nil
			m.Comment.Flags = nil
			m.Comment.Translator = trimLines(m.Comment.Translator)
			m.Comment.Extracted = trimLines(m.Comment.Extracted)
		}
		for n, r := range refs {
			for j := range ps {
				if n%k == j || n%5 == 4 {
					c := *r
					if n%2 == 0 {
						ps[j].AddReference(&c)
					} else {
						ps[j].Comment.References = append(ps[j].Comment.References, &c)
					}
				}
			}
		}
		for n, fl := range e.Flags {
			for j := range ps {
				if (n+int(h>>16))%k == j || n%3 == 2 {
					if n%2 == 0 {
						ps[j].Comment.AddFlag(fl)
					} else {
						ps[j].Comment.Flags = append(ps[j].Comment.Flags, fl)
					}
				}
			}
		}
		parts = append(parts, ps...)
	}
	for _, i := range permutation(order, len(parts)) {
		f.AddMessage(parts[i])
	}
	return f
}

// trimLines removes white space around lines and empty lines: how merging treats
// them is not specified.
func trimLines(s string) string {
	var l []string
	for _, x := range strings.Split(s, "\n") {
		if x = strings.TrimSpace(x); x != "" {
			l = append(l, x)
		}
	}
	return strings.Join(l, "\n")
}

func permutation(seed uint64, n int) []int {
	idx := make([]int, n)
	for i := range idx {
		idx[i] = i
	}
	if seed == 0 {
		return idx
	}
	r := simrt.NewRand(seed)
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		idx[i], idx[j] = idx[j], idx[i]
	}
	return idx
}

// rawText puts bytes that are no valid UTF-8 in the places where the text that comes
// back has a replacement character.
func rawText(s string) string {
	if !strings.Contains(s, "\ufffd") {
		return s
	}
	return strings.NewReplacer("\ufffd\ufffd", "\xe6\x97", "\ufffdx", "\xc3x", "\ufffd", "\xff").Replace(s)
}

// rawHeader does the same with the values of a header.
func rawHeader(h *po.Header) *po.Header {
	if h == nil {
		return h
	}
	for _, k := range headerKeys {
		if f := headerField(h, k); f != nil {
			*f = rawText(*f)
		}
	}
	for k, v := range h.UnknownFields {
		h.UnknownFields[k] = rawText(v)
	}
	return h
}

func (e *Entry) message(d *Doc, decorate bool) *po.Message {
	m := po.NewMessage()
	m.Context, m.ID, m.IDPlural = e.Ctx, e.ID, e.Plural
	for k, s := range e.Str {
		if s != "-" {
			m.Str[k] = rawText(s)
		}
	}
	if !decorate {
		m.Comment.Flags = slices.Clone(e.Flags)
		return m
	}
	// comments follow from the entry alone
	r := simrt.NewRand(hashStr(e.Ctx+"\x04"+e.ID) ^ d.Style)
	if r.Chance(1, 6) && len(e.Flags) == 0 {
		m.Comment = nil
		return m
	}
	m.Comment.Flags = slices.Clone(e.Flags)
	if r.Chance(1, 3) {
		m.Comment.Translator = pickS(r, "a translator comment", "two\nlines", "a rather long comment with many words so that it is wrapped", "ends with newline\n", "~ msgid \"x\"",
			": a.go:1", ", fuzzy", ". x", "| msgid \"x\"", "  leading\n  spaces  inside ", "\nfirst line is empty", "averyveryverylongwordwithoutanyspaceinside and b", "msgid \"y\"\nmsgstr \"z\"\n\nx", "a\u00a0b c\td", "=== # === #, fuzzy")
	}
	if r.Chance(1, 3) {
		m.Comment.Extracted = pickS(r, "extracted", "TRANSLATORS: do\n\nnot", "msgid \"x\"", "a b c d e f g h i j k l m n o p q r s t u v w x y z", ". , : |", "one\ntwo\nthree")
	}
	for i := pickI(r, 0, 0, 1, 1, 2, 3, 9); i > 0; i-- {
		ref := &po.Reference{Path: pickS(r, "a.go", "b.go", "dir/c.go", "a.go", "C:\\dir\\d.go", "x:y.go", "ä.go", "#e.go", "a-very-long-directory/with-a-very-long/file_name.go"),
			Line: pickI(r, 0, 1, 2, 2, 10, 99999), Column: pickI(r, 0, 0, 1)}
		m.Comment.References = append(m.Comment.References, ref)
	}
	return m
}

// jsonMessages builds the document with the API of the catalog package.
func (d *Doc) jsonMessages(order uint64) catalog.JSONMessages {
	ms := catalog.JSONMessages{}
	es := d.all()
	for _, i := range permutation(order, len(es)) {
		e := &es[i]
		m := &catalog.JSONMessage{Context: e.Ctx, Translations: map[cldrplural.Category]string{}}
		if len(e.Flags) > 0 {
			m.Comment = strings.Join(e.Flags, ", ")
		}
		if e.Plural == "" {
			m.Translations[cldrplural.Other] = rawText(e.Str[0])
		} else {
			for k, c := range plangs[d.Lang].cats {
				m.Translations[cldrplural.Category(slices.Index(catNames, c))] = rawText(e.Str[k])
			}
		}
		ms[e.key()] = m
	}
	return ms
}
