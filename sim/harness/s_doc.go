package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"runtime"
	"runtime/debug"
	"slices"
	"strings"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/catalog/po"
	"github.com/vorlif/spreak/internal/mo"
	"github.com/vorlif/spreak/zz_verif/simrt"
)

func init() {
	scenarios["C05"] = &scenario{genC05, runC05}
	scenarios["C06"] = &scenario{genC06, runC06}
}

// ---- corruption ----

var poDict = []string{
	"msgid \"\"\nmsgstr \"\"\n", "msgid \"a\"\nmsgstr \"b\"\n", "\n\n", "#, fuzzy\n", "msgstr[1] \"x\"\n", "msgstr \"\"\n\"x\"\n", "msgid_plural \"x\"\n",
	"msgstr[99999999999999999999] \"x\"\n", "msgstr[1000000000] \"x\"\n", "msgctxt \"c\"\n", "#| msgid \"x\"\n", "#|\n", "#| \"x\"\n", "#| foo\n", "#\n", "#,\n", "#:\n",
	"\"", "\\", "\\\"", "\"\\\"\n", "\\x4", "\\x", "\\u12", "\x00", "\xff\xfe", "\xc3", "\"Plural-Forms: nplurals=2; plural=n%0;\\n\"\n",
	"\"Plural-Forms: nplurals=0; plural=0;\\n\"\n", "\"Plural-Forms: nplurals=99999999999; plural=n;\\n\"\n", "\"Plural-Forms: nplurals=2; plural=n/0;\\n\"\n",
	"\"Plural-Forms: nplurals=2; plural=(((n;\\n\"\n", "\"Plural-Forms: nplurals=2; plural=n?1:;\\n\"\n", "\"Plural-Forms: nplurals=3; plural=n*1000000000000;\\n\"\n",
	"\"Plural-Forms: nplurals=2; plural=-n;\\n\"\n", "\"Plural-Forms: plural=n!=1; nplurals=2;\\n\"\n", "\"Plural-Forms: \\n\"\n", "\"Plural-Forms: nplurals=1; plural=18446744073709551616;\\n\"\n",
	"\"Plural-Forms\\n\"\n", "\":\\n\"\n", "msgid\n", "msgstr\n", "msgstr[] \"x\"\n", "msgstr[-1] \"x\"\n", "msgid \"a\" \"b\"\n", "msgid \"\"\n",
}

var jsonDict = []string{"null", "{}", "[]", "\"\"", ":", ",", "}", "{", "\"other\"", "1e999", "\\ud800", "\"a\":null,", "\"b\":{\"context\":\"x\",\"other\":\"y\"},", "\"c\":{\"one\":\"y\"},",
	"\"d\":{\"other\":{\"other\":\"z\"}},", "\"\":\"empty\",", "\x00", "\xff", "\"e\":{\"Other\":\"a\",\"other\":\"b\"},", "true", "\"f\":{},", "\"g\":\"x\",\"g\":\"y\","}

func repeatDict(kind string, n int) (string, bool) {
	switch kind {
	case "parens":
		return "msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural=" + strings.Repeat("(", n) + "n" + strings.Repeat(")", n) + ";\\n\"\n\n", true
	case "bangs":
		return "msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural=" + strings.Repeat("!", n) + "n;\\n\"\n\n", true
	case "terns":
		return "msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural=" + strings.Repeat("n?", n) + "n" + strings.Repeat(":1", n) + ";\\n\"\n\n", true
	case "sums":
		return "msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural=n" + strings.Repeat("+n", n) + ";\\n\"\n\n", true
	case "ors":
		return "msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural=n" + strings.Repeat("||n==1", n) + ";\\n\"\n\n", true
	case "comments":
		return strings.Repeat("#\n", n), true
	case "fullcomments":
		return strings.Repeat("# c\n#. e\n#: r:1\n", n/4), true
	case "blanks":
		return strings.Repeat("\n", n), true
	case "unused":
		return strings.Repeat("#.\n", n), true
	case "refs":
		return "#: " + strings.Repeat("a:1 ", n) + "\n", true
	case "flags":
		return "#, " + strings.Repeat("fuzzy,", n) + "\n", true
	case "strs":
		return "msgid \"many\"\nmsgstr \"\"\n" + strings.Repeat("\"x\"\n", n), true
	case "backslashes":
		return "msgid \"" + strings.Repeat("\\", n) + "\"\nmsgstr \"\"\n", true
	case "jsonnest":
		return strings.Repeat("{\"a\":", n), false
	case "jsonarr":
		return strings.Repeat("[", n), false
	}
	return "", true
}

var poRepeats = []string{"parens", "bangs", "terns", "sums", "ors", "comments", "fullcomments", "blanks", "unused", "refs", "flags", "strs", "backslashes"}

var u32s = []uint32{0, 1, 7, 0xff, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff8, 0x20000000, 0x10000000, 0x1fffffff, 0x950412de, 0xde120495}

func corrupt(d *Doc, data []byte, muts []Mut) []byte {
	for _, m := range muts {
		n := len(data)
		at := 0
		if n > 0 {
			at = m.A % (n + 1)
		}
		end := func(w int) int { return min(at+w, n) }
		switch m.K {
		case "trunc":
			data = data[:at:at]
		case "flip":
			if n > 0 {
				data = slices.Clone(data)
				data[m.A%n] ^= 1 << (m.B % 8)
			}
		case "zero":
			data = slices.Clone(data)
			for i := at; i < end(m.B%600); i++ {
				data[i] = 0
			}
		case "junk":
			data = slices.Clone(data)
			r := simrt.NewRand(uint64(m.B))
			for i := at; i < end(1+m.B%40); i++ {
				data[i] = byte(r.Next())
			}
		case "repeat":
			e := end(1 + m.B%300)
			data = slices.Concat(data[:e], bytes.Repeat(data[at:e], 1+m.B/300%5), data[e:])
		case "cut":
			data = slices.Concat(data[:at], data[end(1+m.B%200):])
		case "swap":
			a, b := end(m.B%100), end(m.B%100+m.B/100%100)
			data = slices.Concat(data[:at], data[a:b], data[at:a], data[b:])
		case "u32":
			if n >= 28 {
				data = slices.Clone(data)
				o := m.A % (n - 3) &^ 3
				if m.A%3 > 0 {
					o = 4 * (m.A % 7) // the header
				}
				binary.LittleEndian.PutUint32(data[o:], u32s[m.B%len(u32s)])
				if d.BE {
					binary.BigEndian.PutUint32(data[o:], u32s[m.B%len(u32s)])
				}
			}
		case "small": // change an offset, length or count a little
			if n >= 28 {
				data = slices.Clone(data)
				o := 8 + m.A%(n-11)&^3
				if m.A%3 == 0 {
					o = 8 + 4*(m.A%5)
				}
				var bo binary.ByteOrder = binary.LittleEndian
				if d.BE {
					bo = binary.BigEndian
				}
				bo.PutUint32(data[o:], bo.Uint32(data[o:])+uint32(m.B%33-16))
			}
		case "overlap": // texts that share most of their bytes
			var bo binary.ByteOrder = binary.LittleEndian
			if d.BE {
				bo = binary.BigEndian
			}
			if n >= 28 {
				data = slices.Clone(data)
				count, ids, strs := int(bo.Uint32(data[8:])), int(bo.Uint32(data[12:])), int(bo.Uint32(data[16:]))
				for i := 0; i < min(count, n/8); i++ {
					for k, tab := range []int{ids, strs} {
						if o := tab + 8*i; o >= 28 && o+8 <= n && m.B>>k&1 == 0 {
							start := (m.A + i*(m.B>>2%64)) % max(n*3/4, 1)
							bo.PutUint32(data[o:], uint32((n-start)/(1+m.B>>8%20)))
							bo.PutUint32(data[o+4:], uint32(start))
						}
					}
				}
			}
		case "rule": // another plural rule
			i := bytes.Index(data, []byte("plural="))
			if i < 0 {
				break
			}
			i += len("plural=")
			e := bytes.IndexByte(data[i:], ';')
			if e < 0 {
				break
			}
			f := []byte(anyRule(simrt.NewRand(uint64(m.B)), m.A%5))
			if d.Kind == "mo" { // of the same length
				f = append(f, bytes.Repeat([]byte(" "), max(0, e-len(f)))...)[:e]
			}
			data = slices.Concat(data[:i], f, data[i+e:])
		case "dict", "line":
			dict := poDict
			if d.Kind == "json" {
				dict = jsonDict
			}
			if m.K == "line" { // at the start of a line
				if i := bytes.IndexByte(data[at:], '\n'); i >= 0 {
					at += i + 1
				}
			}
			data = slices.Concat(data[:at], []byte(dict[m.B%len(dict)]), data[at:])
		default:
			if k, ok := strings.CutPrefix(m.K, "rep:"); ok {
				s, atLine := repeatDict(k, m.B)
				if atLine {
					at = 0
					if m.A%2 == 1 { // at the end, after an entry
						at = n
						s = "\n" + s
					}
				}
				data = slices.Concat(data[:at], []byte(s), data[at:])
			}
		}
	}
	return data
}

// anyRule returns a plural rule that may be senseless, or something similar to one.
func anyRule(r *simrt.Rand, junk int) string {
	num := func() string {
		return pickS(r, "0", "0", "1", "2", "10", "100", "00", "4294967296", "9223372036854775807", "9223372036854775808", "99999999999999999999", "-1", "1.5")
	}
	var expr func(depth int) string
	expr = func(depth int) string {
		if depth == 0 {
			return pickS(r, "n", "n", "n%"+num(), num())
		}
		switch r.Intn(7) {
		case 0:
			return "(" + expr(depth-1) + ")"
		case 1:
			return expr(depth-1) + "?" + expr(depth-1) + ":" + expr(depth-1)
		case 2:
			return expr(0) + "%" + pickS(r, num(), "(n)", "n")
		case 3:
			return "!" + expr(depth-1)
		}
		return expr(depth-1) + pickS(r, "==", "!=", "<", ">", "<=", ">=", "&&", "||", " and ", " or ", "%", "+", "-", "*", "/") + expr(depth-1)
	}
	s := expr(r.Intn(4))
	for ; junk > 2; junk-- {
		at := r.Intn(len(s) + 1)
		switch r.Intn(3) {
		case 0:
			s = s[:at] + s[min(len(s), at+1+r.Intn(3)):]
		case 1:
			s = s[:at] + pickS(r, "(", ")", "?", ":", "=", "!", "&", "|", "%", "n", " ", "x", "nplurals", "ä") + s[at:]
		default:
			s += pickS(r, "", "?", ":", "%", "&&", "(")
		}
	}
	return s
}

func genMuts(r *simrt.Rand, d *Doc, n int) []Mut {
	var ms []Mut
	for ; n > 0; n-- {
		m := Mut{A: r.Intn(1 << 24), B: r.Intn(1 << 24)}
		switch d.Kind {
		case "po":
			m.K = pickS(r, "trunc", "flip", "zero", "junk", "repeat", "cut", "swap", "dict", "dict", "line", "line")
		case "mo":
			m.K = pickS(r, "trunc", "flip", "zero", "junk", "repeat", "cut", "swap", "u32", "u32", "small", "small", "overlap")
		default:
			m.K = pickS(r, "trunc", "flip", "zero", "junk", "repeat", "cut", "swap", "dict", "dict", "dict")
		}
		ms = append(ms, m)
	}
	return ms
}

// ---- C05 ----

func genC05(r *simrt.Rand, tier string) *Plan {
	p := &Plan{MapSeed: r.Next(), N: map[string]int{}}
	p.Doc = genDoc(r, docOpts{max: 12})
	if r.Chance(1, 8) {
		p.Doc.Pad = pickI(r, 300, 4090, 4096, 5000, 65520, 65535, 65536, 70000, 140000)
	}
	if r.Chance(2, 5) {
		p.Muts = genMuts(r, p.Doc, 1+r.Intn(3))
	}
	p.N["cldr"] = b2i(r.Chance(1, 4))
	id := 0
	var ops []Op
	for n := 3 + r.Intn(6); n > 0; n-- {
		op := Op{ID: id}
		switch r.Intn(5) {
		case 0, 1:
			op.K = "reader"
			op.A = []int{r.Intn(4), r.Intn(2), r.Intn(1 << 20)}
		case 2:
			op.K = "load"
			op.A = []int{r.Intn(16), r.Intn(1 << 20)}
		case 3:
			op.K = "parse" // history of the parser, reader mode, ignore comments
			op.A = []int{r.Intn(8), r.Intn(4), r.Intn(2), r.Intn(1 << 20)}
		case 4:
			op.K = "bytes"
			op.A = []int{r.Intn(3)}
		}
		ops = append(ops, op)
		id++
	}
	p.Tasks = [][]Op{ops}
	p.Sched = Sched{Seed: r.Next(), Mode: simrt.ModeOps, Max: 400_000_000}
	return p
}

func (d *Doc) decoder(cldr bool) catalog.Decoder {
	switch {
	case d.Kind == "json":
		return catalog.NewJSONDecoder()
	case d.Kind == "mo" && cldr:
		return catalog.NewMoCLDRDecoder()
	case d.Kind == "mo":
		return catalog.NewMoDecoder()
	case cldr:
		return catalog.NewPoCLDRDecoder()
	}
	return catalog.NewPoDecoder()
}

// descr describes the outcome of a decode.
func (d *Doc) descr(c catalog.Catalog, err error) string {
	if err != nil {
		return "failed"
	}
	if c == nil {
		return "neither catalog nor error"
	}
	s := contentOf(c)
	if x, ok := c.(interface {
		Domain() string
		Language() language.Tag
	}); ok {
		s += "\n" + x.Domain() + " " + x.Language().String()
	}
	return s + "\n" + strings.Join(d.lookups(c), "\n")
}

func (d *Doc) want(dom string, cldr bool) string {
	return d.wantContent() + "\n" + dom + " " + d.Lang + "\n" + strings.Join(d.wantLookups(cldr), "\n")
}

type panicReader struct {
	r io.Reader
	n int
}

func (p *panicReader) Read(b []byte) (int, error) {
	if p.n <= 0 {
		panic("reader panics")
	}
	n, err := p.r.Read(b[:min(len(b), p.n)])
	p.n -= n
	return n, err
}

func runC05(p *Plan, o *Outcome) {
	d := p.Doc
	data := corrupt(d, d.render(), p.Muts)
	tag := language.MustParse(d.Lang)
	cldr := p.N["cldr"] == 1
	var base, dump, dumpQ string
	var file, fileQ [2]string // parsed and wanted, with comments or without
	pan, hung := solo(400_000_000, func() {
		c, err := d.decoder(cldr).Decode(tag, "dom", slices.Clone(data))
		base = d.descr(c, err)
		switch d.Kind {
		case "po":
			f, err := po.Parse(slices.Clone(data))
			dump = fileDescr(f, err)
			if file[1] = d.wantFile(true); err == nil {
				file[0] = gotFile(f, true, file[1])
			}
			q := po.NewParser()
			q.SetIgnoreComments(true)
			f, err = q.Parse(bytes.NewReader(data))
			dumpQ = fileDescr(f, err)
			if fileQ[1] = d.wantFile(false); err == nil {
				fileQ[0] = gotFile(f, false, fileQ[1])
			}
		case "mo":
			f, err := mo.ParseBytes(slices.Clone(data))
			dump = fileDescr(f, err)
			if file[1] = d.wantFile(false); err == nil {
				file[0] = gotFile(f, false, file[1])
			}
		}
	})
	if hung || pan != "" {
		o.violate("panic", "decoding %s from memory: %s", d.Kind, pan)
		return
	}
	if len(p.Muts) == 0 {
		o.Evals++
		if want := d.want("dom", cldr); base != want {
			o.violate("content", "decoding a well-formed %s file from memory gives something else than its content: %s", d.Kind, diff(strings.Split(base, "\n"), strings.Split(want, "\n")))
			return
		}
		for _, x := range [][2]string{file, fileQ} {
			if x[0] != x[1] {
				o.violate("content", "parsing a well-formed %s file gives something else than its content: %s", d.Kind, diff(strings.Split(x[0], "\n"), strings.Split(x[1], "\n")))
				return
			}
		}
	}
	reused := po.NewParser()
	kinds := 0
	ok := runTasks(p, o, func(t *tstate, op Op) {
		t.do(p, op, func(r *opRes) {
			want := base
			var got string
			switch op.K {
			case "bytes":
				switch {
				case op.A[0] == 1 && d.Kind == "json":
					c := catalog.NewJSONCatalog(tag, "dom")
					err := json.Unmarshal(slices.Clone(data), c)
					got = d.descr(c, err)
				case op.A[0] == 2 && d.Kind == "po":
					f, err := po.ParseString(string(data))
					got, want = fileDescr(f, err), dump
				default:
					c, err := d.decoder(cldr).Decode(tag, "dom", slices.Clone(data))
					got = d.descr(c, err)
				}
			case "reader":
				sr := &simReader{data: data, mode: op.A[0], rd: uint64(op.A[2]), fail: -1}
				var rd io.Reader = sr
				if op.A[1] == 1 {
					rd = simReadSeeker{sr}
				}
				if v2, ok := d.decoder(cldr).(catalog.DecoderV2); ok {
					c, err := v2.DecodeReader(tag, "dom", rd)
					got = d.descr(c, err)
					break
				}
				c := catalog.NewJSONCatalog(tag, "dom")
				dec := json.NewDecoder(rd)
				err := dec.Decode(c)
				if err == nil {
					if _, e2 := dec.Token(); e2 != io.EOF {
						err = errors.New("trailing data")
					}
				}
				got = d.descr(c, err)
			case "load":
				t.rd = uint64(op.A[1])
				name := d.Lang + "." + d.Kind
				l, err := spreak.NewFilesystemLoader(spreak.WithFs(newFS(map[string][]byte{name: data}, op.A[0])), spreak.WithDecoder("."+d.Kind, d.decoder(cldr)))
				if err != nil {
					panic(err)
				}
				c, err := l.Load(tag, "")
				got = d.descr(c, err)
				want = strings.Replace(base, "\ndom "+d.Lang+"\n", "\n "+d.Lang+"\n", 1)
			case "parse":
				rd := &simReader{data: data, mode: op.A[1], rd: uint64(op.A[3]), fail: -1}
				switch d.Kind {
				case "po":
					reused.SetIgnoreComments(op.A[2]%2 == 1 && op.A[0] != 7)
					parserHistory(reused, op.A[0], op.A[3], data)
					reused.SetIgnoreComments(op.A[2]%2 == 1)
					f, err := reused.Parse(rd)
					got, want = fileDescr(f, err), dump
					if op.A[2]%2 == 1 {
						want = dumpQ
					}
				case "mo":
					f, err := mo.ParseReader(simReadSeeker{rd})
					got, want = fileDescr(f, err), dump
				default:
					c, err := d.decoder(cldr).Decode(tag, "dom", data)
					got = d.descr(c, err)
				}
			}
			kinds++
			r.Vals = []string{got, want}
		})
	})
	if !ok {
		return
	}
	for _, op := range p.Tasks[0] {
		r := resByID()[op.ID]
		if r == nil || !r.Done {
			continue
		}
		o.Evals++
		if r.Panic != "" {
			o.violate("panic", "%s %v of a %s file: %s", op.K, op.A, d.Kind, r.Panic)
			return
		}
		if r.Vals[0] != r.Vals[1] {
			o.violate("delivery", "%s %v of a %s file differs from decoding the same bytes from memory: %s", op.K, op.A, d.Kind, diff(strings.Split(r.Vals[0], "\n"), strings.Split(r.Vals[1], "\n")))
			return
		}
		o.note(r.Vals[0])
		o.Fired["delivery-"+op.K]++
	}
	o.Key = hashStr(base+dump) ^ hashStr(fmt.Sprint(p.Tasks))
	o.Nontrivial = kinds > 0
}

func fileDescr(f *po.File, err error) string {
	if err != nil {
		return "failed"
	}
	return dumpFile(f, true)
}

// parserHistory uses a parser before.
func parserHistory(q *po.Parser, kind, x int, data []byte) {
	good := "msgid \"\"\nmsgstr \"\"\n\"Language: xx\\n\"\n\"X-Left: over\\n\"\n\n#, fuzzy\n# left over\nmsgctxt \"left\"\nmsgid \"over\"\nmsgstr \"left over\"\n"
	defer func() {
		if v := recover(); v != nil {
			if ab, ok := v.(simrt.Abort); ok {
				panic(ab)
			}
		}
	}()
	switch kind {
	case 1:
		_, _ = q.Parse(strings.NewReader(good))
	case 2: // cut short
		_, _ = q.Parse(strings.NewReader(good[:x%len(good)]))
	case 3:
		_, _ = q.Parse(&simReader{data: []byte(good), mode: 2, rd: uint64(x), fail: int64(x % len(good)), err: errors.New("read error")})
	case 4:
		_, _ = q.Parse(&panicReader{strings.NewReader(good), x % len(good)})
	case 5:
		_, _ = q.Parse(strings.NewReader(good + "\nmsgid \"over\"\nmsgstr \"a\"\n\nmsgid \"over\"\nmsgstr \"b\"\n# comment\nmsgid \"c\"\nmsgstr \"d\"\n"))
	case 6:
		_, _ = q.Parse(strings.NewReader(""))
	case 7:
		_, _ = q.Parse(bytes.NewReader(data))
	case 0:
	}
}

// ---- C06 ----

func genC06(r *simrt.Rand, tier string) *Plan {
	p := &Plan{MapSeed: r.Next(), N: map[string]int{}}
	p.Doc = genDoc(r, docOpts{max: 10})
	d := p.Doc
	if r.Chance(1, 12) {
		d.Pad = pickI(r, 1000, 9000, 70000)
	}
	switch r.Intn(8) {
	case 0, 1:
		p.Muts = []Mut{{K: "trunc", A: r.Intn(1 << 24)}}
	case 2:
		if d.Kind == "mo" {
			p.Muts = genMuts(r, d, 1+r.Intn(2))
		} else if d.Kind == "json" {
			p.Muts = []Mut{{K: "rep:" + pickS(r, "jsonnest", "jsonarr"), A: r.Intn(1 << 24), B: pickI(r, 10, 1000, 9990, 20000)}}
			if r.Chance(1, 2) {
				p.Muts = []Mut{{K: "trunc"}, {K: "dict", B: r.Intn(1 << 24)}}
			}
		} else {
			p.Muts = []Mut{{K: "rep:" + poRepeats[r.Intn(len(poRepeats))], A: r.Intn(1 << 24), B: pickI(r, 10, 500, 2000, 2000, 8000, 30000)}}
			if r.Chance(1, 8) {
				p.Muts = []Mut{{K: "rep:" + pickS(r, "comments", "blanks", "unused", "unused"), A: r.Intn(1 << 24), B: 300_000}}
			}
			if r.Chance(1, 2) {
				d.Hdr = 0
			}
		}
	case 3:
		if d.Kind != "json" && d.hasRule() {
			p.Muts = []Mut{{K: "rule", A: r.Intn(1 << 24), B: r.Intn(1 << 24)}}
			break
		}
		fallthrough
	default:
		p.Muts = genMuts(r, d, pickI(r, 1, 1, 1, 2, 3, 5))
	}
	var ops []Op
	for i, n := 0, 1+r.Intn(3); i < n; i++ {
		ops = append(ops, Op{ID: i, K: pickS(r, "bytes", "reader", "load", "parse", "unmarshal"), A: []int{r.Intn(4), r.Intn(2), r.Intn(16)}})
	}
	p.Tasks = [][]Op{ops}
	return p
}

func runC06(p *Plan, o *Outcome) {
	d := p.Doc
	orig := d.render()
	data := corrupt(d, orig, p.Muts)
	tag := language.MustParse(d.Lang)
	truncated := len(p.Muts) > 0 && d.Kind != "po"
	for _, m := range p.Muts {
		if m.K != "trunc" {
			truncated = false
		}
	}
	old := debug.SetMaxStack(32 << 20)
	defer debug.SetMaxStack(old)
	want := d.wantContent()
	n := int64(len(data))
	for _, m := range p.Muts {
		o.Fired["corrupt-"+strings.TrimPrefix(m.K, "rep:")]++
	}
	o.note(string(data))
	t := ts[0]
	for _, op := range p.Tasks[0] {
		t.begin(p, op)
		t.rd = uint64(op.A[2])
		var c catalog.Catalog
		var f *po.File
		var err error
		isFile := false
		var m0, m1 runtime.MemStats
		if !simrt.RaceEnabled {
			runtime.ReadMemStats(&m0)
		}
		var steps int64
		budget := int64(200_000) + 400*n
		pan, hung := solo(budget, func() {
			defer func() { steps = simrt.Steps() }()
			sr := &simReader{data: data, mode: op.A[0], rd: uint64(op.A[2]), fail: -1}
			var rd io.Reader = sr
			if op.A[1] == 1 {
				rd = simReadSeeker{sr}
			}
			dec := d.decoder(op.A[2]%4 == 0)
			switch op.K {
			case "reader":
				if v2, ok := dec.(catalog.DecoderV2); ok {
					c, err = v2.DecodeReader(tag, "d", rd)
					return
				}
				x := catalog.NewJSONCatalog(tag, "d")
				err = json.NewDecoder(rd).Decode(x)
				c = x
				isFile = true // bytes after the document are not looked at
			case "load":
				l, e := spreak.NewFilesystemLoader(spreak.WithFs(newFS(map[string][]byte{d.Lang + "." + d.Kind: data}, op.A[2])), spreak.WithDecoder("."+d.Kind, dec))
				if e != nil {
					panic(e)
				}
				c, err = l.Load(tag, "")
			case "parse":
				switch d.Kind {
				case "po":
					isFile = true
					q := po.NewParser()
					q.SetIgnoreComments(op.A[1] == 1)
					f, err = q.Parse(rd)
				case "mo":
					isFile = true
					f, err = mo.ParseReader(simReadSeeker{sr})
				default:
					c, err = dec.Decode(tag, "d", data)
				}
			case "unmarshal":
				if d.Kind == "json" {
					x := catalog.NewJSONCatalog(tag, "d")
					err = json.Unmarshal(data, x)
					c = x
				} else {
					c, err = dec.Decode(tag, "d", data)
				}
			default:
				c, err = dec.Decode(tag, "d", data)
			}
		})
		o.Steps += steps
		o.Evals++
		if hung {
			o.violate("no-progress", "%s of %d bytes of %s does not end within %d steps (%s)", op.K, n, d.Kind, budget, pan)
			return
		}
		if pan != "" {
			o.violate("panic", "%s of corrupt %s: %s", op.K, d.Kind, pan)
			return
		}
		if !simrt.RaceEnabled {
			runtime.ReadMemStats(&m1)
			alloc := int64(m1.TotalAlloc - m0.TotalAlloc)
			o.memo(steps, alloc, n)
			lim := int64(1<<20) + 100*n + n*min(n, 6000)
			if d.Kind == "mo" {
				lim = 1<<20 + 1500*n
			}
			if alloc > lim {
				o.violate("memory", "%s of %d bytes of %s allocates %d bytes (limit %d)", op.K, n, d.Kind, alloc, lim)
				return
			}
		}
		if err == nil && c == nil && f == nil {
			o.violate("nothing", "%s of corrupt %s returns neither a catalog nor an error", op.K, d.Kind)
			return
		}
		res := "failed"
		if err == nil {
			res = "ok"
			pan, hung = solo(1_000_000+2000*n, func() {
				if f != nil {
					res = dumpFile(f, true)
				}
				if c != nil {
					res = contentOf(c)
					d.lookups(c)
					for _, x := range []any{int8(-1), 1.5, "3", nil, "x", uint64(1) << 63, -1 << 62, []int{1}} {
						for _, e := range d.Entries {
							_, _ = c.LookupPlural(e.Ctx, e.ID, x)
						}
						_, _ = c.LookupPlural("", "a", x)
					}
				}
			})
			if pan != "" || hung {
				o.violate("lookup-panic", "using the catalog decoded from corrupt %s: %s", d.Kind, pan)
				return
			}
			if truncated && !isFile && res != want {
				o.violate("torn", "%s of a truncated %s file (%d of %d bytes) succeeds with other content: %s", op.K, d.Kind, n, len(orig), diff(strings.Split(res, "\n"), strings.Split(want, "\n")))
				return
			}
			if d.Kind == "json" && truncated && !isFile && len(data) < len(bytes.TrimRight(orig, " \n\r\t")) {
				o.violate("torn", "%s accepts a json file that was cut short (%d of %d bytes)", op.K, n, len(orig))
				return
			}
		}
		o.note(res)
		o.Key = o.Key*31 + hashStr(res)
	}
	o.Key ^= hashStr(string(data))
	o.Nontrivial = !bytes.Equal(orig, data)
}

// memo keeps the largest ratios (for calibration).
func (o *Outcome) memo(steps, alloc, n int64) {
	maxSteps = max(maxSteps, (steps-20_000)/max(n, 1))
	if r := (alloc - 1<<20) / max(n, 1); r > maxAlloc {
		maxAlloc = r
	}
}

var maxSteps, maxAlloc int64
