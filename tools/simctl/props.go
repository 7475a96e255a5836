package main

type propCfg struct {
	plain, race int // runs of the quick tier
	pb, rb      int // batch sizes
	mem         int // address space limit of a worker in MB
	needsClock  bool
	rule        string
	real        []string
	stub        []string
}

func (c propCfg) batch() int {
	if c.pb > 0 {
		return c.pb
	}
	return 1000
}

func (c propCfg) raceBatch() int {
	if c.rb > 0 {
		return c.rb
	}
	return 60
}

var (
	realLookup = []string{"spreak (bundle, locale, localizer, loader, options)", "catalog, catalog/po, catalog/poplural, catalog/cldrplural, internal/mo", "localize", "x/text language matching and message printing"}
	realLoad   = []string{"spreak (bundle, loader, resolver, localizer)", "catalog and catalog/po decoders, internal/mo", "humanize loader (C04, C07, C10)", "x/text/language"}
	realDecode = []string{"catalog decoders", "catalog/po scanner and parser", "internal/mo", "encoding/json", "spreak filesystem loader (C05)"}
	realEncode = []string{"catalog JSON encoder", "catalog/po encoder, scanner and parser", "catalog decoders"}
	realHuman  = []string{"humanize with its shipped locales", "spreak bundle and localizers inside it", "catalog decoders"}
	stubBytes  = []string{"readers and files (seeded deliveries)", "map iteration order (seeded)"}
	stubStore  = []string{"file systems (simulated fs.FS with and without Stat/ReadFile/Seek)", "user callbacks", "goroutine scheduling (seeded cooperative scheduler)", "map iteration order (seeded)"}
)

var props = map[string]propCfg{
	"C01": {plain: 16000, race: 2400, mem: 4096, real: realLookup, stub: stubStore,
		rule: "one run = one generated bundle (languages, domains, catalogs in PO/MO/JSON, options) and 2-5 tasks of lookups and queries under one seeded schedule, each answer compared with a reference model; non-trivial: at least one preemption inside an operation; distinct by schedule hash and plan"},
	"C02": {plain: 24000, mem: 4096, real: realLookup, stub: append([]string{"flaky catalogs wrapped around the real ones"}, stubStore...),
		rule: "one run = one generated bundle with flaky catalogs and a history of lookups, each text and error compared with a reference model of the requested/fallback/source chain; non-trivial: at least one lookup left the requested language; distinct by plan"},
	"C03": {plain: 16000, race: 1200, mem: 4096, real: realLookup, stub: append([]string{"flaky catalogs wrapped around the real ones"}, stubStore...),
		rule: "one run = one generated bundle and 1-4 tasks of lookups; the callback log of every lookup is compared with a reference model; non-trivial: at least one callback expected; distinct by schedule hash and plan"},
	"C04": {plain: 24000, mem: 4096, real: realLoad, stub: stubStore,
		rule: "one run = one generated set of catalog files, a fault-free construction and 2-6 constructions (bundles or humanizer collections) with storage faults at chosen points; outcome, error chain and content of each construction are compared with a reference model; non-trivial: at least one fault struck; distinct by plan and observed history"},
	"C07": {plain: 24000, mem: 4096, real: realLoad, stub: stubStore,
		rule: "one run = 1-3 tasks constructing or loading under a seeded schedule with storage faults and panics; the file log is checked (each opened file closed exactly once, nothing used after close); non-trivial: at least one fault struck; distinct by schedule hash and observed history"},
	"C08": {plain: 24000, mem: 4096, real: realLoad, stub: stubStore,
		rule: "one run = 1-2 constructions of a generated bundle with missing, broken and undeclared languages and loaders that refuse, under a seeded map order; outcome, listings, callback log, contents and lookups compared with a reference model; non-trivial: construction must fail or report something missing; distinct by plan and observed history"},
	"C09": {plain: 40000, mem: 4096, real: realLoad, stub: stubStore,
		rule: "one run = 2-6 loads from a generated file tree with several candidates, some vanishing while the load proceeds; the file served is compared with the documented candidate order; every run is non-trivial; distinct by plan and observed history"},
	"C10": {plain: 20000, mem: 4096, real: realLoad, stub: stubStore,
		rule: "one run = a history of constructions from the same parts with errors and panics striking, lookups on earlier bundles in between, and a fault-free construction at the end; all compared with a reference model; non-trivial: at least one fault struck; distinct by plan and observed history"},
	"C11": {plain: 14000, race: 2000, rb: 40, mem: 4096, real: realLoad, stub: stubStore,
		rule: "one run = 2-4 tasks constructing bundles from shared parts and using them under one seeded schedule, with storage faults in some constructions; each construction and lookup compared with a reference model; non-trivial: at least one preemption inside an operation; distinct by schedule hash and observed history"},
	"C05": {plain: 18000, pb: 300, mem: 4096, real: realDecode, stub: stubBytes,
		rule: "one run = one generated document (PO with an independent writer's layout variations, MO in either byte order, JSON) decoded through many deliveries (chunkings, empty reads, data with EOF, seekable or not, memory, reader, loader, a reused parser); all outcomes must be equal and, for well-formed documents, be the document's content; every run is non-trivial; distinct by document and observed outcome"},
	"C06": {plain: 90000, pb: 1500, mem: 2048, real: realDecode, stub: stubBytes,
		rule: "one run = one generated document damaged as crashes and bad disks do (cut, flipped, zeroed, repeated, swapped blocks) or by hostile structure, decoded within a step and memory budget proportional to its size and then asked for every message; cut MO/JSON must be rejected or decode to the original entries; non-trivial: the bytes differ from a well-formed file; distinct by document and outcome"},
	"C12": {plain: 20000, pb: 300, mem: 4096, real: realEncode, stub: []string{"writer (seeded short and failing writes, panics)", "map iteration order (seeded)", "goroutine scheduling (seeded cooperative scheduler)"},
		rule: "one run = a history of encodings of generated PO files and JSON catalogs by one or several encoders to writers that fail, write short or panic at a chosen byte; error chain, accepted prefix and later complete output checked; non-trivial: a write failed; distinct by plan and observed history"},
	"C13": {plain: 30000, pb: 500, mem: 4096, real: append([]string{"catalog encoders, decoders, po.Header, cldrplural.ParseRules, humanize.New"}, realLookup...), stub: []string{"map iteration order (seeded, two or more different orders per artefact)", "insertion order of entries"},
		rule: "one run = generated artefacts (PO file, JSON catalog, header, rule set, bundle, humanizer collection) each produced under several map iteration and insertion orders; results must be identical; every run is non-trivial; distinct by plan and observed outcome"},
	"C14": {plain: 12000, pb: 300, mem: 4096, real: realEncode, stub: []string{"disk (the saved bytes; a crash keeps a prefix)"},
		rule: "one run = one generated PO file or JSON catalog encoded with generated settings, reloaded completely and after crashes at 12-14 cut points; every entry compared with what was saved; every run is non-trivial; distinct by document and outcome"},
	"C15": {plain: 60000, pb: 1000, mem: 4096, needsClock: true, real: realHuman, stub: []string{"wall clock and time zones (simulated clock behind time.Now, jumps forward and backward, also within a call)"},
		rule: "one run = humanizers of several languages and a history of calls with the simulated clock set near midnights, daylight-saving changes, year ends and jumping between and within calls; each answer compared with an independent calendar model; non-trivial: the clock jumped; distinct by plan and observed answers"},
	"C16": {plain: 14000, race: 1500, rb: 30, mem: 4096, needsClock: true, real: realHuman, stub: []string{"wall clock (simulated)", "goroutine scheduling (seeded cooperative scheduler)", "map iteration order (seeded)"},
		rule: "one run = 2-5 tasks using and creating humanizers and collections under one seeded schedule; each answer must equal the one given alone at the same clock reading; non-trivial: at least one preemption inside an operation; distinct by schedule hash and plan"},
	"C17": {plain: 14000, race: 1500, rb: 40, mem: 4096, real: realLookup, stub: append([]string{"callers that overwrite everything they got or gave"}, stubStore...),
		rule: "one run = one generated bundle plus catalogs decoded from buffers and built from maps; 1-4 tasks overwrite returned lists, maps, messages, errors and reused inputs while tasks look things up; every answer, and everything again in the end, compared with the reference model; non-trivial: something was overwritten; distinct by schedule hash and plan"},
	"C18": {plain: 14000, race: 1200, rb: 40, mem: 4096, real: realLoad, stub: append([]string{"user code that panics or calls back (callback, printer, matcher builder, catalog, loader, decoder, resolver, file, writer, Localizable, error)"}, stubStore...),
		rule: "one run = one generated bundle and 1-4 tasks of lookups, loads, constructions and encodings whose user code panics or re-enters the same objects at chosen points; panics must surface, everything else must equal the reference model without deadlock; non-trivial: user code panicked or re-entered; distinct by schedule hash and observed history"},
}
