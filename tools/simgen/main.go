// simgen instruments the working tree of the code under test. It never writes
// into the tree: the rewritten files go to an output directory and a
// "go build -overlay" file maps them over the originals.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const modPath = "github.com/vorlif/spreak"

type listPkg struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	Export     string
	Standard   bool
	Module     *struct {
		Path string
		Main bool
	}
}

type edit struct {
	pos, end int // byte range replaced
	text     string
	seq      int
}

var (
	repo  = flag.String("repo", "/repo", "working tree")
	sim   = flag.String("sim", "/verif/sim", "simulator sources")
	out   = flag.String("out", "", "output directory")
	level = flag.Int("level", 3, "3: everything, 2: no yields, 1: only maps and clock, 0: no instrumentation")
	race  = flag.Bool("race", false, "also overlay a deterministic sync.Pool for race builds")
)

type site struct {
	ID   int    `json:"id"`
	File string `json:"file"`
	Line int    `json:"line"`
}

var (
	sites    []site
	nextSite = 100
	stats    = map[string]int{}
)

func main() {
	flag.Parse()
	if err := run(); err != nil {
		fmt.Fprintln(os.Stderr, "simgen:", err)
		os.Exit(2)
	}
}

func run() error {
	replace := map[string]string{}
	if err := os.MkdirAll(*out, 0o755); err != nil {
		return err
	}
	// simulator packages
	for _, d := range []string{"simrt", "simsync", "simatomic", "harness"} {
		files, err := filepath.Glob(filepath.Join(*sim, d, "*"))
		if err != nil {
			return err
		}
		for _, f := range files {
			if st, err := os.Stat(f); err != nil || st.IsDir() {
				continue
			}
			replace[filepath.Join(*repo, "zz_verif", d, filepath.Base(f))] = f
		}
	}
	pats := []string{".", "./catalog", "./catalog/po", "./catalog/poplural", "./catalog/cldrplural", "./localize", "./humanize"}
	args := append([]string{"list", "-export", "-deps", "-json=ImportPath,Dir,GoFiles,Export,Standard,Module"}, pats...)
	cmd := exec.Command("go", args...)
	cmd.Dir = *repo
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	data, err := cmd.Output()
	if err != nil {
		return fmt.Errorf("go list: %v: %s", err, stderr.String())
	}
	var pkgs []*listPkg
	exports := map[string]string{}
	dec := json.NewDecoder(bytes.NewReader(data))
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			return err
		}
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
		if p.Module != nil && p.Module.Path == modPath {
			pkgs = append(pkgs, p)
		}
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].ImportPath < pkgs[j].ImportPath })
	if *level > 0 {
		for _, p := range pkgs {
			if err := instrument(p, exports, replace); err != nil {
				return err
			}
		}
	}
	if *race {
		if err := overlayPool(replace); err != nil {
			return err
		}
	}
	ov, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), ov, 0o644); err != nil {
		return err
	}
	sj, _ := json.Marshal(sites)
	if err := os.WriteFile(filepath.Join(*out, "sites.json"), sj, 0o644); err != nil {
		return err
	}
	stats["packages"] = len(pkgs)
	stats["sites"] = len(sites)
	stats["level"] = *level
	st, _ := json.Marshal(stats)
	return os.WriteFile(filepath.Join(*out, "gen.json"), st, 0o644)
}

func instrument(p *listPkg, exports map[string]string, replace map[string]string) error {
	fset := token.NewFileSet()
	var files []*ast.File
	var names []string
	srcs := map[string][]byte{}
	for _, f := range p.GoFiles {
		name := filepath.Join(p.Dir, f)
		src, err := os.ReadFile(name)
		if err != nil {
			return err
		}
		af, err := parser.ParseFile(fset, name, src, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		files = append(files, af)
		names = append(names, name)
		srcs[name] = src
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{},
		Uses:  map[*ast.Ident]types.Object{},
		Defs:  map[*ast.Ident]types.Object{},
	}
	conf := types.Config{
		Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			e, ok := exports[path]
			if !ok {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(e)
		}),
		Error: func(error) {},
	}
	if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
		stats["typecheck_errors"]++
	}
	for i, af := range files {
		ed := &editor{fset: fset, file: af, src: srcs[names[i]], info: info, name: names[i]}
		ed.rewrite()
		if len(ed.edits) == 0 {
			continue
		}
		rel, err := filepath.Rel(*repo, names[i])
		if err != nil {
			return err
		}
		dst := filepath.Join(*out, "src", rel)
		if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
			return err
		}
		if err := os.WriteFile(dst, ed.apply(), 0o644); err != nil {
			return err
		}
		replace[names[i]] = dst
	}
	return nil
}

type editor struct {
	fset  *token.FileSet
	file  *ast.File
	src   []byte
	info  *types.Info
	name  string
	edits []edit
	tail  []string
	used  bool
}

func (e *editor) off(p token.Pos) int { return e.fset.Position(p).Offset }

func (e *editor) insert(p token.Pos, text string) {
	o := e.off(p)
	e.edits = append(e.edits, edit{o, o, text, len(e.edits)})
}

func (e *editor) replace(from, to token.Pos, text string) {
	e.edits = append(e.edits, edit{e.off(from), e.off(to), text, len(e.edits)})
}

func (e *editor) site(p token.Pos) int {
	pos := e.fset.Position(p)
	rel, _ := filepath.Rel(*repo, pos.Filename)
	id := nextSite
	nextSite++
	sites = append(sites, site{id, rel, pos.Line})
	return id
}

func (e *editor) apply() []byte {
	sort.SliceStable(e.edits, func(i, j int) bool {
		if e.edits[i].pos != e.edits[j].pos {
			return e.edits[i].pos < e.edits[j].pos
		}
		return e.edits[i].seq < e.edits[j].seq
	})
	var b bytes.Buffer
	last := 0
	for _, d := range e.edits {
		if d.pos < last { // nested replacement: drop
			continue
		}
		b.Write(e.src[last:d.pos])
		b.WriteString(d.text)
		last = d.end
	}
	b.Write(e.src[last:])
	b.WriteString("\n")
	for _, t := range e.tail {
		b.WriteString(t + "\n")
	}
	return b.Bytes()
}

func (e *editor) pkgOf(x ast.Expr) string {
	id, ok := x.(*ast.Ident)
	if !ok {
		return ""
	}
	if pn, ok := e.info.Uses[id].(*types.PkgName); ok {
		return pn.Imported().Path()
	}
	return ""
}

var syncNames = map[string]bool{"Mutex": true, "RWMutex": true, "Once": true, "OnceFunc": true, "OnceValue": true, "OnceValues": true, "WaitGroup": true, "Pool": true, "Map": true, "Cond": true, "NewCond": true, "Locker": true}

func (e *editor) rewrite() {
	// imports of sync packages
	syncOK := true
	ast.Inspect(e.file, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok && e.pkgOf(s.X) == "sync" && !syncNames[s.Sel.Name] {
			syncOK = false
		}
		return true
	})
	if *level >= 2 {
		for _, imp := range e.file.Imports {
			path, _ := strconv.Unquote(imp.Path.Value)
			var to, def string
			switch {
			case path == "sync" && syncOK:
				to, def = modPath+"/zz_verif/simsync", "sync"
			case path == "sync/atomic":
				to, def = modPath+"/zz_verif/simatomic", "atomic"
			default:
				continue
			}
			stats["sync_imports"]++
			text := strconv.Quote(to)
			if imp.Name == nil {
				text = def + " " + text
			}
			e.replace(imp.Path.Pos(), imp.Path.End(), text)
		}
	}
	inSelect := map[ast.Node]bool{}
	comma := map[ast.Expr]bool{}
	ast.Inspect(e.file, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CommClause:
			if x.Comm != nil {
				ast.Inspect(x.Comm, func(m ast.Node) bool { inSelect[m] = true; return true })
			}
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				comma[x.Rhs[0]] = true
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				comma[x.Values[0]] = true
			}
		}
		return true
	})
	// first, so that a yield precedes other insertions at the same position
	if *level >= 3 {
		ast.Inspect(e.file, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				e.yields(x.List)
			case *ast.CaseClause:
				e.yields(x.Body)
			case *ast.CommClause:
				e.yields(x.Body)
			case *ast.ForStmt:
				if len(x.Body.List) == 0 {
					e.use()
					e.insert(x.Body.Lbrace+1, fmt.Sprintf(" zzsimrt.Y(%d) ", e.site(x.Pos())))
				}
			}
			return true
		})
	}
	ast.Inspect(e.file, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.SelectorExpr:
			switch e.pkgOf(x.X) {
			case "time":
				switch x.Sel.Name {
				case "Now", "Since", "Until", "Sleep":
					e.use()
					e.replace(x.Pos(), x.End(), "zzsimrt."+x.Sel.Name)
					e.keep("var _ = " + x.X.(*ast.Ident).Name + ".Now")
					stats["clock_reads"]++
				}
			case "os":
				if x.Sel.Name == "DirFS" {
					e.use()
					e.replace(x.Pos(), x.End(), "zzsimrt.DirFS")
					e.keep("var _ = " + x.X.(*ast.Ident).Name + ".DirFS")
					stats["dirs"]++
				}
			case "maps":
				switch x.Sel.Name {
				case "Keys", "Values", "All":
					e.use()
					e.replace(x.Pos(), x.End(), "zzsimrt.Map"+x.Sel.Name)
					e.keep("var _ = " + x.X.(*ast.Ident).Name + ".Clone[map[int]int]")
					stats["map_iters"]++
				}
			}
		case *ast.RangeStmt:
			tv, ok := e.info.Types[x.X]
			if ok && tv.Type != nil {
				if isMap(tv.Type) {
					e.use()
					e.insert(x.X.Pos(), "zzsimrt.RangeMap(")
					e.insert(x.X.End(), ")")
					stats["map_ranges"]++
				} else if _, ok := tv.Type.Underlying().(*types.Chan); ok && *level >= 2 {
					e.use()
					e.insert(x.X.Pos(), "zzsimrt.RangeChan(")
					e.insert(x.X.End(), ")")
				}
			}
		case *ast.GoStmt:
			if *level >= 2 {
				e.goStmt(x)
			}
		case *ast.SendStmt:
			if *level >= 2 && !inSelect[x] {
				e.use()
				e.insert(x.Pos(), "zzsimrt.Send(")
				e.replace(x.Arrow, x.Arrow+2, ",")
				e.insert(x.End(), ")")
				stats["chan_ops"]++
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && *level >= 2 && !inSelect[x] {
				f := "zzsimrt.Recv("
				if comma[x] {
					f = "zzsimrt.Recv2("
				}
				e.use()
				e.replace(x.OpPos, x.OpPos+2, f)
				e.insert(x.End(), ")")
				stats["chan_ops"]++
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "close" && *level >= 2 {
				if _, ok := e.info.Uses[id].(*types.Builtin); ok {
					e.use()
					e.replace(id.Pos(), id.End(), "zzsimrt.Close")
				}
			}
		}
		return true
	})
	if e.used {
		// same line as the package clause: line numbers stay as they are
		e.insert(e.file.Name.End(), "; import zzsimrt \""+modPath+"/zz_verif/simrt\"")
	}
}

func isMap(t types.Type) bool {
	if _, ok := t.Underlying().(*types.Map); ok {
		return true
	}
	if tp, ok := t.(*types.TypeParam); ok {
		if it, ok := tp.Constraint().Underlying().(*types.Interface); ok && it.NumEmbeddeds() == 1 {
			et := it.EmbeddedType(0)
			if u, ok := et.(*types.Union); ok && u.Len() == 1 {
				et = u.Term(0).Type()
			}
			_, ok := et.Underlying().(*types.Map)
			return ok
		}
	}
	return false
}

func (e *editor) use() { e.used = true }

func (e *editor) keep(line string) {
	for _, t := range e.tail {
		if t == line {
			return
		}
	}
	e.tail = append(e.tail, line)
}

func (e *editor) yields(list []ast.Stmt) {
	for _, s := range list {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause: // the block of a switch holds clauses
			continue
		}
		e.use()
		e.insert(s.Pos(), fmt.Sprintf("zzsimrt.Y(%d);", e.site(s.Pos())))
	}
}

func (e *editor) goStmt(g *ast.GoStmt) {
	e.use()
	stats["go_stmts"]++
	call := g.Call
	if _, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 {
		e.replace(g.Go, call.Fun.Pos(), "zzsimrt.Go(")
		e.replace(call.Lparen, call.Rparen+1, ")")
		return
	}
	// evaluate the arguments now, call later
	var pre, args strings.Builder
	for i, a := range call.Args {
		if i > 0 {
			args.WriteString(", ")
		}
		txt := string(e.src[e.off(a.Pos()):e.off(a.End())])
		tv, ok := e.info.Types[a]
		if ok && (tv.Value != nil || tv.IsNil()) {
			args.WriteString(txt)
			continue
		}
		fmt.Fprintf(&pre, "zz%d := %s; ", i, txt)
		fmt.Fprintf(&args, "zz%d", i)
		if call.Ellipsis.IsValid() && i == len(call.Args)-1 {
			args.WriteString("...")
		}
	}
	e.replace(g.Go, call.Fun.Pos(), "func() { "+pre.String()+"zzsimrt.Go(func() { ")
	e.replace(call.Lparen, call.Rparen+1, "("+args.String()+") }) }()")
}

// overlayPool makes sync.Pool deterministic in race builds (there it drops items
// at random) and keeps it from adding happens-before edges between users.
func overlayPool(replace map[string]string) error {
	o, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return err
	}
	name := filepath.Join(strings.TrimSpace(string(o)), "src", "sync", "pool.go")
	src, err := os.ReadFile(name)
	if err != nil {
		return err
	}
	s := string(src)
	s2 := strings.Replace(s, "func (p *Pool) Put(x any) {\n", "func (p *Pool) Put(x any) {\n\tif race.Enabled {\n\t\treturn\n\t}\n", 1)
	if s2 == s {
		stats["pool_overlay"] = 0
		return nil
	}
	dst := filepath.Join(*out, "pool.go")
	if err := os.WriteFile(dst, []byte(s2), 0o644); err != nil {
		return err
	}
	replace[name] = dst
	stats["pool_overlay"] = 1
	return nil
}
