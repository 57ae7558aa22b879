// Command veriftool copies a Go module and rewrites the copy so that the
// simulator (vsim) owns every source of nondeterminism.
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const module = "github.com/oov/psd"
const simRoot = module + "/verifsim"

// shims: import path -> shim directory (package exporting replacements).
var shims = map[string]string{
	"sync":    "vsync",
	"runtime": "vruntime",
	"time":    "vtime",
	"context": "vcontext",
	"maps":    "vmaps",
}

// commands additionally get a simulated operating system.
var cmdShims = map[string]string{
	"os":        "vos",
	"log":       "vlog",
	"io/ioutil": "vioutil",
	"fmt":       "vfmt",
}

var shimExports = map[string]map[string]bool{}

type pkg struct {
	dir     string // relative
	path    string
	name    string
	files   []string
	sfiles  []string
	asts    []*ast.File
	types   *types.Package
	info    *types.Info
	state   int
	command bool
}

var (
	fset    = token.NewFileSet()
	pkgs    = map[string]*pkg{}
	exports = map[string]string{}
	sizes   = types.SizesFor("gc", "amd64")
	stats   = map[string]int{}
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "veriftool: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	sim := flag.String("sim", "/verif/sim", "")
	want := flag.String("want", "", "comma separated package directories (relative); empty: all")
	flag.Parse()
	os.MkdirAll(*out, 0755)
	loadShimExports(*sim)

	bctx := build.Default
	bctx.CgoEnabled = false
	filepath.Walk(*repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if !fi.IsDir() {
			return nil
		}
		rel, _ := filepath.Rel(*repo, p)
		b := filepath.Base(p)
		if rel != "." && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor") {
			return filepath.SkipDir
		}
		bp, err := bctx.ImportDir(p, 0)
		if err != nil || len(bp.GoFiles) == 0 {
			return nil
		}
		pk := &pkg{dir: rel, name: bp.Name, sfiles: bp.SFiles, command: bp.Name == "main"}
		for _, f := range bp.GoFiles {
			pk.files = append(pk.files, filepath.Join(p, f))
		}
		for _, f := range append(append([]string{}, bp.SFiles...), bp.HFiles...) {
			copyFile(filepath.Join(p, f), filepath.Join(*out, rel, f))
		}
		for _, pat := range bp.EmbedPatterns {
			ms, _ := filepath.Glob(filepath.Join(p, pat))
			for _, m := range ms {
				r, _ := filepath.Rel(*repo, m)
				copyFile(m, filepath.Join(*out, r))
			}
		}
		pk.path = module
		if rel != "." {
			pk.path += "/" + filepath.ToSlash(rel)
		}
		pkgs[pk.path] = pk
		return nil
	})
	if *want != "" {
		keep := map[string]bool{}
		var add func(path string)
		add = func(path string) {
			p := pkgs[path]
			if p == nil || keep[path] {
				return
			}
			keep[path] = true
			for _, f := range p.files {
				af, err := parser.ParseFile(token.NewFileSet(), f, nil, parser.ImportsOnly)
				if err != nil {
					die("%v", err)
				}
				for _, im := range af.Imports {
					s, _ := strconv.Unquote(im.Path.Value)
					add(s)
				}
			}
		}
		for _, w := range strings.Split(*want, ",") {
			path := module
			if w != "." {
				path += "/" + w
			}
			if pkgs[path] == nil {
				die("package %s not found", path)
			}
			add(path)
		}
		for k := range pkgs {
			if !keep[k] {
				delete(pkgs, k)
			}
		}
	}

	// go.mod of the copy
	gomod := readFirst(filepath.Join(*repo, "go.mod"), "/opt/vp/gomod/go.mod", filepath.Join(*sim, "gomod/go.mod"))
	gosum := readFirst(filepath.Join(*repo, "go.sum"), "/opt/vp/gomod/go.sum", filepath.Join(*sim, "gomod/go.sum"))
	os.WriteFile(filepath.Join(*out, "go.mod"), gomod, 0644)
	os.WriteFile(filepath.Join(*out, "go.sum"), gosum, 0644)

	// parse
	ext := map[string]bool{}
	for _, p := range sortedPkgs() {
		for _, f := range p.files {
			af, err := parser.ParseFile(fset, f, nil, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				die("%v", err)
			}
			p.asts = append(p.asts, af)
			for _, im := range af.Imports {
				s, _ := strconv.Unquote(im.Path.Value)
				if pkgs[s] == nil && s != "github.com/oov/downscale" && s != "unsafe" && s != "C" {
					ext[s] = true
				}
			}
		}
	}
	ext["image"], ext["context"] = true, true
	loadExports(*out, ext)
	gc := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok || f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	// the stand-in for the one dependency that is not available offline
	dsDir := filepath.Join(*sim, "downscale")
	ds := &pkg{path: "github.com/oov/downscale", name: "downscale", dir: "verifsim/downscale"}
	ms, _ := filepath.Glob(filepath.Join(dsDir, "*.go"))
	for _, f := range ms {
		af, err := parser.ParseFile(fset, f, nil, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		ds.asts = append(ds.asts, af)
	}
	imp := &imp{gc: gc, extra: map[string]*pkg{ds.path: ds}}
	for _, p := range sortedPkgs() {
		imp.check(p)
	}
	for _, p := range sortedPkgs() {
		rewrite(p, *out)
	}
	// the simulator, the shims and the harness
	filepath.Walk(*sim, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return nil
		}
		rel, _ := filepath.Rel(*sim, p)
		if top := strings.Split(rel, string(filepath.Separator))[0]; top == "tool" || top == "gomod" {
			return nil
		}
		if strings.HasSuffix(p, ".go") || strings.HasSuffix(p, ".s") {
			copyFile(p, filepath.Join(*out, "verifsim", rel))
		}
		return nil
	})
	var ks []string
	for k := range stats {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("%s=%d ", k, stats[k])
	}
	fmt.Println()
}

func readFirst(names ...string) []byte {
	for _, n := range names {
		if b, err := os.ReadFile(n); err == nil {
			return b
		}
	}
	die("none of %v found", names)
	return nil
}

func copyFile(a, b string) {
	d, err := os.ReadFile(a)
	if err != nil {
		die("%v", err)
	}
	os.MkdirAll(filepath.Dir(b), 0755)
	if err := os.WriteFile(b, d, 0644); err != nil {
		die("%v", err)
	}
}

func sortedPkgs() []*pkg {
	var l []*pkg
	for _, p := range pkgs {
		l = append(l, p)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].path < l[j].path })
	return l
}

func loadShimExports(sim string) {
	load := func(dir string) {
		m := map[string]bool{}
		fs, _ := filepath.Glob(filepath.Join(sim, dir, "*.go"))
		for _, f := range fs {
			af, err := parser.ParseFile(token.NewFileSet(), f, nil, parser.SkipObjectResolution)
			if err != nil {
				die("%v", err)
			}
			for _, d := range af.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil && d.Name.IsExported() {
						m[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							m[s.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range s.Names {
								m[n.Name] = true
							}
						}
					}
				}
			}
		}
		shimExports[dir] = m
	}
	for _, d := range shims {
		load(d)
	}
	for _, d := range cmdShims {
		load(d)
	}
}

func loadExports(dir string, ext map[string]bool) {
	args := []string{"list", "-e", "-export", "-deps", "-f", "{{.ImportPath}}\t{{.Export}}"}
	var l []string
	for k := range ext {
		l = append(l, k)
	}
	sort.Strings(l)
	args = append(args, l...)
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local")
	var eb bytes.Buffer
	cmd.Stderr = &eb
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v\n%s", err, eb.String())
	}
	for _, ln := range strings.Split(string(b), "\n") {
		if i := strings.IndexByte(ln, '\t'); i > 0 {
			exports[ln[:i]] = ln[i+1:]
		}
	}
}

type imp struct {
	gc    types.Importer
	extra map[string]*pkg
}

func (im *imp) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if p := pkgs[path]; p != nil {
		im.check(p)
		return p.types, nil
	}
	if p := im.extra[path]; p != nil {
		im.check(p)
		return p.types, nil
	}
	return im.gc.Import(path)
}

func (im *imp) check(p *pkg) {
	if p.state == 2 {
		return
	}
	if p.state == 1 {
		die("import cycle at %s", p.path)
	}
	p.state = 1
	p.info = &types.Info{
		Types:      map[ast.Expr]types.TypeAndValue{},
		Uses:       map[*ast.Ident]types.Object{},
		Defs:       map[*ast.Ident]types.Object{},
		Implicits:  map[ast.Node]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
	}
	conf := types.Config{Importer: im, Sizes: sizes, Error: func(err error) {
		fmt.Fprintln(os.Stderr, err)
	}}
	tp, err := conf.Check(p.path, fset, p.asts, p.info)
	if err != nil {
		die("type check of %s: %v", p.path, err)
	}
	p.types = tp
	p.state = 2
}

// ---- rewriting ----

type rw struct {
	p     *pkg
	file  *ast.File
	hot   bool
	tmp   int
	used  map[string]bool // shim dirs used by this file, and "vsim"
	inits map[string]string
}

func id(n string) *ast.Ident { return ast.NewIdent(n) }

func (r *rw) vs(name string) ast.Expr {
	r.used["vsim"] = true
	return &ast.SelectorExpr{X: id("vsim_"), Sel: id(name)}
}

func call(f ast.Expr, a ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: a} }

func (r *rw) yield() ast.Stmt {
	stats["yield"]++
	return &ast.ExprStmt{X: call(r.vs("Y"))}
}

func (r *rw) typeOf(e ast.Expr) types.Type {
	tv, ok := r.p.info.Types[e]
	if !ok {
		if i, ok := e.(*ast.Ident); ok {
			if o := r.p.info.ObjectOf(i); o != nil {
				return o.Type()
			}
		}
		return nil
	}
	return tv.Type
}

func core(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if tp, ok := t.(*types.TypeParam); ok {
		u := tp.Constraint().Underlying().(*types.Interface)
		var c types.Type
		for i := 0; i < u.NumEmbeddeds(); i++ {
			e := u.EmbeddedType(i)
			if un, ok := e.(*types.Union); ok {
				for j := 0; j < un.Len(); j++ {
					c = un.Term(j).Type().Underlying()
				}
			} else {
				c = e.Underlying()
			}
		}
		return c
	}
	return t.Underlying()
}

func isChan(t types.Type) bool { _, ok := core(t).(*types.Chan); return ok }
func isMap(t types.Type) bool  { _, ok := core(t).(*types.Map); return ok }

func (r *rw) fresh(p string) string {
	r.tmp++
	return fmt.Sprintf("%s_vs%d", p, r.tmp)
}

func isUntypedOrNil(tv types.TypeAndValue) bool {
	if tv.Value != nil || tv.IsNil() || tv.IsType() || tv.IsBuiltin() {
		return true
	}
	if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		return true
	}
	return false
}

func rewrite(p *pkg, out string) {
	for i, f := range p.asts {
		nLines := fset.File(f.Pos()).LineCount()
		r := &rw{p: p, file: f, used: map[string]bool{}, hot: nLines > 3000}
		if p.command {
			f.Name.Name = filepath.Base(p.dir)
		}
		dirs := directives(f)
		r.apply(f)
		r.fixImports(f)
		f.Comments = nil
		strip(f)
		var buf bytes.Buffer
		for _, d := range dirs {
			buf.WriteString(d + "\n")
		}
		if len(dirs) > 0 {
			buf.WriteString("\n")
		}
		cfg := printer.Config{Mode: printer.UseSpaces | printer.TabIndent | printer.SourcePos, Tabwidth: 8}
		if nLines > 20000 {
			cfg.Mode = printer.RawFormat
		}
		if err := cfg.Fprint(&buf, fset, f); err != nil {
			die("printing %s: %v", p.files[i], err)
		}
		dst := filepath.Join(out, p.dir, filepath.Base(p.files[i]))
		os.MkdirAll(filepath.Dir(dst), 0755)
		if err := os.WriteFile(dst, buf.Bytes(), 0644); err != nil {
			die("%v", err)
		}
	}
}

// directives keeps //go:embed style comments we would lose; build constraints
// were already evaluated.
func directives(f *ast.File) []string { return nil }

// strip removes doc comments (positions are no longer right) but keeps
// directives that matter to the compiler.
func strip(f *ast.File) {
	keep := func(g *ast.CommentGroup) *ast.CommentGroup {
		if g == nil {
			return nil
		}
		var l []*ast.Comment
		for _, c := range g.List {
			if strings.HasPrefix(c.Text, "//go:embed") || strings.HasPrefix(c.Text, "//go:linkname") || strings.HasPrefix(c.Text, "//go:noescape") {
				l = append(l, c)
			}
		}
		if l == nil {
			return nil
		}
		g.List = l
		return g
	}
	f.Doc = nil
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			n.Doc = keep(n.Doc)
			if n.Doc != nil {
				f.Comments = append(f.Comments, n.Doc)
			}
		case *ast.GenDecl:
			n.Doc = keep(n.Doc)
			if n.Doc != nil {
				f.Comments = append(f.Comments, n.Doc)
			}
		case *ast.Field:
			n.Doc, n.Comment = nil, nil
		case *ast.ValueSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.TypeSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.ImportSpec:
			n.Doc, n.Comment = nil, nil
		}
		return true
	})
}

func (r *rw) shimFor(path string) (string, bool) {
	if d, ok := shims[path]; ok {
		return d, true
	}
	if r.p.command {
		if d, ok := cmdShims[path]; ok {
			return d, true
		}
	}
	return "", false
}

func (r *rw) apply(f *ast.File) {
	info := r.p.info
	commRecv := map[ast.Node]bool{} // receive expressions that are select cases
	ast.Inspect(f, func(n ast.Node) bool {
		if c, ok := n.(*ast.CommClause); ok && c.Comm != nil {
			switch s := c.Comm.(type) {
			case *ast.ExprStmt:
				commRecv[ast.Unparen(s.X)] = true
			case *ast.AssignStmt:
				commRecv[ast.Unparen(s.Rhs[0])] = true
				commRecv[s] = true
			case *ast.SendStmt:
				commRecv[s] = true
			}
		}
		return true
	})
	recv2 := map[ast.Expr]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch s := n.(type) {
		case *ast.AssignStmt:
			if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
				recv2[ast.Unparen(s.Rhs[0])] = true
			}
		case *ast.ValueSpec:
			if len(s.Names) == 2 && len(s.Values) == 1 {
				recv2[ast.Unparen(s.Values[0])] = true
			}
		}
		return true
	})
	labeled := map[ast.Stmt]string{}
	ast.Inspect(f, func(n ast.Node) bool {
		if l, ok := n.(*ast.LabeledStmt); ok {
			labeled[l.Stmt] = l.Label.Name
		}
		return true
	})
	// Loops, recorded before rewriting, for yield insertion in hot files.
	Apply(f, nil, func(c *Cursor) bool {
		switch n := c.Node().(type) {
		case *ast.SelectorExpr:
			x, ok := n.X.(*ast.Ident)
			if !ok {
				break
			}
			pn, ok := info.Uses[x].(*types.PkgName)
			if !ok {
				break
			}
			path := pn.Imported().Path()
			d, ok := r.shimFor(path)
			if !ok || !shimExports[d][n.Sel.Name] {
				break
			}
			stats["shim."+path+"."+n.Sel.Name]++
			r.used[d] = true
			c.Replace(&ast.SelectorExpr{X: &ast.Ident{NamePos: n.Pos(), Name: d + "_"}, Sel: n.Sel})
		case *ast.UnaryExpr:
			if n.Op != token.ARROW || commRecv[n] {
				break
			}
			stats["recv"]++
			if recv2[n] {
				c.Replace(call(r.vs("Recv2"), n.X))
			} else {
				c.Replace(call(r.vs("Recv"), n.X))
			}
		case *ast.SendStmt:
			if commRecv[n] {
				break
			}
			stats["send"]++
			c.Replace(&ast.ExprStmt{X: call(call(r.vs("SendTo"), n.Chan), n.Value)})
		case *ast.CallExpr:
			if fid, ok := ast.Unparen(n.Fun).(*ast.Ident); ok {
				if b, ok := info.Uses[fid].(*types.Builtin); ok {
					switch b.Name() {
					case "close":
						stats["close"]++
						c.Replace(call(r.vs("Close"), n.Args...))
					case "make":
						r.rewriteMake(n)
					}
				}
			}
		case *ast.RangeStmt:
			t := r.typeOf(n.X)
			switch {
			case isChan(t):
				stats["range.chan"]++
				n.X = call(r.vs("ChanSeq"), n.X)
			case isMap(t):
				stats["range.map"]++
				if n.Value == nil {
					n.X = call(r.vs("MapKeySeq"), n.X)
				} else {
					n.X = call(r.vs("MapSeq"), n.X)
				}
			}
			if r.hot {
				n.Body.List = append([]ast.Stmt{r.yield()}, n.Body.List...)
			}
		case *ast.ForStmt:
			if r.hot {
				n.Body.List = append([]ast.Stmt{r.yield()}, n.Body.List...)
			}
		case *ast.GoStmt:
			stats["go"]++
			c.Replace(r.rewriteGo(n))
		case *ast.SelectStmt:
			stats["select"]++
			if labeled[n] != "" {
				break // handled at the label
			}
			pre, sw := r.rewriteSelect(n)
			c.Replace(&ast.BlockStmt{List: append(pre, sw)})
		case *ast.LabeledStmt:
			if sel, ok := n.Stmt.(*ast.SelectStmt); ok {
				pre, sw := r.rewriteSelect(sel)
				n.Stmt = sw
				c.Replace(&ast.BlockStmt{List: append(pre, n)})
			}
		case *ast.FuncDecl:
			if r.p.command && n.Recv == nil && n.Name.Name == "main" {
				n.Name = id("Main")
			}
			if n.Body != nil {
				r.yields(n.Body)
			}
		case *ast.FuncLit:
			r.yields(n.Body)
		}
		return true
	})
}

func (r *rw) rewriteMake(n *ast.CallExpr) {
	if len(n.Args) < 2 {
		return
	}
	t := r.typeOf(n.Args[0])
	sl, ok := core(t).(*types.Slice)
	if !ok {
		return
	}
	if hasTypeParam(sl.Elem(), 0) {
		return
	}
	size := sizes.Sizeof(sl.Elem())
	last := len(n.Args) - 1
	tv := r.p.info.Types[n.Args[last]]
	if tv.Value != nil || tv.Type == nil {
		return
	}
	b, ok := core(tv.Type).(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 || b.Info()&types.IsUntyped != 0 {
		return
	}
	stats["make"]++
	n.Args[last] = call(r.vs("Len"), n.Args[last], &ast.BasicLit{Kind: token.INT, Value: strconv.FormatInt(size, 10)})
}

func hasTypeParam(t types.Type, d int) bool {
	if d > 8 {
		return true
	}
	switch t := t.(type) {
	case *types.TypeParam:
		return true
	case *types.Named:
		if a := t.TypeArgs(); a != nil {
			for i := 0; i < a.Len(); i++ {
				if hasTypeParam(a.At(i), d+1) {
					return true
				}
			}
		}
		return false
	case *types.Array:
		return hasTypeParam(t.Elem(), d+1)
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if hasTypeParam(t.Field(i).Type(), d+1) {
				return true
			}
		}
	}
	return false
}

func (r *rw) rewriteGo(g *ast.GoStmt) ast.Stmt {
	c := g.Call
	if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		if len(flResults(fl)) == 0 {
			return &ast.ExprStmt{X: call(r.vs("Go"), fl)}
		}
	}
	var pre []ast.Stmt
	bind := func(e ast.Expr) ast.Expr {
		n := r.fresh("v")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
		return id(n)
	}
	nc := &ast.CallExpr{Fun: c.Fun, Ellipsis: c.Ellipsis}
	fun := ast.Unparen(c.Fun)
	builtin := false
	if i, ok := fun.(*ast.Ident); ok {
		if _, ok := r.p.info.Uses[i].(*types.Builtin); ok {
			builtin = true
		}
	}
	if !builtin {
		// a plain function name needs no binding; anything else is evaluated now
		needs := true
		switch x := fun.(type) {
		case *ast.Ident:
			if _, ok := r.p.info.Uses[x].(*types.Func); ok {
				needs = false
			}
		case *ast.SelectorExpr:
			if y, ok := x.X.(*ast.Ident); ok {
				if _, ok := r.p.info.Uses[y].(*types.PkgName); ok {
					needs = false
				}
				if strings.HasSuffix(y.Name, "_") && r.used[strings.TrimSuffix(y.Name, "_")] {
					needs = false
				}
			}
		case *ast.CallExpr:
			// already rewritten (Close etc.) or a call returning a function
		}
		if needs {
			nc.Fun = bind(c.Fun)
		}
	}
	// an already rewritten builtin such as Close(...)
	tuple := false
	if len(c.Args) == 1 {
		if tv, ok := r.p.info.Types[c.Args[0]]; ok {
			if _, ok := tv.Type.(*types.Tuple); ok {
				tuple = true
			}
		}
	}
	for i, a := range c.Args {
		tv, ok := r.p.info.Types[a]
		if tuple || (ok && isUntypedOrNil(tv)) {
			nc.Args = append(nc.Args, a)
			continue
		}
		_ = i
		nc.Args = append(nc.Args, bind(a))
	}
	if c.Ellipsis.IsValid() {
		nc.Ellipsis = 1
	}
	fl := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: nc}}}}
	pre = append(pre, &ast.ExprStmt{X: call(r.vs("Go"), fl)})
	return &ast.BlockStmt{List: pre}
}

func flResults(f *ast.FuncLit) []*ast.Field {
	if f.Type.Results == nil {
		return nil
	}
	return f.Type.Results.List
}

func (r *rw) rewriteSelect(s *ast.SelectStmt) (pre []ast.Stmt, sw ast.Stmt) {
	if len(s.Body.List) == 0 {
		return nil, &ast.ExprStmt{X: call(r.vs("Forever"))}
	}
	hasDefault := "false"
	args := []ast.Expr{nil}
	body := &ast.BlockStmt{}
	idx := 0
	for _, cs := range s.Body.List {
		c := cs.(*ast.CommClause)
		cc := &ast.CaseClause{}
		if c.Comm == nil {
			hasDefault = "true"
			cc.Body = c.Body
			if len(s.Body.List) > 1 || true {
				body.List = append(body.List, cc)
			}
			continue
		}
		name := r.fresh("c")
		cc.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}
		idx++
		args = append(args, id(name))
		var rhs ast.Expr
		var first ast.Stmt
		switch m := c.Comm.(type) {
		case *ast.SendStmt:
			rhs = call(call(r.vs("SendCase"), m.Chan), m.Value)
		case *ast.ExprStmt:
			u := ast.Unparen(m.X).(*ast.UnaryExpr)
			rhs = call(r.vs("RecvCase"), u.X)
		case *ast.AssignStmt:
			u := ast.Unparen(m.Rhs[0]).(*ast.UnaryExpr)
			rhs = call(r.vs("RecvCase"), u.X)
			meth := "V"
			if len(m.Lhs) == 2 {
				meth = "V2"
			}
			first = &ast.AssignStmt{Lhs: m.Lhs, Tok: m.Tok, Rhs: []ast.Expr{call(&ast.SelectorExpr{X: id(name), Sel: id(meth)})}}
		}
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id(name)}, Tok: token.DEFINE, Rhs: []ast.Expr{rhs}})
		if first != nil {
			cc.Body = append(cc.Body, first)
		}
		cc.Body = append(cc.Body, c.Body...)
		body.List = append(body.List, cc)
	}
	args[0] = id(hasDefault)
	if hasDefault == "false" {
		// keeps "missing return" analysis happy: the switch is exhaustive
		body.List = append(body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(id("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"vsim: select"`})}}})
	}
	return pre, &ast.SwitchStmt{Tag: call(r.vs("Select"), args...), Body: body}
}

// yields inserts scheduling points before the statements of a function body,
// but not inside nested function literals (they get their own).
func (r *rw) yields(b *ast.BlockStmt) {
	if r.hot {
		return // loop heads only
	}
	var list func(l []ast.Stmt) []ast.Stmt
	var stmt func(s ast.Stmt)
	list = func(l []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range l {
			stmt(s)
			skip := false
			switch x := s.(type) {
			case *ast.EmptyStmt:
				skip = true
			case *ast.DeclStmt:
				skip = true
			case *ast.ExprStmt:
				if c, ok := x.X.(*ast.CallExpr); ok {
					if se, ok := c.Fun.(*ast.SelectorExpr); ok {
						if i, ok := se.X.(*ast.Ident); ok && i.Name == "vsim_" && se.Sel.Name == "Y" {
							skip = true
						}
					}
				}
			case *ast.BranchStmt:
				if x.Tok == token.FALLTHROUGH {
					skip = true
				}
			}
			if !skip {
				out = append(out, r.yield())
			}
			out = append(out, s)
		}
		return out
	}
	stmt = func(s ast.Stmt) {
		switch s := s.(type) {
		case *ast.BlockStmt:
			s.List = list(s.List)
		case *ast.IfStmt:
			s.Body.List = list(s.Body.List)
			if s.Else != nil {
				stmt(s.Else)
			}
		case *ast.ForStmt:
			s.Body.List = list(s.Body.List)
			if len(s.Body.List) == 0 {
				s.Body.List = []ast.Stmt{r.yield()}
			}
		case *ast.RangeStmt:
			s.Body.List = list(s.Body.List)
		case *ast.SwitchStmt:
			for _, c := range s.Body.List {
				cc := c.(*ast.CaseClause)
				cc.Body = list(cc.Body)
			}
		case *ast.TypeSwitchStmt:
			for _, c := range s.Body.List {
				cc := c.(*ast.CaseClause)
				cc.Body = list(cc.Body)
			}
		case *ast.SelectStmt:
			for _, c := range s.Body.List {
				cc := c.(*ast.CommClause)
				cc.Body = list(cc.Body)
			}
		case *ast.LabeledStmt:
			stmt(s.Stmt)
		}
	}
	b.List = list(b.List)
}

// fixImports adds the shim imports and keeps the original ones in use.
func (r *rw) fixImports(f *ast.File) {
	var specs []ast.Spec
	add := func(name, path string) {
		specs = append(specs, &ast.ImportSpec{Name: id(name), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(path)}})
	}
	var ds []string
	for d := range r.used {
		ds = append(ds, d)
	}
	sort.Strings(ds)
	for _, d := range ds {
		add(d+"_", simRoot+"/"+d)
	}
	// original imports: drop those no longer used
	usedNames := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if x, ok := s.X.(*ast.Ident); ok {
				usedNames[x.Name] = true
			}
		}
		return true
	})
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			continue
		}
		var keep []ast.Spec
		for _, s := range g.Specs {
			is := s.(*ast.ImportSpec)
			path, _ := strconv.Unquote(is.Path.Value)
			if path == "github.com/oov/downscale" {
				is.Path.Value = strconv.Quote(simRoot + "/downscale")
			}
			if _, ok := r.shimFor(path); ok {
				name := path[strings.LastIndexByte(path, '/')+1:]
				if is.Name != nil {
					name = is.Name.Name
				}
				if name != "_" && name != "." && !usedNames[name] {
					continue
				}
			}
			keep = append(keep, s)
		}
		g.Specs = keep
		if len(keep) > 0 && !g.Lparen.IsValid() && len(keep) > 1 {
			g.Lparen = g.Pos()
		}
	}
	var decls []ast.Decl
	if len(specs) > 0 {
		decls = append(decls, &ast.GenDecl{Tok: token.IMPORT, Lparen: 1, Rparen: 1, Specs: specs})
	}
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT && len(g.Specs) == 0 {
			continue
		}
		decls = append(decls, d)
	}
	f.Decls = decls
}
