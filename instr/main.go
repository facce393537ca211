// Command instr makes the simulated copy of a Go module: every non-test,
// non-main package of the module is type-checked and rewritten so that
// goroutines, channels, maps, clocks, sockets, locks and shared-memory updates
// go through the simulator package <module>/zzsim. It judges nothing.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var redirect = map[string]string{
	"sync": "sync", "sync/atomic": "atomic", "time": "time", "net": "net", "os": "os",
	"log": "log", "fmt": "fmt", "math/rand": "rand", "math/rand/v2": "rand", "context": "context",
	"runtime": "runtime",
}

type pkgInfo struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	CgoFiles   []string
	Export     string
	Standard   bool
	Module     *struct{ Path, GoVersion, Dir string }
	Imports    []string
	Error      *struct{ Err string }
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(1)
}

func main() {
	repo := flag.String("repo", "", "module directory")
	world := flag.String("world", "", "directory with zzsim and zzharness")
	out := flag.String("out", "", "output module directory")
	flag.Parse()
	cmd := exec.Command("go", "list", "-export", "-deps", "-json", "./...")
	cmd.Dir = *repo
	var eb bytes.Buffer
	cmd.Stderr = &eb
	b, err := cmd.Output()
	if err != nil {
		// a broken example must not stop the library from being simulated
		cmd = exec.Command("go", "list", "-e", "-export", "-deps", "-json", ".")
		cmd.Dir = *repo
		var e2 bytes.Buffer
		cmd.Stderr = &e2
		b, err = cmd.Output()
		if err != nil {
			fatal("go list: %v\n%s", err, e2.String())
		}
	}
	pkgs := map[string]*pkgInfo{}
	var order []*pkgInfo
	d := json.NewDecoder(bytes.NewReader(b))
	for {
		p := &pkgInfo{}
		if err := d.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fatal("go list output: %v", err)
		}
		pkgs[p.ImportPath] = p
		order = append(order, p)
	}
	var mod, gover string
	var todo []*pkgInfo
	for _, p := range order {
		if p.Standard || p.Module == nil {
			continue
		}
		if p.Name == "main" {
			continue
		}
		if len(p.CgoFiles) > 0 {
			fatal("package %s uses cgo", p.ImportPath)
		}
		if filepath.Clean(p.Module.Dir) != filepath.Clean(*repo) {
			fatal("package %s comes from another module", p.ImportPath)
		}
		mod, gover = p.Module.Path, p.Module.GoVersion
		todo = append(todo, p)
	}
	if len(todo) == 0 {
		fatal("no packages in %s\n%s", *repo, eb.String())
	}
	gv := gover
	major, minor := 1, 21
	if n, _ := fmt.Sscanf(gover, "%d.%d", &major, &minor); n < 2 || minor < 21 {
		gv, minor = "1.21", 21
	}
	perIter := minor >= 22

	shimSyms := map[string]map[string]bool{}
	for _, s := range redirect {
		if shimSyms[s] == nil {
			shimSyms[s] = exported(filepath.Join(*world, "zzsim", s))
		}
	}

	fset := token.NewFileSet()
	lookup := func(path string) (io.ReadCloser, error) {
		p := pkgs[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	}
	imp := &srcImporter{base: importer.ForCompiler(fset, "gc", lookup), have: map[string]*types.Package{}}

	sites := []string{"?"}
	for _, p := range todo {
		var files []*ast.File
		var names []string
		sort.Strings(p.GoFiles)
		for _, f := range p.GoFiles {
			af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
			if err != nil {
				fatal("%v", err)
			}
			files = append(files, af)
			names = append(names, f)
		}
		info := &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
			Uses: map[*ast.Ident]types.Object{}, Instances: map[*ast.Ident]types.Instance{},
			Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{},
		}
		conf := types.Config{Importer: imp, GoVersion: "go" + gv}
		tp, err := conf.Check(p.ImportPath, fset, files, info)
		if err != nil {
			fatal("type check: %v", err)
		}
		imp.have[p.ImportPath] = tp
		rel, err := filepath.Rel(*repo, p.Dir)
		if err != nil {
			fatal("%v", err)
		}
		dir := filepath.Join(*out, rel)
		if err := os.MkdirAll(dir, 0755); err != nil {
			fatal("%v", err)
		}
		initFns := 0
		var initNames []string
		resets := map[*ast.Ident]string{} // first lhs ident -> reset func
		resetN := 0
		var zeroNames []string
		for i, f := range files {
			r := &rw{fset: fset, info: info, pkg: tp, sites: &sites, mod: mod, file: rel + "/" + names[i],
				syms: shimSyms, need: map[string]string{}, perIter: perIter}
			src := r.doFile(f, &initFns, &initNames, resets, &resetN, &zeroNames)
			if err := os.WriteFile(filepath.Join(dir, names[i]), src, 0644); err != nil {
				fatal("%v", err)
			}
		}
		// reset function
		var rb bytes.Buffer
		fmt.Fprintf(&rb, "package %s\n\n", p.Name)
		fmt.Fprintf(&rb, "// ZZSimReset puts every package variable back to its initial value.\nfunc ZZSimReset() {\n")
		for _, z := range zeroNames {
			fmt.Fprintf(&rb, "\t%s()\n", z)
		}
		byObj := map[types.Object]string{}
		for id, n := range resets {
			if o := info.Defs[id]; o != nil {
				byObj[o] = n
			}
		}
		for _, in := range info.InitOrder {
			if len(in.Lhs) > 0 {
				if n, ok := byObj[in.Lhs[0]]; ok {
					fmt.Fprintf(&rb, "\t%s()\n", n)
				}
			}
		}
		for _, n := range initNames {
			fmt.Fprintf(&rb, "\t%s()\n", n)
		}
		fmt.Fprintf(&rb, "}\n\n// ZZSimGlobals points to every package variable.\nfunc ZZSimGlobals() []interface{} {\n\treturn []interface{}{\n")
		for _, n := range tp.Scope().Names() {
			if _, ok := tp.Scope().Lookup(n).(*types.Var); ok && n != "_" {
				fmt.Fprintf(&rb, "\t\t&%s,\n", n)
			}
		}
		fmt.Fprintf(&rb, "\t}\n}\n")
		if err := os.WriteFile(filepath.Join(dir, "zz_reset.go"), rb.Bytes(), 0644); err != nil {
			fatal("%v", err)
		}
	}
	if err := os.WriteFile(filepath.Join(*out, "go.mod"), []byte("module "+mod+"\n\ngo "+gv+"\n"), 0644); err != nil {
		fatal("%v", err)
	}
	copyTree(filepath.Join(*world, "zzsim"), filepath.Join(*out, "zzsim"))
	copyTree(filepath.Join(*world, "zzharness"), filepath.Join(*out, "zzharness"))
	// table of sites and of the packages to reset
	var sb bytes.Buffer
	fmt.Fprintf(&sb, "package main\n\nimport (\n\t_ %q\n", "ustack/zzsim")
	for i, p := range todo {
		fmt.Fprintf(&sb, "\tp%d %q\n", i, p.ImportPath)
	}
	fmt.Fprintf(&sb, ")\n\nfunc resetPackages() {\n")
	for i := range todo {
		fmt.Fprintf(&sb, "\tp%d.ZZSimReset()\n", i)
	}
	fmt.Fprintf(&sb, "}\n\nfunc packageGlobals() (all []interface{}) {\n")
	for i := range todo {
		fmt.Fprintf(&sb, "\tall = append(all, p%d.ZZSimGlobals()...)\n", i)
	}
	fmt.Fprintf(&sb, "\treturn\n}\n\nvar siteTable = []string{\n")
	for _, s := range sites {
		fmt.Fprintf(&sb, "\t%q,\n", s)
	}
	fmt.Fprintf(&sb, "}\n")
	if err := os.WriteFile(filepath.Join(*out, "zzharness", "zz_table.go"), sb.Bytes(), 0644); err != nil {
		fatal("%v", err)
	}
}

type srcImporter struct {
	base types.Importer
	have map[string]*types.Package
}

func (s *srcImporter) Import(p string) (*types.Package, error) {
	if x := s.have[p]; x != nil {
		return x, nil
	}
	return s.base.Import(p)
}

func copyTree(from, to string) {
	err := filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		dst := filepath.Join(to, rel)
		if fi.IsDir() {
			return os.MkdirAll(dst, 0755)
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(dst, b, 0644)
	})
	if err != nil {
		fatal("%v", err)
	}
}

func exported(dir string) map[string]bool {
	m := map[string]bool{}
	fset := token.NewFileSet()
	ents, _ := os.ReadDir(dir)
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		f, err := parser.ParseFile(fset, filepath.Join(dir, e.Name()), nil, 0)
		if err != nil {
			fatal("%v", err)
		}
		for _, d := range f.Decls {
			switch x := d.(type) {
			case *ast.FuncDecl:
				if x.Recv == nil && x.Name.IsExported() {
					m[x.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range x.Specs {
					switch y := s.(type) {
					case *ast.TypeSpec:
						m[y.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range y.Names {
							m[n.Name] = true
						}
					}
				}
			}
		}
	}
	return m
}

// ---------------------------------------------------------------- rewriting

type rw struct {
	fset    *token.FileSet
	info    *types.Info
	pkg     *types.Package
	sites   *[]string
	mod     string
	file    string
	syms    map[string]map[string]bool
	need    map[string]string // alias -> import path
	perIter bool
	tmp     int
	funcs   []ast.Node // enclosing FuncDecl/FuncLit
	fname   string
}

func (r *rw) site(n ast.Node) ast.Expr {
	p := r.fset.Position(n.Pos())
	*r.sites = append(*r.sites, fmt.Sprintf("%s:%d", strings.TrimPrefix(r.file, "./"), p.Line))
	return intLit(len(*r.sites) - 1)
}

func intLit(i int) ast.Expr {
	if i < 0 {
		return &ast.UnaryExpr{Op: token.SUB, X: &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(-i)}}
	}
	return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(i)}
}
func id(s string) *ast.Ident { return ast.NewIdent(s) }

func (r *rw) zz(name string) ast.Expr {
	r.need["zzsim"] = "ustack/zzsim"
	return &ast.SelectorExpr{X: id("zzsim"), Sel: id(name)}
}
func call(f ast.Expr, a ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: a} }
func sel(x ast.Expr, n string) ast.Expr            { return &ast.SelectorExpr{X: x, Sel: id(n)} }
func es(e ast.Expr) ast.Stmt                       { return &ast.ExprStmt{X: e} }
func define(lhs []ast.Expr, rhs ...ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
}
func (r *rw) name(s string) string {
	r.tmp++
	return fmt.Sprintf("zz%s%d", s, r.tmp)
}
func (r *rw) y(n ast.Node) ast.Stmt { return es(call(r.zz("Y"), r.site(n))) }

func (r *rw) doFile(f *ast.File, initFns *int, initNames *[]string, resets map[*ast.Ident]string, resetN *int, zeroNames *[]string) []byte {
	f.Comments = nil
	f.Doc = nil
	var decls []ast.Decl
	var extra []ast.Decl
	used := map[string]string{} // imports kept: path -> alias
	for _, d := range f.Decls {
		switch x := d.(type) {
		case *ast.GenDecl:
			x.Doc = nil
			if x.Tok == token.IMPORT {
				for _, s := range x.Specs {
					is := s.(*ast.ImportSpec)
					is.Doc, is.Comment = nil, nil
					path, _ := strconv.Unquote(is.Path.Value)
					if _, ok := redirect[path]; ok && (is.Name == nil || is.Name.Name != "_") {
						if is.Name != nil && is.Name.Name == "." {
							fatal("dot import of %s", path)
						}
						continue
					}
					a := ""
					if is.Name != nil {
						a = is.Name.Name
					}
					used[path+" "+a] = a
					r.need["import:"+path+" "+a] = path
				}
				continue
			}
			for _, s := range x.Specs {
				switch y := s.(type) {
				case *ast.ValueSpec:
					y.Doc, y.Comment = nil, nil
					y.Type = r.expr(y.Type)
					if x.Tok == token.VAR {
						r.fname = "init"
						two := len(y.Names) == 2 && len(y.Values) == 1
						for i, v := range y.Values {
							y.Values[i] = r.rhs(v, two)
						}
						var zs []ast.Stmt
						for _, n := range y.Names {
							if n.Name != "_" {
								zs = append(zs, es(call(r.zz("Zero"), &ast.UnaryExpr{Op: token.AND, X: id(n.Name)})))
							}
						}
						if len(zs) > 0 {
							*resetN++
							zn := fmt.Sprintf("zzzero_%d", *resetN)
							*zeroNames = append(*zeroNames, zn)
							extra = append(extra, fn(zn, zs))
						}
						if len(y.Values) == len(y.Names) {
							for i, v := range y.Values {
								*resetN++
								rn := fmt.Sprintf("zzreset_%d", *resetN)
								resets[y.Names[i]] = rn
								extra = append(extra, fn(rn, []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id(y.Names[i].Name)}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}}}))
							}
						} else if len(y.Values) == 1 {
							*resetN++
							rn := fmt.Sprintf("zzreset_%d", *resetN)
							var l []ast.Expr
							for _, n := range y.Names {
								l = append(l, id(n.Name))
							}
							resets[y.Names[0]] = rn
							extra = append(extra, fn(rn, []ast.Stmt{&ast.AssignStmt{Lhs: l, Tok: token.ASSIGN, Rhs: []ast.Expr{y.Values[0]}}}))
						}
					} else {
						for i, v := range y.Values {
							y.Values[i] = r.expr(v)
						}
					}
				case *ast.TypeSpec:
					y.Doc, y.Comment = nil, nil
					y.Type = r.expr(y.Type)
					r.fieldList(y.TypeParams)
				}
			}
			decls = append(decls, x)
		case *ast.FuncDecl:
			x.Doc = nil
			r.fieldList(x.Recv)
			r.funcType(x.Type)
			r.fname = x.Name.Name
			if x.Body != nil {
				r.funcs = append(r.funcs, x)
				x.Body = r.block(x.Body)
				r.funcs = r.funcs[:len(r.funcs)-1]
			}
			if x.Recv == nil && x.Name.Name == "init" {
				*initFns++
				n := fmt.Sprintf("zzinit_%d", *initFns)
				x.Name = id(n)
				*initNames = append(*initNames, n)
				extra = append(extra, fn("init", []ast.Stmt{es(call(id(n)))}))
			}
			decls = append(decls, x)
		}
	}
	decls = append(decls, extra...)
	// imports
	imp := &ast.GenDecl{Tok: token.IMPORT, Lparen: 1}
	var keys []string
	for k := range r.need {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		path := r.need[k]
		var nm *ast.Ident
		if strings.HasPrefix(k, "import:") {
			if a := used[strings.TrimPrefix(k, "import:")]; a != "" {
				nm = id(a)
			}
		} else if k != "zzsim" {
			nm = id(k)
		}
		imp.Specs = append(imp.Specs, &ast.ImportSpec{Name: nm, Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(path)}})
	}
	if len(imp.Specs) > 0 {
		decls = append([]ast.Decl{imp}, decls...)
	}
	f.Decls = decls
	f.Imports = nil
	var b bytes.Buffer
	// fresh positions: print with a file set that knows nothing, so that the
	// printer lays the code out by itself
	strip(f)
	if err := format.Node(&b, token.NewFileSet(), f); err != nil {
		fatal("print %s: %v", r.file, err)
	}
	return b.Bytes()
}

func fn(name string, body []ast.Stmt) *ast.FuncDecl {
	return &ast.FuncDecl{Name: id(name), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}}
}

func (r *rw) funcType(t *ast.FuncType) {
	if t == nil {
		return
	}
	r.fieldList(t.TypeParams)
	r.fieldList(t.Params)
	r.fieldList(t.Results)
}

func (r *rw) fieldList(l *ast.FieldList) {
	if l == nil {
		return
	}
	for _, f := range l.List {
		f.Doc, f.Comment = nil, nil
		f.Type = r.expr(f.Type)
	}
}

func (r *rw) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = r.expr(l[i])
	}
}

func (r *rw) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}
	if i, ok := e.(*ast.Ident); ok {
		if o := r.info.ObjectOf(i); o != nil {
			return o.Type()
		}
	}
	return nil
}

func core(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if tp, ok := t.(*types.TypeParam); ok {
		// single-type core only
		if u, ok := tp.Constraint().Underlying().(*types.Interface); ok && u.NumEmbeddeds() == 1 {
			if un, ok := u.EmbeddedType(0).(*types.Union); ok && un.Len() == 1 {
				return un.Term(0).Type().Underlying()
			}
		}
		return nil
	}
	return t.Underlying()
}

func (r *rw) isMap(e ast.Expr) bool {
	_, ok := core(r.typeOf(e)).(*types.Map)
	return ok
}
func (r *rw) isChan(e ast.Expr) bool {
	_, ok := core(r.typeOf(e)).(*types.Chan)
	return ok
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rw) isBuiltin(e ast.Expr, name string) bool {
	i, ok := unparen(e).(*ast.Ident)
	if !ok || i.Name != name {
		return false
	}
	_, ok = r.info.Uses[i].(*types.Builtin)
	return ok
}

// rhs rewrites a right-hand side; two means a comma-ok form is wanted.
func (r *rw) rhs(e ast.Expr, two bool) ast.Expr {
	if two {
		if u, ok := unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			s := r.site(u)
			return call(r.zz("Recv2"), s, r.expr(u.X))
		}
	}
	return r.expr(e)
}

func (r *rw) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case nil:
		return nil
	case *ast.BadExpr, *ast.BasicLit:
		return e
	case *ast.Ident:
		return e
	case *ast.Ellipsis:
		x.Elt = r.expr(x.Elt)
	case *ast.FuncLit:
		r.funcType(x.Type)
		r.funcs = append(r.funcs, x)
		x.Body = r.block(x.Body)
		r.funcs = r.funcs[:len(r.funcs)-1]
	case *ast.CompositeLit:
		x.Type = r.expr(x.Type)
		_, isStruct := core(r.typeOf(x)).(*types.Struct)
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if !isStruct {
					kv.Key = r.expr(kv.Key)
				}
				kv.Value = r.expr(kv.Value)
			} else {
				x.Elts[i] = r.expr(el)
			}
		}
	case *ast.ParenExpr:
		x.X = r.expr(x.X)
	case *ast.SelectorExpr:
		if i, ok := x.X.(*ast.Ident); ok {
			if pn, ok := r.info.Uses[i].(*types.PkgName); ok {
				path := pn.Imported().Path()
				if shim, ok := redirect[path]; ok {
					if r.syms[shim][x.Sel.Name] {
						r.need["zz_"+shim] = "ustack/zzsim/" + shim
						x.X = id("zz_" + shim)
					} else {
						a := "zzr_" + strings.ReplaceAll(path, "/", "_")
						r.need[a] = path
						x.X = id(a)
					}
				}
				return x
			}
		}
		x.X = r.expr(x.X)
	case *ast.IndexExpr:
		if r.isMap(x.X) {
			s := r.site(x)
			x.X = call(r.zz("MR"), s, r.expr(x.X))
		} else {
			x.X = r.expr(x.X)
		}
		x.Index = r.expr(x.Index)
	case *ast.IndexListExpr:
		x.X = r.expr(x.X)
		r.exprs(x.Indices)
	case *ast.SliceExpr:
		x.X = r.expr(x.X)
		x.Low, x.High, x.Max = r.expr(x.Low), r.expr(x.High), r.expr(x.Max)
	case *ast.TypeAssertExpr:
		x.X = r.expr(x.X)
		x.Type = r.expr(x.Type)
	case *ast.CallExpr:
		if r.isBuiltin(x.Fun, "close") && len(x.Args) == 1 {
			s := r.site(x)
			return call(r.zz("Close"), s, r.expr(x.Args[0]))
		}
		if r.isBuiltin(x.Fun, "delete") && len(x.Args) == 2 {
			s := r.site(x)
			return call(sel(call(r.zz("M"), r.expr(x.Args[0])), "Delete"), s, r.expr(x.Args[1]))
		}
		x.Fun = r.expr(x.Fun)
		r.exprs(x.Args)
	case *ast.StarExpr:
		x.X = r.expr(x.X)
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			s := r.site(x)
			return call(r.zz("Recv"), s, r.expr(x.X))
		}
		x.X = r.expr(x.X)
	case *ast.BinaryExpr:
		x.X, x.Y = r.expr(x.X), r.expr(x.Y)
	case *ast.KeyValueExpr:
		x.Key, x.Value = r.expr(x.Key), r.expr(x.Value)
	case *ast.ArrayType:
		x.Len, x.Elt = r.expr(x.Len), r.expr(x.Elt)
	case *ast.StructType:
		r.fieldList(x.Fields)
	case *ast.FuncType:
		r.funcType(x)
	case *ast.InterfaceType:
		r.fieldList(x.Methods)
	case *ast.MapType:
		x.Key, x.Value = r.expr(x.Key), r.expr(x.Value)
	case *ast.ChanType:
		x.Value = r.expr(x.Value)
	default:
		fatal("%s: unknown expression %T", r.file, e)
	}
	return e
}

func (r *rw) block(b *ast.BlockStmt) *ast.BlockStmt {
	if b == nil {
		return nil
	}
	b.List = r.list(b.List)
	return b
}

// body is a block that must contain a scheduling point even when empty.
func (r *rw) body(b *ast.BlockStmt) *ast.BlockStmt {
	y := r.y(b)
	b = r.block(b)
	if len(b.List) == 0 {
		b.List = []ast.Stmt{y}
	}
	return b
}

func (r *rw) list(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		switch x := s.(type) {
		case *ast.EmptyStmt:
			continue
		case *ast.DeclStmt:
			if g, ok := x.Decl.(*ast.GenDecl); ok && g.Tok != token.VAR {
				r.stmt(s, nil)
				out = append(out, s)
				continue
			}
		}
		out = append(out, r.y(s))
		out = append(out, r.stmt(s, nil)...)
	}
	return out
}

// simple rewrites a simple statement in init/post position.
func (r *rw) simple(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.ExprStmt:
		x.X = r.expr(x.X)
	case *ast.SendStmt:
		st := r.site(x)
		return es(call(sel(call(r.zz("To"), r.expr(x.Chan)), "Send"), st, r.expr(x.Value)))
	case *ast.IncDecStmt:
		x.X = r.expr(x.X)
	case *ast.AssignStmt:
		two := len(x.Lhs) == 2 && len(x.Rhs) == 1
		for i := range x.Rhs {
			x.Rhs[i] = r.rhs(x.Rhs[i], two)
		}
		for i := range x.Lhs {
			x.Lhs[i] = r.lhs(x.Lhs[i])
		}
	default:
		fatal("%s: unexpected simple statement %T", r.file, s)
	}
	return s
}

// lhs rewrites an assignment target in place.
func (r *rw) lhs(e ast.Expr) ast.Expr {
	if ix, ok := unparen(e).(*ast.IndexExpr); ok && r.isMap(ix.X) {
		s := r.site(ix)
		ix.X = call(r.zz("MW"), s, r.expr(ix.X))
		ix.Index = r.expr(ix.Index)
		return e
	}
	return r.expr(e)
}

// shared reports whether e names memory other goroutines may reach.
func (r *rw) shared(e ast.Expr) bool {
	switch x := unparen(e).(type) {
	case *ast.SelectorExpr:
		if s := r.info.Selections[x]; s != nil {
			return s.Kind() == types.FieldVal
		}
		return false
	case *ast.StarExpr:
		return true
	case *ast.Ident:
		v, ok := r.info.Uses[x].(*types.Var)
		if !ok || v.Pkg() != r.pkg {
			return false
		}
		if v.Parent() == r.pkg.Scope() {
			return true
		}
		if len(r.funcs) == 0 {
			return false
		}
		in := r.funcs[len(r.funcs)-1]
		return v.Pos() < in.Pos() || v.Pos() > in.End()
	}
	return false
}

func addrOf(e ast.Expr) ast.Expr { return &ast.UnaryExpr{Op: token.AND, X: e} }

var opOf = map[token.Token]token.Token{
	token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
	token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND,
	token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL,
	token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT,
}

// rmw builds { p := &x; v := *p; Y; *p = v op e }.
func (r *rw) rmw(n ast.Node, target ast.Expr, op token.Token, e ast.Expr) []ast.Stmt {
	p, v := r.name("p"), r.name("v")
	return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{
		define([]ast.Expr{id(p)}, addrOf(target)),
		define([]ast.Expr{id(v)}, &ast.StarExpr{X: id(p)}),
		r.y(n),
		&ast.AssignStmt{Lhs: []ast.Expr{&ast.StarExpr{X: id(p)}}, Tok: token.ASSIGN,
			Rhs: []ast.Expr{&ast.BinaryExpr{X: id(v), Op: op, Y: &ast.ParenExpr{X: e}}}},
	}}}
}

func (r *rw) assign(x *ast.AssignStmt) []ast.Stmt {
	if len(x.Lhs) == 1 && len(x.Rhs) == 1 && x.Tok != token.DEFINE {
		l := unparen(x.Lhs[0])
		if ix, ok := l.(*ast.IndexExpr); ok && r.isMap(ix.X) {
			s := r.site(x)
			if x.Tok == token.ASSIGN {
				m := r.expr(ix.X)
				k := r.expr(ix.Index)
				return []ast.Stmt{es(call(sel(call(r.zz("M"), m), "Set"), s, k, r.expr(x.Rhs[0])))}
			}
			m, k, v := r.name("m"), r.name("k"), r.name("v")
			s2 := r.site(x)
			mx := r.expr(ix.X)
			kx := r.expr(ix.Index)
			set := call(sel(call(r.zz("M"), id(m)), "Set"), s, id(k),
				&ast.BinaryExpr{X: id(v), Op: opOf[x.Tok], Y: &ast.ParenExpr{X: r.expr(x.Rhs[0])}})
			return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{
				define([]ast.Expr{id(m)}, mx),
				define([]ast.Expr{id(k)}, call(sel(call(r.zz("M"), id(m)), "Key"), kx)),
				define([]ast.Expr{id(v)}, &ast.IndexExpr{X: call(r.zz("MR"), s2, id(m)), Index: id(k)}),
				r.y(x),
				es(set),
			}}}
		}
		if r.shared(l) {
			if x.Tok == token.ASSIGN {
				s := r.site(x)
				t := r.expr(x.Lhs[0])
				return []ast.Stmt{es(call(sel(call(r.zz("P"), addrOf(t)), "Set"), s, r.expr(x.Rhs[0])))}
			}
			return r.rmw(x, r.expr(x.Lhs[0]), opOf[x.Tok], r.expr(x.Rhs[0]))
		}
	}
	r.simple(x)
	return []ast.Stmt{x}
}

func lab(label *ast.Ident, s ast.Stmt) ast.Stmt {
	if label == nil {
		return s
	}
	return &ast.LabeledStmt{Label: label, Stmt: s}
}

// stmt rewrites one statement; label is the label attached to it, if any.
func (r *rw) stmt(s ast.Stmt, label *ast.Ident) []ast.Stmt {
	one := func(s ast.Stmt) []ast.Stmt { return []ast.Stmt{lab(label, s)} }
	switch x := s.(type) {
	case *ast.BadStmt, *ast.EmptyStmt:
		return one(s)
	case *ast.BranchStmt:
		return one(s)
	case *ast.DeclStmt:
		g := x.Decl.(*ast.GenDecl)
		g.Doc = nil
		for _, sp := range g.Specs {
			switch y := sp.(type) {
			case *ast.ValueSpec:
				y.Doc, y.Comment = nil, nil
				y.Type = r.expr(y.Type)
				two := len(y.Names) == 2 && len(y.Values) == 1
				for i := range y.Values {
					y.Values[i] = r.rhs(y.Values[i], two)
				}
			case *ast.TypeSpec:
				y.Doc, y.Comment = nil, nil
				r.fieldList(y.TypeParams)
				y.Type = r.expr(y.Type)
			}
		}
		return one(s)
	case *ast.LabeledStmt:
		return r.stmt(x.Stmt, x.Label)
	case *ast.ExprStmt, *ast.SendStmt:
		return one(r.simple(s))
	case *ast.IncDecStmt:
		l := unparen(x.X)
		if ix, ok := l.(*ast.IndexExpr); ok && r.isMap(ix.X) {
			op := token.ADD_ASSIGN
			if x.Tok == token.DEC {
				op = token.SUB_ASSIGN
			}
			return r.assign(&ast.AssignStmt{Lhs: []ast.Expr{x.X}, Tok: op, TokPos: x.Pos(), Rhs: []ast.Expr{intLit(1)}})
		}
		if r.shared(l) {
			op := token.ADD
			if x.Tok == token.DEC {
				op = token.SUB
			}
			return r.rmw(x, r.expr(x.X), op, intLit(1))
		}
		return one(r.simple(s))
	case *ast.AssignStmt:
		a := r.assign(x)
		a[0] = lab(label, a[0])
		return a
	case *ast.GoStmt:
		return one(r.goStmt(x))
	case *ast.DeferStmt:
		c := r.expr(x.Call)
		x.Call = c.(*ast.CallExpr)
		return one(x)
	case *ast.ReturnStmt:
		r.exprs(x.Results)
		return one(x)
	case *ast.BlockStmt:
		return one(r.block(x))
	case *ast.IfStmt:
		x.Init = r.simple(x.Init)
		x.Cond = r.expr(x.Cond)
		x.Body = r.body(x.Body)
		if x.Else != nil {
			e := r.stmt(x.Else, nil)
			if len(e) == 1 {
				x.Else = e[0]
			} else {
				x.Else = &ast.BlockStmt{List: e}
			}
		}
		return one(x)
	case *ast.SwitchStmt:
		x.Init = r.simple(x.Init)
		x.Tag = r.expr(x.Tag)
		r.clauses(x.Body)
		return one(x)
	case *ast.TypeSwitchStmt:
		x.Init = r.simple(x.Init)
		switch a := x.Assign.(type) {
		case *ast.ExprStmt:
			a.X = r.expr(a.X)
		case *ast.AssignStmt:
			r.exprs(a.Rhs)
		}
		r.clauses(x.Body)
		return one(x)
	case *ast.SelectStmt:
		return r.selectStmt(x, label)
	case *ast.ForStmt:
		x.Init = r.simple(x.Init)
		x.Cond = r.expr(x.Cond)
		x.Post = r.simple(x.Post)
		x.Body = r.body(x.Body)
		return one(x)
	case *ast.RangeStmt:
		return r.rangeStmt(x, label)
	}
	fatal("%s: unknown statement %T", r.file, s)
	return nil
}

func (r *rw) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		cc := c.(*ast.CaseClause)
		r.exprs(cc.List)
		y := r.y(cc)
		cc.Body = r.list(cc.Body)
		if len(cc.Body) == 0 {
			cc.Body = []ast.Stmt{y}
		}
	}
}

func (r *rw) goStmt(x *ast.GoStmt) ast.Stmt {
	c := x.Call
	st := r.site(x)
	nm := r.fname
	var pre []ast.Stmt
	switch f := unparen(c.Fun).(type) {
	case *ast.FuncLit:
		nm += ".func"
	case *ast.Ident:
		nm += ">" + f.Name
	case *ast.SelectorExpr:
		nm += ">" + f.Sel.Name
	}
	name := &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(nm)}
	if fl, ok := unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 && (fl.Type.Results == nil || fl.Type.Results.NumFields() == 0) {
		return es(call(r.zz("Go"), st, name, r.expr(fl)))
	}
	builtin := false
	if i, ok := unparen(c.Fun).(*ast.Ident); ok {
		_, builtin = r.info.Uses[i].(*types.Builtin)
	}
	// which arguments can be evaluated now
	tuple := false
	if len(c.Args) == 1 {
		_, tuple = r.typeOf(c.Args[0]).(*types.Tuple)
	}
	args := append([]ast.Expr(nil), c.Args...)
	for i, a := range args {
		tv := r.info.Types[a]
		if tuple || tv.Value != nil || tv.IsNil() || tv.IsType() {
			continue
		}
		if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			continue
		}
		if _, ok := unparen(a).(*ast.FuncLit); ok {
			continue
		}
		n := r.name("a")
		pre = append(pre, define([]ast.Expr{id(n)}, r.expr(a)))
		args[i] = id(n)
		c.Args[i] = id(n)
	}
	var run ast.Expr
	if builtin {
		// close/delete/print...: arguments are now plain names with no type
		// information, so build the replacement by hand
		switch unparen(c.Fun).(*ast.Ident).Name {
		case "close":
			run = call(r.zz("Close"), st, args[0])
		case "delete":
			run = call(sel(call(r.zz("M"), args[0]), "Delete"), st, args[1])
		default:
			run = &ast.CallExpr{Fun: c.Fun, Args: args, Ellipsis: c.Ellipsis}
		}
	} else {
		hoist := true
		switch f := unparen(c.Fun).(type) {
		case *ast.Ident:
			if _, ok := r.info.Uses[f].(*types.Func); ok {
				hoist = false
			}
		case *ast.SelectorExpr:
			if i, ok := f.X.(*ast.Ident); ok {
				if _, ok := r.info.Uses[i].(*types.PkgName); ok {
					hoist = false
				}
			}
		case *ast.IndexExpr, *ast.IndexListExpr:
			hoist = false
		}
		f := r.expr(c.Fun)
		if hoist {
			n := r.name("f")
			pre = append(pre, define([]ast.Expr{id(n)}, f))
			f = id(n)
		}
		for i, a := range args {
			if c.Args[i] == a {
				if _, isID := a.(*ast.Ident); !isID || !strings.HasPrefix(a.(*ast.Ident).Name, "zz") {
					args[i] = r.expr(a)
				}
			}
		}
		run = &ast.CallExpr{Fun: f, Args: args, Ellipsis: c.Ellipsis}
	}
	lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{es(run)}}}
	pre = append(pre, es(call(r.zz("Go"), st, name, lit)))
	return &ast.BlockStmt{List: pre}
}

func (r *rw) selectStmt(x *ast.SelectStmt, label *ast.Ident) []ast.Stmt {
	st := r.site(x)
	if len(x.Body.List) == 0 {
		return []ast.Stmt{lab(label, es(call(r.zz("BlockForever"), st))), es(call(id("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`}))}
	}
	var pre []ast.Stmt
	var cases []ast.Expr
	var out []ast.Stmt
	has := false
	n := 0
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		nc := &ast.CaseClause{}
		y := r.y(cc)
		if cc.Comm == nil {
			has = true
			nc.Body = r.list(cc.Body)
			if len(nc.Body) == 0 {
				nc.Body = []ast.Stmt{y}
			}
			out = append(out, nc)
			continue
		}
		nc.List = []ast.Expr{intLit(n)}
		n++
		cn := r.name("c")
		var head []ast.Stmt
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			pre = append(pre, define([]ast.Expr{id(cn)}, call(sel(call(r.zz("To"), r.expr(cm.Chan)), "Case"), r.expr(cm.Value))))
		case *ast.ExprStmt:
			u := unparen(cm.X).(*ast.UnaryExpr)
			pre = append(pre, define([]ast.Expr{id(cn)}, call(r.zz("NewRecv"), r.expr(u.X))))
		case *ast.AssignStmt:
			u := unparen(cm.Rhs[0]).(*ast.UnaryExpr)
			pre = append(pre, define([]ast.Expr{id(cn)}, call(r.zz("NewRecv"), r.expr(u.X))))
			rh := []ast.Expr{sel(id(cn), "V")}
			if len(cm.Lhs) == 2 {
				rh = append(rh, sel(id(cn), "OK"))
			}
			l := append([]ast.Expr(nil), cm.Lhs...)
			tok := cm.Tok
			allBlank := true
			for i := range l {
				if i2, ok := l[i].(*ast.Ident); !ok || i2.Name != "_" {
					allBlank = false
				}
				if tok != token.DEFINE {
					l[i] = r.lhs(l[i])
				}
			}
			if allBlank {
				tok = token.ASSIGN
			}
			head = append(head, &ast.AssignStmt{Lhs: l, Tok: tok, Rhs: rh})
		default:
			fatal("%s: select clause %T", r.file, cm)
		}
		cases = append(cases, id(cn))
		nc.Body = append(head, r.list(cc.Body)...)
		if len(nc.Body) == 0 {
			nc.Body = []ast.Stmt{y}
		}
		out = append(out, nc)
	}
	if !has {
		out = append(out, &ast.CaseClause{Body: []ast.Stmt{es(call(id("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`}))}})
	}
	hd := "false"
	if has {
		hd = "true"
	}
	sw := &ast.SwitchStmt{Tag: call(r.zz("Select"), append([]ast.Expr{st, id(hd)}, cases...)...), Body: &ast.BlockStmt{List: out}}
	return []ast.Stmt{&ast.BlockStmt{List: append(pre, lab(label, sw))}}
}

func blank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	i, ok := e.(*ast.Ident)
	return ok && i.Name == "_"
}

func (r *rw) rangeStmt(x *ast.RangeStmt, label *ast.Ident) []ast.Stmt {
	switch {
	case r.isChan(x.X):
		st, st2 := r.site(x), r.site(x)
		c, ok, v := r.name("c"), r.name("ok"), r.name("v")
		ch := r.expr(x.X)
		pre := []ast.Stmt{define([]ast.Expr{id(c)}, ch)}
		tok := x.Tok
		key := x.Key
		body := r.body(x.Body)
		var head []ast.Stmt
		val := id("_")
		if !blank(key) {
			if tok == token.DEFINE {
				val = id(key.(*ast.Ident).Name)
			} else {
				val = id(v)
				head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{r.lhs(key)}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(v)}})
			}
		}
		body.List = append(head, body.List...)
		f := &ast.ForStmt{
			Init: define([]ast.Expr{val, id(ok)}, call(r.zz("Recv2"), st, id(c))),
			Cond: id(ok),
			Post: &ast.AssignStmt{Lhs: []ast.Expr{id(val.Name), id(ok)}, Tok: token.ASSIGN, Rhs: []ast.Expr{call(r.zz("Recv2"), st2, id(c))}},
			Body: body,
		}
		return []ast.Stmt{&ast.BlockStmt{List: append(pre, lab(label, f))}}
	case r.isMap(x.X):
		st, st2 := r.site(x), r.site(x)
		m, k, ok := r.name("m"), r.name("k"), r.name("ok")
		pre := []ast.Stmt{define([]ast.Expr{id(m)}, r.expr(x.X))}
		body := r.body(x.Body)
		var head []ast.Stmt
		skip := &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}}
		get := &ast.IndexExpr{X: call(r.zz("MR"), st2, id(m)), Index: id(k)}
		if x.Tok == token.DEFINE && !r.perIter && (!blank(x.Key) || !blank(x.Value)) {
			kn, vn := id("_"), id("_")
			if !blank(x.Key) {
				kn = id(x.Key.(*ast.Ident).Name)
			}
			if !blank(x.Value) {
				vn = id(x.Value.(*ast.Ident).Name)
			}
			pre = append(pre, define([]ast.Expr{kn, vn}, call(r.zz("MapZero"), id(m))))
			tv := r.name("v")
			head = append(head, define([]ast.Expr{id(tv), id(ok)}, get), skip)
			if vn.Name != "_" {
				head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{id(vn.Name)}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(tv)}})
			} else {
				head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(tv)}})
			}
			if kn.Name != "_" {
				head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{id(kn.Name)}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(k)}})
			}
		} else {
			tv := r.name("v")
			head = append(head, define([]ast.Expr{id(tv), id(ok)}, get), skip,
				&ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(tv)}})
			if !blank(x.Key) {
				l := x.Key
				if x.Tok != token.DEFINE {
					l = r.lhs(l)
				}
				head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: x.Tok, Rhs: []ast.Expr{id(k)}})
			}
			if !blank(x.Value) {
				l := x.Value
				if x.Tok != token.DEFINE {
					l = r.lhs(l)
				}
				head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: x.Tok, Rhs: []ast.Expr{id(tv)}})
			}
		}
		body.List = append(head, body.List...)
		f := &ast.RangeStmt{Key: id("_"), Value: id(k), Tok: token.DEFINE, X: call(r.zz("MapKeys"), st, id(m)), Body: body}
		return []ast.Stmt{&ast.BlockStmt{List: append(pre, lab(label, f))}}
	}
	x.X = r.expr(x.X)
	if x.Tok == token.ASSIGN {
		if x.Key != nil {
			x.Key = r.lhs(x.Key)
		}
		if x.Value != nil {
			x.Value = r.lhs(x.Value)
		}
	}
	x.Body = r.body(x.Body)
	return []ast.Stmt{lab(label, x)}
}
