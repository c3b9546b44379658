// instrument rewrites every non-test Go file of the packages under test so that concurrency, time and
// randomness go through verif/rt, and writes an overlay file for go build.
//
//	instrument -out DIR -overlay FILE
//
// It is run in the module that builds the harnesses; the sources are read from /repo's working tree.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
)

const modPath = "github.com/flachnetz/dd-zipkin-proxy"

var importMap = map[string]string{
	"time":         "verif/shim/vtime",
	"sync":         "verif/shim/vsync",
	"sync/atomic":  "verif/shim/vatomic",
	"context":      "verif/shim/vcontext",
	"math/rand":    "verif/shim/vrand",
	"math/rand/v2": "verif/shim/vrand2",
	"runtime":      "verif/shim/vruntime",
}

var importName = map[string]string{
	"time": "time", "sync": "sync", "sync/atomic": "atomic", "context": "context", "math/rand": "rand", "math/rand/v2": "rand", "runtime": "runtime",
}

type listPkg struct {
	ImportPath string
	Name       string
	Dir        string
	Export     string
	GoFiles    []string
	Imports    []string
	DepOnly    bool
	Standard   bool
	Module     *struct{ Path, Dir string }
	Error      *struct{ Err string }
}

func die(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "instrument: "+format+"\n", a...)
	os.Exit(2)
}

func main() {
	out := flag.String("out", "", "directory for rewritten files")
	overlay := flag.String("overlay", "", "overlay file to write")
	hooks := flag.String("hooks", "", "file with third-party hook descriptions")
	modfile := flag.String("modfile", "", "go.mod to write")
	flag.Parse()

	args := []string{"list", "-deps", "-export", "-json=ImportPath,Name,Dir,Export,GoFiles,Imports,DepOnly,Standard,Module,Error", modPath + "/..."}
	cmd := exec.Command("go", args...)
	cmd.Stderr = os.Stderr
	data, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	pkgs := map[string]*listPkg{}
	var order []*listPkg
	dec := json.NewDecoder(bytes.NewReader(data))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("%v", err)
		}
		pkgs[p.ImportPath] = &p
		order = append(order, &p)
	}
	replace := map[string]string{}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		p := pkgs[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	})
	n := 0
	for _, p := range order {
		if p.Module == nil || p.Module.Path != modPath {
			continue
		}
		if p.Name == "main" {
			continue
		}
		in := &inst{fset: fset, pkg: p, imp: imp, out: *out, replace: replace, seq: n * 1000}
		in.run()
		n++
	}
	if *hooks != "" {
		applyHooks(*hooks, pkgs, *out, *modfile)
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(*overlay, b, 0o644); err != nil {
		die("%v", err)
	}
}

// applyHooks inserts hook calls into third-party functions. HOOKS.json: list of {Pkg, Func, Recv, Decl, Body}.
// The go command refuses overlays below the module cache, so the modules are copied to out and replaced.
func applyHooks(file string, pkgs map[string]*listPkg, out string, modfile string) {
	var hs []struct{ Pkg, Func, Recv, Decl, Body string }
	b, err := os.ReadFile(file)
	if err != nil {
		die("%v", err)
	}
	if err := json.Unmarshal(b, &hs); err != nil {
		die("%s: %v", file, err)
	}
	copies := map[string]string{} // module path -> dir of the copy
	for _, h := range hs {
		p := pkgs[h.Pkg]
		if p == nil || p.Module == nil {
			continue // not used by this tree
		}
		dir, ok := copies[p.Module.Path]
		if !ok {
			dir = filepath.Join(out, "mods", fmt.Sprint(len(copies)))
			copies[p.Module.Path] = dir
			copyModule(p.Module.Dir, dir, p.Module.Path)
		}
		rel, err := filepath.Rel(p.Module.Dir, p.Dir)
		if err != nil {
			die("%v", err)
		}
		done := false
		for _, f := range p.GoFiles {
			path := filepath.Join(dir, rel, f)
			text, err := os.ReadFile(path)
			if err != nil {
				die("%v", err)
			}
			fset := token.NewFileSet()
			af, err := parser.ParseFile(fset, path, text, parser.ParseComments)
			if err != nil {
				die("%v", err)
			}
			for _, d := range af.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Name.Name != h.Func || fd.Body == nil {
					continue
				}
				recv := ""
				if fd.Recv != nil && len(fd.Recv.List) == 1 {
					t := fd.Recv.List[0].Type
					if s, ok := t.(*ast.StarExpr); ok {
						t = s.X
					}
					if id, ok := t.(*ast.Ident); ok {
						recv = id.Name
					}
				}
				if recv != h.Recv {
					continue
				}
				off := fset.Position(fd.Body.Lbrace).Offset + 1
				nt := string(text[:off]) + "\n" + h.Body + "\n" + string(text[off:]) + "\n" + h.Decl + "\n"
				if err := os.WriteFile(path, []byte(nt), 0o644); err != nil {
					die("%v", err)
				}
				done = true
				break
			}
			if done {
				break
			}
		}
		if !done {
			die("hook target %s.%s not found", h.Pkg, h.Func)
		}
	}
	text, err := os.ReadFile("go.mod")
	if err != nil {
		die("%v", err)
	}
	for m, dir := range copies {
		text = append(text, fmt.Sprintf("\nreplace %s => %s\n", m, dir)...)
	}
	if err := os.WriteFile(modfile, text, 0o644); err != nil {
		die("%v", err)
	}
	sum, _ := os.ReadFile("go.sum")
	if err := os.WriteFile(strings.TrimSuffix(modfile, ".mod")+".sum", sum, 0o644); err != nil {
		die("%v", err)
	}
}

func copyModule(from, to, path string) {
	err := filepath.Walk(from, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		if info.IsDir() {
			if info.Name() == "testdata" || info.Name() == "vendor" || info.Name() == ".git" {
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(to, rel), 0o755)
		}
		if !strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, ".s") && info.Name() != "go.mod" || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(to, rel), b, 0o644)
	})
	if err != nil {
		die("%v", err)
	}
	if _, err := os.Stat(filepath.Join(to, "go.mod")); err != nil {
		if err := os.WriteFile(filepath.Join(to, "go.mod"), []byte("module "+path+"\n"), 0o644); err != nil {
			die("%v", err)
		}
	}
}

type inst struct {
	fset    *token.FileSet
	pkg     *listPkg
	imp     types.Importer
	out     string
	replace map[string]string
	info    *types.Info
	tpkg    *types.Package
	seq     int
	uses    bool                // current file uses rt
	gotos   map[*ast.Ident]bool // labels in goto statements
}

func (in *inst) fresh(p string) string {
	in.seq++
	return fmt.Sprintf("_v%s%d", p, in.seq)
}

func (in *inst) run() {
	var files []*ast.File
	var names []string
	var texts [][]byte
	for _, f := range in.pkg.GoFiles {
		path := filepath.Join(in.pkg.Dir, f)
		text, err := os.ReadFile(path)
		if err != nil {
			die("%v", err)
		}
		af, err := parser.ParseFile(in.fset, path, text, parser.ParseComments)
		if err != nil {
			die("%v", err)
		}
		files = append(files, af)
		names = append(names, path)
		texts = append(texts, text)
	}
	in.info = &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
	}
	in.gotos = map[*ast.Ident]bool{}
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			if b, ok := n.(*ast.BranchStmt); ok && b.Tok == token.GOTO && b.Label != nil {
				in.gotos[b.Label] = true
			}
			return true
		})
	}
	conf := types.Config{Importer: in.imp, Error: func(err error) {}}
	tp, err := conf.Check(in.pkg.ImportPath, in.fset, files, in.info)
	if err != nil {
		// let the compiler report it; still instrument what is known
		fmt.Fprintf(os.Stderr, "instrument: type check %s: %v\n", in.pkg.ImportPath, err)
	}
	in.tpkg = tp

	// package variable (re-)initialisation
	owner := map[types.Object]int{}
	for i, f := range files {
		for _, d := range f.Decls {
			if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.VAR {
				for _, s := range gd.Specs {
					for _, id := range s.(*ast.ValueSpec).Names {
						if o := in.info.Defs[id]; o != nil {
							owner[o] = i
						}
					}
				}
			}
		}
	}
	var resetCalls []string
	extra := make([]string, len(files)) // extra source text per file: initialisers, printed after rewriting
	type initFn struct {
		file int
		name string
		lhs  []string
		rhs  ast.Expr
	}
	var inits []initFn
	for k, io := range in.info.InitOrder {
		fi := -1
		var lhs []string
		for _, v := range io.Lhs {
			if o, ok := owner[v]; ok {
				fi = o
			}
			lhs = append(lhs, v.Name())
		}
		if fi < 0 {
			continue
		}
		all := true
		for _, l := range lhs {
			if l != "_" {
				all = false
			}
		}
		if all {
			continue
		}
		inits = append(inits, initFn{fi, fmt.Sprintf("_vinit%d", k), lhs, io.Rhs})
	}
	// zero valued variables
	for i, f := range files {
		var body string
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				if len(vs.Values) > 0 || vs.Type == nil {
					continue
				}
				var tb bytes.Buffer
				printer.Fprint(&tb, in.fset, vs.Type)
				for _, id := range vs.Names {
					if id.Name != "_" {
						body += fmt.Sprintf("\t%s = *new(%s)\n", id.Name, tb.String())
					}
				}
			}
		}
		if body != "" {
			fn := fmt.Sprintf("_vzero%d", i)
			extra[i] += fmt.Sprintf("\nfunc %s() {\n%s}\n", fn, body)
			resetCalls = append(resetCalls, fn)
		}
	}
	for _, x := range inits {
		resetCalls = append(resetCalls, x.name)
	}

	// the rewritten init expressions are printed after the rewrite, so remember the nodes' parents: the
	// rewrite mutates expressions in place except at their root, which is looked up again in the ValueSpec
	rootOf := map[ast.Expr]func() ast.Expr{}
	for _, f := range files {
		for _, d := range f.Decls {
			if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.VAR {
				for _, s := range gd.Specs {
					vs := s.(*ast.ValueSpec)
					for vi := range vs.Values {
						vs, vi := vs, vi
						rootOf[vs.Values[vi]] = func() ast.Expr { return vs.Values[vi] }
					}
				}
			}
		}
	}

	ninit := 0
	var initFuncs []string
	for i, f := range files {
		in.uses = false
		// comments are dropped: directives that matter are re-added below
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" {
				nm := fmt.Sprintf("_vinitfn%d", ninit)
				ninit++
				fd.Name = ast.NewIdent(nm)
				initFuncs = append(initFuncs, nm)
			}
		}
		in.rewriteNode(f)
		_ = i
	}
	for _, x := range inits {
		r := x.rhs
		if g, ok := rootOf[x.rhs]; ok {
			r = g()
		}
		var tb bytes.Buffer
		printer.Fprint(&tb, in.fset, r)
		extra[x.file] += fmt.Sprintf("\nfunc %s() {\n\t%s = %s\n}\n", x.name, strings.Join(x.lhs, ", "), tb.String())
	}
	for i, f := range files {
		tail := extra[i]
		if i == 0 {
			tail += "\nfunc _vReset() {\n"
			for _, c := range resetCalls {
				tail += "\t" + c + "()\n"
			}
			for _, c := range initFuncs {
				tail += "\t" + c + "()\n"
			}
			tail += "}\n\nfunc init() {\n"
			for _, c := range initFuncs {
				tail += "\t" + c + "()\n"
			}
			tail += fmt.Sprintf("\t_vrt.RegisterReset(%q, _vReset)\n}\n", in.pkg.ImportPath)
		}
		in.emit(f, names[i], texts[i], tail, i == 0)
	}
}

func (in *inst) emit(f *ast.File, path string, text []byte, tail string, needRT bool) {
	// directives
	var head bytes.Buffer
	hasGo := false
	var linknames string
	for _, cg := range f.Comments {
		for _, c := range cg.List {
			if constraint.IsGoBuild(c.Text) && c.Pos() < f.Package {
				ex, err := constraint.Parse(c.Text)
				if err == nil {
					fmt.Fprintf(&head, "//go:build (%s) && go1.18\n\n", ex.String())
					hasGo = true
				}
			}
			if strings.HasPrefix(c.Text, "//go:linkname ") {
				linknames += "\n" + c.Text + "\n"
			}
		}
	}
	if !hasGo {
		head.WriteString("//go:build go1.18\n\n")
	}
	// imports
	for _, s := range f.Imports {
		p, _ := strconv.Unquote(s.Path.Value)
		if r, ok := importMap[p]; ok {
			s.Path = &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(r)}
			if s.Name == nil {
				s.Name = ast.NewIdent(importName[p])
			}
		}
	}
	f.Comments = nil
	f.Doc = nil
	stripDocs(f)
	// add the rt import
	spec := &ast.ImportSpec{Name: ast.NewIdent("_vrt"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"verif/rt"`}}
	f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
	var body bytes.Buffer
	// a fresh file set: positions of mutated nodes are meaningless
	if err := printer.Fprint(&body, token.NewFileSet(), f); err != nil {
		die("print %s: %v", path, err)
	}
	body.WriteString("\nvar _ = _vrt.Active\n")
	body.WriteString(linknames)
	body.WriteString(tail)
	dst := filepath.Join(in.out, strings.NewReplacer("/", "_").Replace(strings.TrimPrefix(path, "/")))
	if err := os.WriteFile(dst, append(head.Bytes(), body.Bytes()...), 0o644); err != nil {
		die("%v", err)
	}
	in.replace[path] = dst
	_ = text
	_ = needRT
}

// stripDocs removes comment groups attached to nodes.
func stripDocs(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			n.Doc = nil
		case *ast.GenDecl:
			n.Doc = nil
		case *ast.ValueSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.TypeSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.ImportSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.Field:
			n.Doc, n.Comment = nil, nil
		}
		return true
	})
}

// ---------------------------------------------------------------- rewriting

func (in *inst) typeOf(e ast.Expr) types.Type {
	if tv, ok := in.info.Types[e]; ok && tv.Type != nil {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := in.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := in.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func (in *inst) isChan(e ast.Expr) bool { _, ok := under(in.typeOf(e)).(*types.Chan); return ok }
func (in *inst) isMap(e ast.Expr) bool  { _, ok := under(in.typeOf(e)).(*types.Map); return ok }

func (in *inst) isBuiltin(e ast.Expr, name string) bool {
	id, ok := unparen(e).(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = in.info.Uses[id].(*types.Builtin)
	return ok
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func rtSel(name string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent("_vrt"), Sel: ast.NewIdent(name)}
}

func rtCall(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: rtSel(name), Args: args}
}

var exprT = reflect.TypeOf((*ast.Expr)(nil)).Elem()
var stmtT = reflect.TypeOf((*ast.Stmt)(nil)).Elem()
var nodeT = reflect.TypeOf((*ast.Node)(nil)).Elem()

// rewriteNode rewrites all children of n in place.
func (in *inst) rewriteNode(n ast.Node) {
	if n == nil || reflect.ValueOf(n).IsNil() {
		return
	}
	// statements with special comma-ok forms are handled before their children
	switch s := n.(type) {
	case *ast.AssignStmt:
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if u, ok := unparen(s.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				in.rewriteNode(u)
				s.Rhs[0] = rtCall("Recv2", u.X)
				for i := range s.Lhs {
					s.Lhs[i] = in.expr(s.Lhs[i])
				}
				return
			}
		}
	case *ast.ValueSpec:
		if len(s.Names) == 2 && len(s.Values) == 1 {
			if u, ok := unparen(s.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				in.rewriteNode(u)
				s.Values[0] = rtCall("Recv2", u.X)
				return
			}
		}
	}
	v := reflect.ValueOf(n).Elem()
	if v.Kind() != reflect.Struct {
		return
	}
	for i := 0; i < v.NumField(); i++ {
		fn := v.Type().Field(i).Name
		if fn == "Obj" || fn == "Scope" || fn == "Unresolved" || fn == "Imports" || fn == "Comments" || fn == "Doc" || fn == "Comment" {
			continue
		}
		in.rewriteValue(v.Field(i))
	}
}

func (in *inst) rewriteValue(f reflect.Value) {
	switch {
	case f.Type() == exprT:
		if !f.IsNil() {
			f.Set(reflect.ValueOf(in.expr(f.Interface().(ast.Expr))))
		}
	case f.Type() == stmtT:
		if !f.IsNil() {
			f.Set(reflect.ValueOf(in.stmt(f.Interface().(ast.Stmt))))
		}
	case f.Kind() == reflect.Slice:
		for i := 0; i < f.Len(); i++ {
			in.rewriteValue(f.Index(i))
		}
	case f.Kind() == reflect.Ptr || f.Kind() == reflect.Interface:
		if f.IsNil() || !f.Type().Implements(nodeT) {
			return
		}
		if c, ok := f.Interface().(*ast.CallExpr); ok {
			in.expr(c) // calls of go and defer statements
		} else {
			in.rewriteNode(f.Interface().(ast.Node))
		}
	}
}

func (in *inst) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			in.rewriteNode(x)
			return rtCall("Recv", x.X)
		}
	case *ast.CallExpr:
		if len(x.Args) == 1 {
			switch {
			case in.isBuiltin(x.Fun, "close"):
				in.rewriteNode(x)
				x.Fun = rtSel("Close")
				return x
			case in.isBuiltin(x.Fun, "len") && in.isChan(x.Args[0]):
				in.rewriteNode(x)
				x.Fun = rtSel("Len")
				return x
			}
		}
	}
	in.rewriteNode(e)
	return e
}

func (in *inst) stmt(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case *ast.SendStmt:
		in.rewriteNode(x)
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: rtCall("SendTo", x.Chan), Args: []ast.Expr{x.Value}}}
	case *ast.GoStmt:
		return in.goStmt(x)
	case *ast.RangeStmt:
		if in.isChan(x.X) {
			return in.rangeChan(x)
		}
		if in.isMap(x.X) {
			return in.rangeMap(x)
		}
	case *ast.SelectStmt:
		return in.selectStmt(x, nil)
	case *ast.LabeledStmt:
		if sel, ok := x.Stmt.(*ast.SelectStmt); ok {
			return in.selectStmt(sel, x.Label)
		}
	}
	in.rewriteNode(s)
	return s
}

func define(name string, v ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(name)}, Tok: token.DEFINE, Rhs: []ast.Expr{v}}
}

func (in *inst) goStmt(g *ast.GoStmt) ast.Stmt {
	call := g.Call
	// constness must be decided before the rewrite (type info is keyed by the original nodes)
	inline := make([]bool, len(call.Args))
	for i, a := range call.Args {
		tv := in.info.Types[a]
		inline[i] = tv.Value != nil || tv.IsNil()
		if _, ok := unparen(a).(*ast.FuncLit); ok {
			inline[i] = false
		}
		if _, ok := tv.Type.(*types.Tuple); ok {
			inline[i] = true
		}
	}
	fun := unparen(call.Fun)
	inlineFun := false
	if tv, ok := in.info.Types[call.Fun]; ok && (tv.IsType() || tv.IsBuiltin()) {
		inlineFun = true
	}
	switch f := fun.(type) {
	case *ast.FuncLit:
		inlineFun = true
	case *ast.Ident:
		switch in.info.Uses[f].(type) {
		case *types.Func, *types.Builtin, *types.TypeName:
			inlineFun = true
		}
	case *ast.SelectorExpr:
		if id, ok := f.X.(*ast.Ident); ok {
			if _, ok := in.info.Uses[id].(*types.PkgName); ok {
				if _, ok := in.info.Uses[f.Sel].(*types.Func); ok {
					inlineFun = true
				}
			}
		}
	}
	in.expr(call)
	// builtins may have been replaced (close)
	var pre []ast.Stmt
	if !inlineFun {
		n := in.fresh("f")
		pre = append(pre, define(n, call.Fun))
		call.Fun = ast.NewIdent(n)
	}
	for i := range call.Args {
		if !inline[i] {
			n := in.fresh("a")
			pre = append(pre, define(n, call.Args[i]))
			call.Args[i] = ast.NewIdent(n)
		}
	}
	var lit ast.Expr
	if fl, ok := fun.(*ast.FuncLit); ok && len(call.Args) == 0 && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
		lit = fl
	} else {
		lit = &ast.FuncLit{
			Type: &ast.FuncType{Params: &ast.FieldList{}},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}},
		}
	}
	pre = append(pre, &ast.ExprStmt{X: rtCall("Go", lit)})
	if len(pre) == 1 {
		return pre[0]
	}
	return &ast.BlockStmt{List: pre}
}

func isBlank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func orBlank(e ast.Expr) ast.Expr {
	if e == nil {
		return ast.NewIdent("_")
	}
	return e
}

// for v := range ch  =>  for _c, v, _ok := rt.RangeStart(ch); _ok; v, _ok = rt.Recv2(_c) { body }
func (in *inst) rangeChan(r *ast.RangeStmt) ast.Stmt {
	in.rewriteNode(r.Body)
	x := in.expr(r.X)
	c, ok := in.fresh("c"), in.fresh("ok")
	var v ast.Expr = ast.NewIdent("_")
	if r.Key != nil && r.Tok == token.DEFINE {
		v = r.Key
	}
	var pre []ast.Stmt
	if r.Key != nil && r.Tok == token.ASSIGN && !isBlank(r.Key) {
		n := in.fresh("v")
		v = ast.NewIdent(n)
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{in.expr(r.Key)}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(n)}})
	}
	return &ast.ForStmt{
		Init: &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(c), v, ast.NewIdent(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{rtCall("RangeStart", x)}},
		Cond: ast.NewIdent(ok),
		Post: &ast.AssignStmt{Lhs: []ast.Expr{v, ast.NewIdent(ok)}, Tok: token.ASSIGN, Rhs: []ast.Expr{rtCall("Recv2", ast.NewIdent(c))}},
		Body: &ast.BlockStmt{List: append(pre, r.Body.List...)},
	}
}

func (in *inst) rangeMap(r *ast.RangeStmt) ast.Stmt {
	in.rewriteNode(r.Body)
	x := in.expr(r.X)
	it := in.fresh("it")
	k, v := orBlank(r.Key), orBlank(r.Value)
	var pre []ast.Stmt
	if r.Tok == token.ASSIGN {
		kn, vn := in.fresh("k"), in.fresh("v")
		if !isBlank(r.Key) {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{in.expr(r.Key)}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(kn)}})
			k = ast.NewIdent(kn)
		} else {
			k = ast.NewIdent("_")
		}
		if !isBlank(r.Value) {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{in.expr(r.Value)}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(vn)}})
			v = ast.NewIdent(vn)
		} else {
			v = ast.NewIdent("_")
		}
	}
	next := &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(it), Sel: ast.NewIdent("Next")}}
	ok := &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(it), Sel: ast.NewIdent("Ok")}}
	return &ast.ForStmt{
		Init: &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(it), k, v}, Tok: token.DEFINE, Rhs: []ast.Expr{rtCall("MapStart", x)}},
		Cond: ok,
		Post: &ast.AssignStmt{Lhs: []ast.Expr{k, v}, Tok: token.ASSIGN, Rhs: []ast.Expr{next}},
		Body: &ast.BlockStmt{List: append(pre, r.Body.List...)},
	}
}

func (in *inst) selectStmt(s *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	var pre []ast.Stmt
	hasDef := false
	var cases []ast.Expr
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	idx := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = true
			body := in.stmts(cc.Body)
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: body})
			continue
		}
		n := in.fresh("s")
		cases = append(cases, ast.NewIdent(n))
		var head []ast.Stmt
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			in.rewriteNode(cm)
			pre = append(pre, define(n, &ast.CallExpr{Fun: rtCall("SendCase", cm.Chan), Args: []ast.Expr{cm.Value}}))
		case *ast.ExprStmt:
			u := unparen(cm.X).(*ast.UnaryExpr)
			in.rewriteNode(u)
			pre = append(pre, define(n, rtCall("RecvCase", u.X)))
		case *ast.AssignStmt:
			u := unparen(cm.Rhs[0]).(*ast.UnaryExpr)
			in.rewriteNode(u)
			pre = append(pre, define(n, rtCall("RecvCase", u.X)))
			for i := range cm.Lhs {
				cm.Lhs[i] = in.expr(cm.Lhs[i])
			}
			m := "Get"
			if len(cm.Lhs) == 2 {
				m = "Get2"
			}
			tok := cm.Tok
			allBlank := true
			for _, l := range cm.Lhs {
				if !isBlank(l) {
					allBlank = false
				}
			}
			if allBlank {
				tok = token.ASSIGN
			}
			head = append(head, &ast.AssignStmt{Lhs: cm.Lhs, Tok: tok, Rhs: []ast.Expr{
				&ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(n), Sel: ast.NewIdent(m)}}}})
		}
		body := append(head, in.stmts(cc.Body)...)
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{
			List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}, Body: body})
		idx++
	}
	def := "false"
	if hasDef {
		def = "true"
	} else {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{
			&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"rt: select"`}}}}}})
	}
	sw.Tag = rtCall("Select", append([]ast.Expr{ast.NewIdent(def)}, cases...)...)
	var last ast.Stmt = sw
	if label == nil {
		return &ast.BlockStmt{List: append(pre, last)}
	}
	// a break leaves the switch, a goto goes to before the operands are evaluated
	obj := in.info.Defs[label]
	inner := in.fresh("label")
	breaks, gotos := false, false
	for id, o := range in.info.Uses {
		if obj == nil || o != obj {
			continue
		}
		if in.gotos[id] {
			gotos = true
		} else {
			breaks = true
			id.Name = inner
		}
	}
	if breaks {
		last = &ast.LabeledStmt{Label: ast.NewIdent(inner), Stmt: sw}
	}
	var all ast.Stmt = &ast.BlockStmt{List: append(pre, last)}
	if gotos {
		all = &ast.LabeledStmt{Label: label, Stmt: all}
	}
	return all
}

func (in *inst) stmts(l []ast.Stmt) []ast.Stmt {
	r := make([]ast.Stmt, len(l))
	for i, s := range l {
		r[i] = in.stmt(s)
	}
	return r
}
