// instr copies one Go package into a scratch directory, rewriting it so that every source of
// nondeterminism and every access to shared memory goes through package vs:
//
//	sync, sync/atomic      -> vs/vsync, vs/vatomic (same API)
//	chan types and ops     -> *vs.Chan[T]
//	go statements          -> vs.Go
//	runtime.Gosched etc.   -> vs.Gosched etc.; time.Sleep -> vs.Sleep
//	plain shared accesses  -> vs.RP/vs.W notes for the race detector (no scheduling point)
//
// It works on types, not on names, except for optional constant overrides (-const name=value), which
// are ignored when the package has no such constant.
//
// usage: instr -src DIR -out DIR [-tags t1,t2] [-const a=1,b=2] [-lit 1000=3]
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
)

var (
	src    = flag.String("src", "", "package directory")
	out    = flag.String("out", "", "output directory")
	tags   = flag.String("tags", "", "build tags")
	consts = flag.String("const", "", "constant overrides")
	lits   = flag.String("lit", "", "integer literal overrides (scaled-down thresholds), e.g. 1000=3")
	nonote = flag.Bool("nonotes", false, "no race-detector notes")
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(3)
}

type pkgInfo struct {
	ImportPath string
	Name       string
	GoFiles    []string
	SFiles     []string
	Export     string
	Dir        string
}

func main() {
	flag.Parse()
	args := []string{"list", "-e", "-export", "-deps", "-json=ImportPath,Name,GoFiles,SFiles,Export,Dir"}
	if *tags != "" {
		args = append(args, "-tags", *tags)
	}
	cmd := exec.Command("go", append(args, ".")...)
	cmd.Dir = *src
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	exports := map[string]string{}
	var me pkgInfo
	dec := json.NewDecoder(bytes.NewReader(b))
	abs, _ := filepath.Abs(*src)
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("go list: %v", err)
		}
		exports[p.ImportPath] = p.Export
		if p.Dir == abs {
			me = p
		}
	}
	if me.Name == "" {
		die("package in %s not found", *src)
	}
	fset := token.NewFileSet()
	var files []*ast.File
	for _, f := range me.GoFiles {
		a, err := parser.ParseFile(fset, filepath.Join(*src, f), nil, parser.ParseComments)
		if err != nil {
			die("%v", err)
		}
		files = append(files, a)
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	lit := map[int64]string{}
	for _, kv := range strings.Split(*lits, ",") {
		if k, v, ok := strings.Cut(kv, "="); ok {
			n, _ := strconv.ParseInt(k, 0, 64)
			lit[n] = v
		}
	}
	for _, a := range files {
		ast.Inspect(a, func(n ast.Node) bool {
			if b, ok := n.(*ast.BasicLit); ok && len(lit) > 0 && (b.Kind == token.INT || b.Kind == token.FLOAT) {
				if f, err := strconv.ParseFloat(strings.ReplaceAll(b.Value, "_", ""), 64); err == nil {
					if v, ok := lit[int64(f)]; ok && float64(int64(f)) == f {
						b.Kind, b.Value = token.INT, v
					}
				}
			}
			return true
		})
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
		Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
	}
	conf := types.Config{Importer: imp, FakeImportC: true}
	pkg, err := conf.Check(me.ImportPath, fset, files, info)
	if err != nil {
		die("type check: %v", err)
	}
	over := map[string]string{}
	for _, kv := range strings.Split(*consts, ",") {
		if k, v, ok := strings.Cut(kv, "="); ok {
			over[k] = v
		}
	}
	for k := range over {
		if pkg.Scope().Lookup(k) == nil {
			if other := renamed(pkg, k, over); other != "" {
				over[other] = over[k]
			}
		}
	}
	if err := os.MkdirAll(*out, 0o755); err != nil {
		die("%v", err)
	}
	shared := reachable(pkg)
	for i, a := range files {
		rw := &rewriter{info: info, pkg: pkg, fset: fset, shared: shared, over: over, file: a}
		rw.run()
		for _, d := range a.Decls {
			stripPos(d)
		}
		var buf bytes.Buffer
		// comments are dropped except directives: positions no longer match the rewritten tree
		var linknames []string
		for _, cg := range a.Comments {
			for _, c := range cg.List {
				if strings.HasPrefix(c.Text, "//go:linkname") {
					linknames = append(linknames, c.Text)
				}
			}
		}
		a.Comments = nil
		if err := format.Node(&buf, token.NewFileSet(), a); err != nil {
			die("print %s: %v", me.GoFiles[i], err)
		}
		text := buf.String()
		for _, l := range linknames {
			text += "\n" + l + "\n"
		}
		if err := os.WriteFile(filepath.Join(*out, me.GoFiles[i]), []byte(text), 0o644); err != nil {
			die("%v", err)
		}
	}
	// body-less functions (linkname) need an assembly file to be accepted by the compiler
	os.WriteFile(filepath.Join(*out, "stub_vs.s"), []byte("\n"), 0o644)
}

// renamed finds the constant that k is called now: the only one that has its value.
func renamed(pkg *types.Package, k string, over map[string]string) (name string) {
	want := map[string][]string{"blockSizeShift": {"21", "23", "24"}, "maxBlockCount": {"65536"}, "fullAllocFrom": {"128"}, "defaultPrefetchLength": {"256"}}[k]
	for _, n := range pkg.Scope().Names() {
		c, ok := pkg.Scope().Lookup(n).(*types.Const)
		if !ok || over[n] != "" {
			continue
		}
		for _, w := range want {
			if c.Val().String() == w {
				if name != "" {
					return ""
				}
				name = n
			}
		}
	}
	return
}

// reachable returns the named struct types of pkg that are part of the object graph of type Tree
// (everything when there is no such type).
func reachable(pkg *types.Package) map[*types.Named]bool {
	m := map[*types.Named]bool{}
	var visit func(t types.Type)
	visit = func(t types.Type) {
		switch t := t.(type) {
		case *types.Named:
			if t.Obj().Pkg() != pkg || m[t] {
				return
			}
			m[t] = true
			visit(t.Underlying())
		case *types.Alias:
			visit(types.Unalias(t))
		case *types.Pointer:
			visit(t.Elem())
		case *types.Slice:
			visit(t.Elem())
		case *types.Array:
			visit(t.Elem())
		case *types.Map:
			visit(t.Elem())
		case *types.Struct:
			for i := 0; i < t.NumFields(); i++ {
				visit(t.Field(i).Type())
			}
		}
	}
	if o := pkg.Scope().Lookup("Tree"); o != nil {
		visit(o.Type())
	} else {
		for _, n := range pkg.Scope().Names() {
			if tn, ok := pkg.Scope().Lookup(n).(*types.TypeName); ok {
				visit(tn.Type())
			}
		}
	}
	return m
}

type rewriter struct {
	info   *types.Info
	pkg    *types.Package
	fset   *token.FileSet
	file   *ast.File
	shared map[*types.Named]bool
	over   map[string]string
	usedVS bool
	needRT map[string]bool // packages whose import may have become unused: alias
	tmp    int
	noRW   map[ast.Expr]bool // expressions that must stay lvalues
}

func (r *rewriter) vs(name string) ast.Expr {
	r.usedVS = true
	return &ast.SelectorExpr{X: ast.NewIdent("vs__"), Sel: ast.NewIdent(name)}
}

func (r *rewriter) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.vs(name), Args: args}
}

func (r *rewriter) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok && tv.Type != nil {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := r.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (r *rewriter) pkgSel(e ast.Expr, path string) (string, bool) {
	s, ok := e.(*ast.SelectorExpr)
	if !ok {
		return "", false
	}
	id, ok := s.X.(*ast.Ident)
	if !ok {
		return "", false
	}
	pn, ok := r.info.Uses[id].(*types.PkgName)
	if !ok || pn.Imported().Path() != path {
		return "", false
	}
	return s.Sel.Name, true
}

func (r *rewriter) run() {
	r.needRT = map[string]bool{}
	r.noRW = map[ast.Expr]bool{}
	for _, d := range r.file.Decls {
		r.decl(d)
	}
	r.imports()
}

func (r *rewriter) imports() {
	have := false
	for _, d := range r.file.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			continue
		}
		have = true
		for _, s := range g.Specs {
			is := s.(*ast.ImportSpec)
			p, _ := strconv.Unquote(is.Path.Value)
			switch p {
			case "sync":
				is.Path.Value = `"vs/vsync"`
				if is.Name == nil {
					is.Name = ast.NewIdent("sync")
				}
			case "sync/atomic":
				is.Path.Value = `"vs/vatomic"`
				if is.Name == nil {
					is.Name = ast.NewIdent("atomic")
				}
			}
		}
		if r.usedVS {
			g.Specs = append(g.Specs, &ast.ImportSpec{Name: ast.NewIdent("vs__"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"vs"`}})
			if !g.Lparen.IsValid() {
				g.Lparen = 1
			}
			r.usedVS = false
		}
	}
	if !have && r.usedVS {
		r.file.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{
			&ast.ImportSpec{Name: ast.NewIdent("vs__"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"vs"`}}}}}, r.file.Decls...)
	}
	for alias, val := range map[string]string{"runtime": "NumCPU", "time": "Now"} {
		if r.needRT[alias] {
			name := alias
			r.file.Decls = append(r.file.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{
				Names:  []*ast.Ident{ast.NewIdent("_")},
				Values: []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(name), Sel: ast.NewIdent(val)}},
			}}})
		}
	}
}

func (r *rewriter) decl(d ast.Decl) {
	switch d := d.(type) {
	case *ast.GenDecl:
		if d.Tok == token.IMPORT {
			return
		}
		if d.Tok == token.CONST {
			for _, s := range d.Specs {
				vsp := s.(*ast.ValueSpec)
				for i, n := range vsp.Names {
					if v, ok := r.over[n.Name]; ok && i < len(vsp.Values) {
						vsp.Values[i] = &ast.BasicLit{Kind: token.INT, Value: v}
					}
				}
			}
			return
		}
		for _, s := range d.Specs {
			switch s := s.(type) {
			case *ast.ValueSpec:
				if s.Type != nil {
					s.Type = r.expr(s.Type)
				}
				for i := range s.Values {
					s.Values[i] = r.expr(s.Values[i])
				}
			case *ast.TypeSpec:
				s.Type = r.expr(s.Type)
			}
		}
	case *ast.FuncDecl:
		if d.Recv != nil {
			r.fields(d.Recv)
		}
		r.expr(d.Type)
		if d.Body != nil {
			r.block(d.Body)
		}
	}
}

func (r *rewriter) fields(fl *ast.FieldList) {
	if fl == nil {
		return
	}
	for _, f := range fl.List {
		f.Type = r.expr(f.Type)
	}
}

func (r *rewriter) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = r.stmts(b.List)
	}
}

func (r *rewriter) stmts(in []ast.Stmt) (out []ast.Stmt) {
	for _, s := range in {
		out = append(out, r.stmtList(s)...)
	}
	return
}

// stmtList rewrites one statement of a statement list, possibly into several.
func (r *rewriter) stmtList(s ast.Stmt) []ast.Stmt {
	if l, ok := s.(*ast.LabeledStmt); ok {
		inner := r.stmtList(l.Stmt)
		l.Stmt = inner[0]
		return append([]ast.Stmt{l}, inner[1:]...)
	}
	notes := r.writeNotes(s)
	s = r.stmt(s)
	return append([]ast.Stmt{s}, notes...)
}

// writeNotes returns the notes for the plain shared locations that statement s assigns.
func (r *rewriter) writeNotes(s ast.Stmt) (notes []ast.Stmt) {
	if *nonote {
		return nil
	}
	var lhs []ast.Expr
	switch s := s.(type) {
	case *ast.AssignStmt:
		if s.Tok == token.DEFINE {
			return nil
		}
		lhs = s.Lhs
	case *ast.IncDecStmt:
		lhs = []ast.Expr{s.X}
	default:
		return nil
	}
	assigned := map[string]bool{}
	for _, l := range lhs {
		if id, ok := l.(*ast.Ident); ok {
			assigned[id.Name] = true
		}
	}
	for _, l := range lhs {
		if !r.isShared(l) || hasCall(l) || usesAny(l, assigned) {
			continue
		}
		notes = append(notes, &ast.ExprStmt{X: r.call("W", &ast.UnaryExpr{Op: token.AND, X: r.expr(clone(l, r), true)})})
	}
	return
}

func hasCall(e ast.Expr) (yes bool) {
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr:
			// conversions are harmless but cannot be told apart cheaply; int(x) style ones are idents
			if id, ok := n.Fun.(*ast.Ident); ok {
				switch id.Name {
				case "int", "uint64", "byte", "uint8", "uint32", "int32", "int64", "uint", "len":
					return true
				}
			}
			yes = true
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				yes = true
			}
		case *ast.FuncLit:
			yes = true
		}
		return !yes
	})
	return
}

func usesAny(e ast.Expr, names map[string]bool) (yes bool) {
	ast.Inspect(e, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && names[id.Name] {
			yes = true
		}
		return !yes
	})
	return
}

// clone copies an lvalue expression, carrying type information over.
func clone(e ast.Expr, r *rewriter) ast.Expr {
	var c ast.Expr
	switch e := e.(type) {
	case *ast.Ident:
		n := *e
		if o, ok := r.info.Uses[e]; ok {
			r.info.Uses[&n] = o
		}
		c = &n
	case *ast.SelectorExpr:
		n := &ast.SelectorExpr{X: clone(e.X, r), Sel: e.Sel}
		if s, ok := r.info.Selections[e]; ok {
			r.info.Selections[n] = s
		}
		c = n
	case *ast.IndexExpr:
		c = &ast.IndexExpr{X: clone(e.X, r), Index: clone(e.Index, r)}
	case *ast.StarExpr:
		c = &ast.StarExpr{X: clone(e.X, r)}
	case *ast.ParenExpr:
		c = &ast.ParenExpr{X: clone(e.X, r)}
	case *ast.BinaryExpr:
		c = &ast.BinaryExpr{X: clone(e.X, r), Op: e.Op, Y: clone(e.Y, r)}
	case *ast.UnaryExpr:
		c = &ast.UnaryExpr{Op: e.Op, X: clone(e.X, r)}
	case *ast.CallExpr:
		n := &ast.CallExpr{Fun: clone(e.Fun, r)}
		for _, a := range e.Args {
			n.Args = append(n.Args, clone(a, r))
		}
		c = n
	default:
		c = e
	}
	if tv, ok := r.info.Types[e]; ok {
		r.info.Types[c] = tv
	}
	return c
}

// isShared tells whether e is a plain memory location of the shared object graph whose accesses are noted.
func (r *rewriter) isShared(e ast.Expr) bool {
	t := r.typeOf(e)
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Array, *types.Struct, *types.Chan, *types.Interface, *types.Signature:
		return false
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		return r.isShared(e.X)
	case *ast.SelectorExpr:
		sel := r.info.Selections[e]
		if sel == nil || sel.Kind() != types.FieldVal || len(sel.Index()) != 1 {
			return false
		}
		p, ok := sel.Recv().Underlying().(*types.Pointer)
		if ok {
			n, ok := types.Unalias(p.Elem()).(*types.Named)
			return ok && r.shared[n]
		}
		// value struct: shared when it is itself an element of a shared slice/array
		if ix, ok := e.X.(*ast.IndexExpr); ok {
			n, ok := types.Unalias(sel.Recv()).(*types.Named)
			return ok && r.shared[n] && r.indexable(ix)
		}
		return false
	case *ast.IndexExpr:
		if !r.indexable(e) {
			return false
		}
		switch u := t.Underlying().(type) {
		case *types.Basic:
			return u.Kind() == types.Uint64 || u.Kind() == types.Int32 || u.Kind() == types.Int64 || u.Kind() == types.Uint32
		case *types.Pointer:
			n, ok := types.Unalias(u.Elem()).(*types.Named)
			return ok && r.shared[n]
		case *types.Slice:
			return true
		}
	}
	return false
}

// indexable: slice, or array reached through a pointer (hence addressable and possibly shared)
func (r *rewriter) indexable(ix *ast.IndexExpr) bool {
	xt := r.typeOf(ix.X)
	if xt == nil {
		return false
	}
	switch u := xt.Underlying().(type) {
	case *types.Slice:
		return true
	case *types.Pointer:
		_, ok := u.Elem().Underlying().(*types.Array)
		return ok
	case *types.Array:
		switch x := ix.X.(type) {
		case *ast.SelectorExpr:
			sel := r.info.Selections[x]
			if sel == nil || sel.Kind() != types.FieldVal {
				return false
			}
			_, ok := sel.Recv().Underlying().(*types.Pointer)
			return ok
		}
	}
	return false
}

func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.BlockStmt:
		r.block(s)
	case *ast.ExprStmt:
		s.X = r.expr(s.X)
	case *ast.AssignStmt:
		// v, ok := <-ch
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if u, ok := unparen(s.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				for i := range s.Lhs {
					s.Lhs[i] = r.expr(s.Lhs[i], true)
				}
				s.Rhs[0] = &ast.CallExpr{Fun: &ast.SelectorExpr{X: r.expr(u.X), Sel: ast.NewIdent("Recv2")}}
				return s
			}
		}
		for i := range s.Lhs {
			s.Lhs[i] = r.expr(s.Lhs[i], true)
		}
		for i := range s.Rhs {
			s.Rhs[i] = r.expr(s.Rhs[i])
		}
	case *ast.IncDecStmt:
		s.X = r.expr(s.X, true)
	case *ast.SendStmt:
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: r.expr(s.Chan), Sel: ast.NewIdent("Send")}, Args: []ast.Expr{r.expr(s.Value)}}}
	case *ast.GoStmt:
		return r.goStmt(s)
	case *ast.DeferStmt:
		if c, ok := r.expr(s.Call).(*ast.CallExpr); ok {
			s.Call = c
		}
	case *ast.ReturnStmt:
		for i := range s.Results {
			s.Results[i] = r.expr(s.Results[i])
		}
	case *ast.IfStmt:
		s.Init = r.stmt(s.Init)
		s.Cond = r.expr(s.Cond)
		r.block(s.Body)
		s.Else = r.stmt(s.Else)
	case *ast.ForStmt:
		s.Init = r.stmt(s.Init)
		if s.Cond != nil {
			s.Cond = r.expr(s.Cond)
		}
		s.Post = r.stmt(s.Post)
		r.block(s.Body)
	case *ast.RangeStmt:
		return r.rangeStmt(s)
	case *ast.SwitchStmt:
		s.Init = r.stmt(s.Init)
		if s.Tag != nil {
			s.Tag = r.expr(s.Tag)
		}
		r.block(s.Body)
	case *ast.TypeSwitchStmt:
		s.Init = r.stmt(s.Init)
		s.Assign = r.stmt(s.Assign)
		r.block(s.Body)
	case *ast.CaseClause:
		for i := range s.List {
			s.List[i] = r.expr(s.List[i])
		}
		s.Body = r.stmts(s.Body)
	case *ast.LabeledStmt:
		s.Stmt = r.stmt(s.Stmt)
	case *ast.DeclStmt:
		r.decl(s.Decl)
	case *ast.SelectStmt:
		return r.selectStmt(s)
	case *ast.BranchStmt, *ast.EmptyStmt:
	default:
		die("%s: unsupported statement %T", r.fset.Position(s.Pos()), s)
	}
	return s
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rewriter) name(p string) *ast.Ident {
	r.tmp++
	return ast.NewIdent(fmt.Sprintf("vs_%s%d", p, r.tmp))
}

func (r *rewriter) goStmt(s *ast.GoStmt) ast.Stmt {
	c := s.Call
	fun := r.expr(c.Fun)
	if len(c.Args) == 0 {
		return &ast.ExprStmt{X: r.call("Go", fun)}
	}
	b := &ast.BlockStmt{}
	as := &ast.AssignStmt{Tok: token.DEFINE}
	f := r.name("f")
	as.Lhs = append(as.Lhs, f)
	as.Rhs = append(as.Rhs, fun)
	inner := &ast.CallExpr{Fun: f}
	if c.Ellipsis.IsValid() {
		inner.Ellipsis = 1
	}
	for _, a := range c.Args {
		n := r.name("a")
		as.Lhs = append(as.Lhs, n)
		as.Rhs = append(as.Rhs, r.expr(a))
		inner.Args = append(inner.Args, n)
	}
	b.List = []ast.Stmt{as, &ast.ExprStmt{X: r.call("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}})}}
	return b
}

func (r *rewriter) rangeStmt(s *ast.RangeStmt) ast.Stmt {
	t := r.typeOf(s.X)
	if isChan(t) {
		x := r.expr(s.X)
		ch, v, ok := r.name("ch"), r.name("v"), r.name("ok")
		recv := func() ast.Expr {
			return &ast.CallExpr{Fun: &ast.SelectorExpr{X: ch, Sel: ast.NewIdent("Recv2")}}
		}
		r.block(s.Body)
		body := s.Body
		pre := []ast.Stmt{}
		if s.Key != nil {
			if s.Tok == token.DEFINE {
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{s.Key}, Tok: token.DEFINE, Rhs: []ast.Expr{v}},
					&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{s.Key}})
				if id, isID := s.Key.(*ast.Ident); isID && id.Name == "_" {
					pre = nil
				}
			} else {
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{r.expr(s.Key, true)}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}})
			}
		}
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}})
		body.List = append(pre, body.List...)
		// for ch, v, ok := first(x); ok; v, ok = ch.Recv2()
		return &ast.ForStmt{
			Init: &ast.AssignStmt{Lhs: []ast.Expr{ch, v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call("First", x)}},
			Cond: ok,
			Post: &ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.ASSIGN, Rhs: []ast.Expr{recv()}},
			Body: body,
		}
	}
	noteX := false
	if t != nil && s.Value != nil && !*nonote {
		if sl, ok := t.Underlying().(*types.Slice); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint64 {
				noteX = true
			}
		}
	}
	if s.Key != nil && s.Tok != token.DEFINE {
		s.Key = r.expr(s.Key, true)
	}
	if s.Value != nil && s.Tok != token.DEFINE {
		s.Value = r.expr(s.Value, true)
	}
	s.X = r.expr(s.X)
	if noteX {
		s.X = r.call("RS", s.X)
	}
	r.block(s.Body)
	return s
}

// select -> switch over vs.Select(cases...)
func (r *rewriter) selectStmt(s *ast.SelectStmt) ast.Stmt {
	sel := r.name("sel")
	call := &ast.CallExpr{Fun: r.vs("Select")}
	sw := &ast.SwitchStmt{Tag: sel, Body: &ast.BlockStmt{}}
	outer := &ast.BlockStmt{}
	hasDefault := "false"
	n := 0
	for _, cl := range s.Body.List {
		cc := cl.(*ast.CommClause)
		out := &ast.CaseClause{}
		if cc.Comm == nil {
			hasDefault = "true"
			out.List = []ast.Expr{&ast.UnaryExpr{Op: token.SUB, X: &ast.BasicLit{Kind: token.INT, Value: "1"}}}
			out.Body = r.stmts(cc.Body)
			sw.Body.List = append(sw.Body.List, out)
			continue
		}
		out.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)}}
		n++
		c := r.name("c")
		var pre []ast.Stmt
		var mk ast.Expr
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			mk = &ast.CallExpr{Fun: &ast.SelectorExpr{X: r.expr(cm.Chan), Sel: ast.NewIdent("SendCase")}, Args: []ast.Expr{r.expr(cm.Value)}}
		case *ast.ExprStmt:
			u := unparen(cm.X).(*ast.UnaryExpr)
			mk = &ast.CallExpr{Fun: &ast.SelectorExpr{X: r.expr(u.X), Sel: ast.NewIdent("RecvCase")}}
		case *ast.AssignStmt:
			u := unparen(cm.Rhs[0]).(*ast.UnaryExpr)
			mk = &ast.CallExpr{Fun: &ast.SelectorExpr{X: r.expr(u.X), Sel: ast.NewIdent("RecvCase")}}
			as := &ast.AssignStmt{Tok: cm.Tok, Rhs: []ast.Expr{&ast.SelectorExpr{X: c, Sel: ast.NewIdent("V")}}}
			for _, l := range cm.Lhs {
				as.Lhs = append(as.Lhs, r.expr(l, true))
			}
			if len(cm.Lhs) == 2 {
				as.Rhs = append(as.Rhs, &ast.SelectorExpr{X: c, Sel: ast.NewIdent("OK")})
			}
			pre = append(pre, as)
		}
		outer.List = append(outer.List, &ast.AssignStmt{Lhs: []ast.Expr{c}, Tok: token.DEFINE, Rhs: []ast.Expr{mk}})
		call.Args = append(call.Args, c)
		out.Body = append(pre, r.stmts(cc.Body)...)
		sw.Body.List = append(sw.Body.List, out)
	}
	call.Args = append([]ast.Expr{ast.NewIdent(hasDefault)}, call.Args...)
	sw.Init = &ast.AssignStmt{Lhs: []ast.Expr{sel}, Tok: token.DEFINE, Rhs: []ast.Expr{call}}
	outer.List = append(outer.List, sw)
	return outer
}

// expr rewrites an expression; lvalue means it is assigned or its address is taken, so its own read is not noted.
func (r *rewriter) expr(e ast.Expr, lvalue ...bool) ast.Expr {
	if e == nil || reflect.ValueOf(e).IsNil() {
		return nil
	}
	lv := len(lvalue) > 0 && lvalue[0]
	note := !lv && !*nonote && r.isShared(e)
	var res ast.Expr = e
	switch e := e.(type) {
	case *ast.Ident, *ast.BasicLit:
	case *ast.ParenExpr:
		e.X = r.expr(e.X, lv)
		return e
	case *ast.SelectorExpr:
		if n, ok := r.pkgSel(e, "runtime"); ok {
			switch n {
			case "Gosched", "NumCPU", "GOMAXPROCS", "NumGoroutine":
				r.needRT[e.X.(*ast.Ident).Name] = true
				return r.vs(n)
			}
			return e
		}
		if n, ok := r.pkgSel(e, "time"); ok {
			switch n {
			case "Sleep":
				r.needRT[e.X.(*ast.Ident).Name] = true
				return r.vs(n)
			}
			return e
		}
		if id, ok := e.X.(*ast.Ident); ok {
			if _, isPkg := r.info.Uses[id].(*types.PkgName); isPkg {
				return e
			}
		}
		// selecting from a pointer reads the pointer; selecting from a struct value is still the same location
		xlv := lv
		if t := r.typeOf(e.X); t != nil {
			if _, isPtr := t.Underlying().(*types.Pointer); isPtr {
				xlv = false
			}
		}
		e.X = r.expr(e.X, xlv)
	case *ast.IndexExpr:
		xlv := lv
		if t := r.typeOf(e.X); t != nil {
			switch t.Underlying().(type) {
			case *types.Pointer, *types.Slice, *types.Map:
				xlv = false
			}
		}
		e.X = r.expr(e.X, xlv)
		e.Index = r.expr(e.Index)
	case *ast.IndexListExpr:
		e.X = r.expr(e.X)
		for i := range e.Indices {
			e.Indices[i] = r.expr(e.Indices[i])
		}
	case *ast.SliceExpr:
		xlv := false
		if t := r.typeOf(e.X); t != nil {
			if _, ok := t.Underlying().(*types.Array); ok {
				xlv = true
			}
		}
		e.X = r.expr(e.X, xlv)
		if e.Low != nil {
			e.Low = r.expr(e.Low)
		}
		if e.High != nil {
			e.High = r.expr(e.High)
		}
		if e.Max != nil {
			e.Max = r.expr(e.Max)
		}
	case *ast.StarExpr:
		e.X = r.expr(e.X)
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			return &ast.CallExpr{Fun: &ast.SelectorExpr{X: r.expr(e.X), Sel: ast.NewIdent("Recv")}}
		}
		e.X = r.expr(e.X, e.Op == token.AND)
	case *ast.BinaryExpr:
		e.X = r.expr(e.X)
		e.Y = r.expr(e.Y)
	case *ast.KeyValueExpr:
		e.Key = r.expr(e.Key, true)
		e.Value = r.expr(e.Value)
	case *ast.CompositeLit:
		if e.Type != nil {
			e.Type = r.expr(e.Type)
		}
		for i, x := range e.Elts {
			if kv, ok := x.(*ast.KeyValueExpr); ok {
				kv.Value = r.expr(kv.Value)
				if _, isID := kv.Key.(*ast.Ident); !isID {
					kv.Key = r.expr(kv.Key)
				}
				continue
			}
			e.Elts[i] = r.expr(x)
		}
	case *ast.FuncLit:
		r.expr(e.Type)
		r.block(e.Body)
	case *ast.TypeAssertExpr:
		e.X = r.expr(e.X)
		if e.Type != nil {
			e.Type = r.expr(e.Type)
		}
	case *ast.CallExpr:
		return r.callExpr(e)
	case *ast.ArrayType:
		if e.Len != nil {
			e.Len = r.expr(e.Len)
		}
		e.Elt = r.expr(e.Elt)
		return e
	case *ast.MapType:
		e.Key = r.expr(e.Key)
		e.Value = r.expr(e.Value)
		return e
	case *ast.ChanType:
		return &ast.StarExpr{X: &ast.IndexExpr{X: r.vs("Chan"), Index: r.expr(e.Value)}}
	case *ast.FuncType:
		r.fields(e.TypeParams)
		r.fields(e.Params)
		r.fields(e.Results)
		return e
	case *ast.StructType:
		r.fields(e.Fields)
		return e
	case *ast.InterfaceType:
		r.fields(e.Methods)
		return e
	case *ast.Ellipsis:
		if e.Elt != nil {
			e.Elt = r.expr(e.Elt)
		}
		return e
	default:
		die("%s: unsupported expression %T", r.fset.Position(e.Pos()), e)
	}
	if note {
		res = &ast.ParenExpr{X: &ast.StarExpr{X: r.call("RP", &ast.UnaryExpr{Op: token.AND, X: res})}}
	}
	return res
}

func isU64Slice(t types.Type) bool {
	if t == nil {
		return false
	}
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := sl.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint64
}

// u64Elem returns X when e is unsafe.Pointer(&X[i]) with X a []uint64
func (r *rewriter) u64Elem(e ast.Expr) (x, index ast.Expr) {
	c, ok := unparen(e).(*ast.CallExpr)
	if !ok || len(c.Args) != 1 {
		return nil, nil
	}
	u, ok := unparen(c.Args[0]).(*ast.UnaryExpr)
	if !ok || u.Op != token.AND {
		return nil, nil
	}
	ix, ok := unparen(u.X).(*ast.IndexExpr)
	if !ok || !isU64Slice(r.typeOf(ix.X)) || hasCall(ix) {
		return nil, nil
	}
	return ix.X, ix.Index
}

func (r *rewriter) callExpr(e *ast.CallExpr) ast.Expr {
	if id, ok := e.Fun.(*ast.Ident); ok {
		if _, isB := r.info.Uses[id].(*types.Builtin); isB {
			switch id.Name {
			case "make":
				if isChan(r.typeOf(e)) {
					ct := r.typeOf(e).Underlying().(*types.Chan)
					_ = ct
					var elem ast.Expr
					if c, ok := e.Args[0].(*ast.ChanType); ok {
						elem = r.expr(c.Value)
					} else {
						die("%s: make of named channel type unsupported", r.fset.Position(e.Pos()))
					}
					var n ast.Expr = &ast.BasicLit{Kind: token.INT, Value: "0"}
					if len(e.Args) > 1 {
						n = r.expr(e.Args[1])
					}
					return &ast.CallExpr{Fun: &ast.IndexExpr{X: r.vs("MakeChan"), Index: elem}, Args: []ast.Expr{&ast.CallExpr{Fun: ast.NewIdent("int"), Args: []ast.Expr{n}}}}
				}
			case "close":
				return &ast.CallExpr{Fun: &ast.SelectorExpr{X: r.expr(e.Args[0]), Sel: ast.NewIdent("Close")}}
			case "len", "cap":
				if isChan(r.typeOf(e.Args[0])) {
					m := "Len"
					if id.Name == "cap" {
						m = "Cap"
					}
					return &ast.CallExpr{Fun: &ast.SelectorExpr{X: r.expr(e.Args[0]), Sel: ast.NewIdent(m)}}
				}
			case "copy":
				if !*nonote && isU64Slice(r.typeOf(e.Args[0])) {
					return r.call("Copy", r.expr(e.Args[0]), r.expr(e.Args[1]))
				}
			}
			for i := range e.Args {
				e.Args[i] = r.expr(e.Args[i])
			}
			return e
		}
		if fn, ok := r.info.Uses[id].(*types.Func); ok && fn.Pkg() == r.pkg && fn.Name() == "memmove" && len(e.Args) == 3 {
			to, ti := r.u64Elem(e.Args[0])
			from, fi := r.u64Elem(e.Args[1])
			nilE := func() ast.Expr { return ast.NewIdent("nil") }
			sl := func(x, i ast.Expr) ast.Expr {
				if x == nil {
					return nilE()
				}
				return &ast.SliceExpr{X: clone(x, r), Low: clone(i, r)}
			}
			return r.call("Memmove", r.expr(e.Args[0]), r.expr(e.Args[1]), r.expr(e.Args[2]), sl(to, ti), sl(from, fi))
		}
	}
	e.Fun = r.expr(e.Fun, true)
	for i := range e.Args {
		e.Args[i] = r.expr(e.Args[i])
	}
	return e
}

// stripPos clears all positions so that the printer lays the tree out afresh.
func stripPos(n ast.Node) {
	posType := reflect.TypeOf(token.Pos(0))
	seen := map[uintptr]bool{}
	var visit func(v reflect.Value)
	visit = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Interface:
			if !v.IsNil() {
				visit(v.Elem())
			}
		case reflect.Pointer:
			if v.IsNil() || seen[v.Pointer()] {
				return
			}
			if _, isObj := v.Interface().(*ast.Object); isObj {
				return
			}
			seen[v.Pointer()] = true
			visit(v.Elem())
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				visit(v.Index(i))
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				f := v.Field(i)
				if f.Type() == posType {
					name := v.Type().Field(i).Name
					// validity of these carries meaning (grouping, ellipsis, alias)
					if (name == "Lparen" || name == "Rparen" || name == "Ellipsis" || name == "Assign") && f.Int() != 0 {
						f.SetInt(1)
					} else {
						f.SetInt(0)
					}
					continue
				}
				if v.Type().Field(i).Name == "Doc" || v.Type().Field(i).Name == "Comment" {
					f.Set(reflect.Zero(f.Type()))
					continue
				}
				visit(f)
			}
		}
	}
	visit(reflect.ValueOf(n))
}
