// Command instr copies the library packages of a module, instrumented for the
// deterministic simulator verif/simrt:
//
//   - a yield point before every statement (and inside compound assignments to
//     shared places);
//   - sync, sync/atomic, time and fmt replaced by simulated counterparts;
//   - go statements, channel operations and select handed to the simulator;
//   - map iteration in a reproducible order;
//   - a function per package that brings its variables back to their initial
//     values, to simulate a process that has just started.
//
// It knows nothing about the module it instruments.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(2)
	}
}

type pkgInfo struct {
	ImportPath string
	Name       string
	Dir        string
	GoFiles    []string
	CgoFiles   []string
	Imports    []string
	Export     string
	Standard   bool
	Error      *struct{ Err string }
}

var shims = map[string]string{
	"sync":        "verif/simrt/sync",
	"sync/atomic": "verif/simrt/atomic",
	"time":        "verif/simrt/time",
	"fmt":         "verif/simrt/fmt",
	"context":     "verif/simrt/context",
}

const rt = "_simrt"

type site struct {
	ID   int    `json:"id"`
	Pos  string `json:"pos"`
	Func string `json:"func"`
}

var sites []site

func main() {
	src := flag.String("src", "/repo", "module to instrument")
	raw := flag.String("raw", "", "directory for the plain copy of the library sources")
	out := flag.String("out", "", "directory for the instrumented module")
	flag.Parse()
	copyRaw(*src, *raw)
	modpath, gover := writeMod(*src, *raw)

	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Name,Dir,GoFiles,CgoFiles,Imports,Export,Standard,Error", "./...")
	cmd.Dir = *raw
	cmd.Env = append(os.Environ(), "GOWORK=off")
	var eb bytes.Buffer
	cmd.Stderr = &eb
	b, err := cmd.Output()
	if err != nil {
		fmt.Fprintln(os.Stderr, eb.String())
		check(err)
	}
	exports := map[string]string{}
	var pkgs []pkgInfo
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		var p pkgInfo
		err := dec.Decode(&p)
		if err == io.EOF {
			break
		}
		check(err)
		if p.Standard {
			exports[p.ImportPath] = p.Export
			continue
		}
		if p.Name == "main" {
			continue
		}
		pkgs = append(pkgs, p) // -deps lists dependencies first
	}
	fset := token.NewFileSet()
	std := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(f)
	})
	done := map[string]*types.Package{}
	imp := impFunc(func(path string) (*types.Package, error) {
		if p, ok := done[path]; ok {
			return p, nil
		}
		return std.Import(path)
	})
	check(os.RemoveAll(*out))
	for _, p := range pkgs {
		var files []*ast.File
		for _, f := range p.GoFiles {
			af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
			check(err)
			files = append(files, af)
		}
		info := &types.Info{
			Types:      map[ast.Expr]types.TypeAndValue{},
			Defs:       map[*ast.Ident]types.Object{},
			Uses:       map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{},
			Implicits:  map[ast.Node]types.Object{},
		}
		conf := types.Config{Importer: imp, GoVersion: "go" + gover}
		tp, err := conf.Check(p.ImportPath, fset, files, info)
		check(err)
		done[p.ImportPath] = tp
		rel, err := filepath.Rel(*raw, p.Dir)
		check(err)
		odir := filepath.Join(*out, rel)
		check(os.MkdirAll(odir, 0o755))
		in := &inst{fset: fset, info: info, pkg: tp, rel: rel, modpath: modpath}
		in.collectInit(files)
		for i, af := range files {
			in.file(af, filepath.Join(odir, p.GoFiles[i]), p.GoFiles[i])
		}
		in.writeReset(odir)
	}
	check(os.WriteFile(filepath.Join(*out, "go.mod"), []byte(fmt.Sprintf("module %s\n\ngo %s\n\nrequire verif/simrt v0.0.0\n", modpath, gover)), 0o644))
	// the root package registers the number of program points
	sort.Slice(sites, func(i, j int) bool { return sites[i].ID < sites[j].ID })
	jb, _ := json.Marshal(sites)
	check(os.WriteFile(filepath.Join(*out, "sites.json"), jb, 0o644))
	check(os.MkdirAll(filepath.Join(*out, "simsites"), 0o755))
	check(os.WriteFile(filepath.Join(*out, "simsites", "sites.go"), []byte(fmt.Sprintf("// Package simsites sizes the tables of program points.\npackage simsites\n\nimport \"verif/simrt\"\n\n// N is the number of program points.\nconst N = %d\n\nfunc init() { simrt.Register(N) }\n", len(sites)+1)), 0o644))
}

type impFunc func(string) (*types.Package, error)

func (f impFunc) Import(p string) (*types.Package, error) { return f(p) }

// copyRaw copies the non-test sources of all directories but commands.
func copyRaw(src, raw string) {
	check(os.RemoveAll(raw))
	check(filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if fi.IsDir() {
			if rel != "." && (strings.HasPrefix(fi.Name(), ".") || strings.HasPrefix(fi.Name(), "_") || fi.Name() == "testdata" || fi.Name() == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, b, parser.PackageClauseOnly)
		if err != nil {
			return err
		}
		if f.Name.Name == "main" {
			return nil
		}
		dst := filepath.Join(raw, rel)
		if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
			return err
		}
		return os.WriteFile(dst, b, 0o644)
	}))
}

func writeMod(src, raw string) (string, string) {
	b, err := os.ReadFile(filepath.Join(src, "go.mod"))
	check(err)
	m := regexp.MustCompile(`(?m)^module\s+(\S+)`).FindSubmatch(b)
	if m == nil {
		check(fmt.Errorf("no module line in go.mod"))
	}
	gover := "1.21"
	if g := regexp.MustCompile(`(?m)^go\s+1\.(\d+)`).FindSubmatch(b); g != nil {
		if n, _ := strconv.Atoi(string(g[1])); n > 21 {
			gover = fmt.Sprintf("1.%d", n)
		}
	}
	check(os.WriteFile(filepath.Join(raw, "go.mod"), []byte(fmt.Sprintf("module %s\n\ngo %s\n", m[1], gover)), 0o644))
	return string(m[1]), gover
}

type inst struct {
	fset    *token.FileSet
	info    *types.Info
	pkg     *types.Package
	rel     string
	modpath string
	fn      string
	tmp     int
	used    bool // the file uses the run-time package

	inits     map[*ast.File][]initCode
	ninit     int
	order     []string // names of the generated functions in order
	origInits []string
}

type initCode struct {
	name string
	lhs  []string
	rhs  ast.Expr
}

func (in *inst) collectInit(files []*ast.File) {
	in.inits = map[*ast.File][]initCode{}
	fileOf := func(p token.Pos) *ast.File {
		for _, f := range files {
			if f.FileStart <= p && p <= f.FileEnd {
				return f
			}
		}
		return nil
	}
	for _, i := range in.info.InitOrder {
		f := fileOf(i.Rhs.Pos())
		var lhs []string
		all := true
		for _, v := range i.Lhs {
			lhs = append(lhs, v.Name())
			if v.Name() != "_" {
				all = false
			}
		}
		if all || f == nil {
			continue
		}
		in.ninit++
		n := fmt.Sprintf("_simInit%d", in.ninit)
		in.inits[f] = append(in.inits[f], initCode{n, lhs, i.Rhs})
		in.order = append(in.order, n)
	}
}

func (in *inst) writeReset(dir string) {
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\nimport %s \"verif/simrt\"\n\n", in.pkg.Name(), rt)
	fmt.Fprintf(&b, "func _simReset() {\n")
	sc := in.pkg.Scope()
	for _, n := range sc.Names() {
		if _, ok := sc.Lookup(n).(*types.Var); ok {
			fmt.Fprintf(&b, "\t%s.Zero(&%s)\n", rt, n)
		}
	}
	for _, n := range in.order {
		fmt.Fprintf(&b, "\t%s()\n", n)
	}
	for _, n := range in.origInits {
		fmt.Fprintf(&b, "\t%s()\n", n)
	}
	fmt.Fprintf(&b, "}\n\nfunc init() { %s.RegisterReset(%q, _simReset) }\n", rt, in.pkg.Path())
	check(os.WriteFile(filepath.Join(dir, "zz_simreset.go"), b.Bytes(), 0o644))
}

func (in *inst) file(f *ast.File, out, base string) {
	in.used = false
	// functions
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			in.fn = d.Name.Name
			if d.Recv != nil && len(d.Recv.List) > 0 {
				in.fn = recvName(d.Recv.List[0].Type) + "." + in.fn
			}
			if d.Recv == nil && d.Name.Name == "init" {
				n := fmt.Sprintf("_simOrigInit%d", len(in.origInits)+1)
				in.origInits = append(in.origInits, n)
				d.Name.Name = n
			}
			if d.Body != nil {
				in.block(d.Body)
			}
		case *ast.GenDecl:
			in.fn = "init"
			for _, s := range d.Specs {
				if vs, ok := s.(*ast.ValueSpec); ok {
					for i := range vs.Values {
						in.expr(&vs.Values[i])
					}
				}
			}
		}
	}
	// re-initialisation functions share the (already instrumented) expressions
	for _, ic := range in.inits[f] {
		var lhs []ast.Expr
		for _, l := range ic.lhs {
			lhs = append(lhs, ast.NewIdent(l))
		}
		rhs := ic.rhs
		if w, ok := replaced[rhs]; ok {
			rhs = w
		}
		f.Decls = append(f.Decls, &ast.FuncDecl{
			Name: ast.NewIdent(ic.name), Type: &ast.FuncType{Params: &ast.FieldList{}},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{rhs}}}},
		})
	}
	for _, n := range in.origInits {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Name.Name == n {
				f.Decls = append(f.Decls, &ast.FuncDecl{
					Name: ast.NewIdent("init"), Type: &ast.FuncType{Params: &ast.FieldList{}},
					Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent(n)}}}},
				})
			}
		}
	}
	// imports
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if s, ok := shims[p]; ok {
			if im.Name == nil {
				im.Name = ast.NewIdent(p[strings.LastIndex(p, "/")+1:])
			}
			im.Path.Value = strconv.Quote(s)
			im.EndPos = token.NoPos
		}
	}
	if in.used {
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{
			&ast.ImportSpec{Name: ast.NewIdent(rt), Path: &ast.BasicLit{Kind: token.STRING, Value: `"verif/simrt"`}}}}}, f.Decls...)
	}
	var b bytes.Buffer
	b.WriteString("// Code generated by instr. DO NOT EDIT.\n\n")
	check(format.Node(&b, in.fset, f))
	check(os.WriteFile(out, b.Bytes(), 0o644))
}

func recvName(e ast.Expr) string {
	switch e := e.(type) {
	case *ast.StarExpr:
		return recvName(e.X)
	case *ast.Ident:
		return e.Name
	case *ast.IndexExpr:
		return recvName(e.X)
	case *ast.IndexListExpr:
		return recvName(e.X)
	}
	return "?"
}

func (in *inst) rtf(name string) ast.Expr {
	in.used = true
	return &ast.SelectorExpr{X: ast.NewIdent(rt), Sel: ast.NewIdent(name)}
}

func (in *inst) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: in.rtf(name), Args: args}
}

func (in *inst) y(pos token.Pos) ast.Stmt {
	id := len(sites) + 1
	p := in.fset.Position(pos)
	rel := filepath.Join(in.rel, filepath.Base(p.Filename))
	sites = append(sites, site{id, fmt.Sprintf("%s:%d", rel, p.Line), in.fn})
	return &ast.ExprStmt{X: in.call("Y", &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(id)})}
}

func (in *inst) name(p string) *ast.Ident {
	in.tmp++
	return ast.NewIdent(fmt.Sprintf("_sim%s%d", p, in.tmp))
}

func (in *inst) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = in.stmts(b.List)
}

func (in *inst) loopBody(b *ast.BlockStmt) {
	pos := b.Pos()
	in.block(b)
	if len(b.List) == 0 {
		b.List = []ast.Stmt{in.y(pos)}
	}
}

func (in *inst) stmts(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		if _, ok := s.(*ast.EmptyStmt); ok {
			out = append(out, s)
			continue
		}
		pos := s.Pos()
		out = append(out, in.y(pos))
		out = append(out, in.stmt(s))
	}
	return out
}

// replaced maps initialiser expressions that were rewritten at the top level.
var replaced = map[ast.Expr]ast.Expr{}

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (in *inst) typ(e ast.Expr) types.Type {
	if tv, ok := in.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := in.info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	return nil
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (in *inst) isBuiltin(e ast.Expr, name string) bool {
	id, ok := unparen(e).(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = in.info.Uses[id].(*types.Builtin)
	return ok
}

// expr rewrites an expression in place.
func (in *inst) expr(pe *ast.Expr) {
	e := *pe
	if e == nil {
		return
	}
	switch x := e.(type) {
	case *ast.FuncLit:
		in.block(x.Body)
	case *ast.UnaryExpr:
		in.expr(&x.X)
		if x.Op == token.ARROW {
			n := in.call("Recv", x.X)
			replaced[e] = n
			*pe = n
		}
	case *ast.CallExpr:
		if in.isBuiltin(x.Fun, "close") {
			in.expr(&x.Args[0])
			x.Fun = in.rtf("Close")
			return
		}
		if in.isBuiltin(x.Fun, "len") && isChan(in.typ(x.Args[0])) {
			in.expr(&x.Args[0])
			x.Fun = in.rtf("Len")
			return
		}
		in.expr(&x.Fun)
		for i := range x.Args {
			in.expr(&x.Args[i])
		}
	case *ast.ParenExpr:
		in.expr(&x.X)
	case *ast.SelectorExpr:
		in.expr(&x.X)
	case *ast.StarExpr:
		in.expr(&x.X)
	case *ast.BinaryExpr:
		in.expr(&x.X)
		in.expr(&x.Y)
	case *ast.IndexExpr:
		in.expr(&x.X)
		in.expr(&x.Index)
	case *ast.SliceExpr:
		in.expr(&x.X)
		in.expr(&x.Low)
		in.expr(&x.High)
		in.expr(&x.Max)
	case *ast.TypeAssertExpr:
		in.expr(&x.X)
	case *ast.KeyValueExpr:
		in.expr(&x.Key)
		in.expr(&x.Value)
	case *ast.CompositeLit:
		for i := range x.Elts {
			in.expr(&x.Elts[i])
		}
	}
}

func (in *inst) exprs(l []ast.Expr) {
	for i := range l {
		in.expr(&l[i])
	}
}

// recv2 recognises "<-ch" as the only right-hand side of a two-value
// assignment.
func (in *inst) recv2(lhs []ast.Expr, rhs []ast.Expr) {
	if len(lhs) == 2 && len(rhs) == 1 {
		if u, ok := unparen(rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			in.expr(&u.X)
			rhs[0] = in.call("Recv2", u.X)
			return
		}
	}
	in.exprs(rhs)
}

func (in *inst) shared(e ast.Expr) bool {
	switch x := unparen(e).(type) {
	case *ast.SelectorExpr:
		return true
	case *ast.StarExpr:
		return true
	case *ast.IndexExpr:
		t := in.typ(x.X)
		if t == nil {
			return false
		}
		switch u := t.Underlying().(type) {
		case *types.Slice:
			return true
		case *types.Pointer:
			_, ok := u.Elem().Underlying().(*types.Array)
			return ok
		}
		return false
	case *ast.Ident:
		o := in.info.Uses[x]
		return o != nil && o.Parent() == in.pkg.Scope()
	}
	return false
}

func (in *inst) stmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case *ast.BlockStmt:
		in.block(s)
	case *ast.IfStmt:
		if s.Init != nil {
			s.Init = in.simple(s.Init)
		}
		in.expr(&s.Cond)
		in.block(s.Body)
		if s.Else != nil {
			s.Else = in.stmt(s.Else)
		}
	case *ast.ForStmt:
		if s.Init != nil {
			s.Init = in.simple(s.Init)
		}
		in.expr(&s.Cond)
		if s.Post != nil {
			s.Post = in.simple(s.Post)
		}
		in.loopBody(s.Body)
	case *ast.RangeStmt:
		return in.rng(s)
	case *ast.SwitchStmt:
		if s.Init != nil {
			s.Init = in.simple(s.Init)
		}
		in.expr(&s.Tag)
		in.cases(s.Body)
	case *ast.TypeSwitchStmt:
		if s.Init != nil {
			s.Init = in.simple(s.Init)
		}
		s.Assign = in.simple(s.Assign)
		in.cases(s.Body)
	case *ast.SelectStmt:
		return in.sel(s)
	case *ast.LabeledStmt:
		_, was := s.Stmt.(*ast.BlockStmt)
		s.Stmt = in.stmt(s.Stmt)
		if b, ok := s.Stmt.(*ast.BlockStmt); ok && !was && len(b.List) > 0 {
			// the label belongs to the statement itself, not to its preparation
			last := len(b.List) - 1
			s.Stmt = b.List[last]
			b.List[last] = s
			return b
		}
	case *ast.GoStmt:
		return in.goStmt(s)
	case *ast.DeferStmt:
		c := ast.Expr(s.Call)
		in.expr(&c)
		s.Call = c.(*ast.CallExpr)
	case *ast.IncDecStmt:
		if in.shared(s.X) {
			op := token.ADD
			if s.Tok == token.DEC {
				op = token.SUB
			}
			return in.rmw(s.X, op, &ast.BasicLit{Kind: token.INT, Value: "1"})
		}
		in.expr(&s.X)
	case *ast.AssignStmt:
		if op, ok := assignOps[s.Tok]; ok && len(s.Lhs) == 1 && in.shared(s.Lhs[0]) {
			return in.rmw(s.Lhs[0], op, s.Rhs[0])
		}
		return in.simple(s)
	default:
		return in.simple(s)
	}
	return s
}

var assignOps = map[token.Token]token.Token{
	token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
	token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND,
	token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL,
	token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT,
}

// rmw splits a read-modify-write of a shared place so that other tasks may run
// in between.
func (in *inst) rmw(lhs ast.Expr, op token.Token, rhs ast.Expr) ast.Stmt {
	pos := lhs.Pos()
	in.expr(&lhs)
	in.expr(&rhs)
	p, v := in.name("p"), in.name("v")
	return &ast.BlockStmt{List: []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{p}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.UnaryExpr{Op: token.AND, X: &ast.ParenExpr{X: lhs}}}},
		&ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BinaryExpr{X: &ast.StarExpr{X: p}, Op: op, Y: &ast.ParenExpr{X: rhs}}}},
		in.y(pos),
		&ast.AssignStmt{Lhs: []ast.Expr{&ast.StarExpr{X: p}}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}},
	}}
}

// simple rewrites a simple statement without changing its kind where the
// grammar demands a simple statement.
func (in *inst) simple(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case *ast.ExprStmt:
		in.expr(&s.X)
	case *ast.SendStmt:
		in.expr(&s.Chan)
		in.expr(&s.Value)
		return &ast.ExprStmt{X: in.call("Send", s.Chan, s.Value)}
	case *ast.IncDecStmt:
		in.expr(&s.X)
	case *ast.AssignStmt:
		in.exprs(s.Lhs)
		in.recv2(s.Lhs, s.Rhs)
	case *ast.ReturnStmt:
		in.exprs(s.Results)
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok {
			for _, sp := range g.Specs {
				if vs, ok := sp.(*ast.ValueSpec); ok {
					lhs := make([]ast.Expr, len(vs.Names))
					in.recv2(lhs, vs.Values)
				}
			}
		}
	}
	return s
}

func (in *inst) cases(b *ast.BlockStmt) {
	for _, c := range b.List {
		cc := c.(*ast.CaseClause)
		in.exprs(cc.List)
		cc.Body = in.stmts(cc.Body)
	}
}

func (in *inst) rng(s *ast.RangeStmt) ast.Stmt {
	t := in.typ(s.X)
	in.expr(&s.X)
	if t != nil {
		switch t.Underlying().(type) {
		case *types.Map:
			e, ok := in.name("e"), in.name("ok")
			in.loopBody(s.Body)
			isBlank := func(e ast.Expr) bool {
				id, ok := e.(*ast.Ident)
				return e == nil || ok && id.Name == "_"
			}
			field := func(n string) ast.Expr { return &ast.SelectorExpr{X: e, Sel: ast.NewIdent(n)} }
			v := ast.Expr(ast.NewIdent("_"))
			var vn *ast.Ident
			if !isBlank(s.Value) {
				vn = in.name("v")
				v = vn
			}
			// the entry may have been deleted meanwhile
			pre := []ast.Stmt{
				&ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: field("M"), Index: field("K")}}},
				&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}},
			}
			var lhs, rhs []ast.Expr
			if !isBlank(s.Key) {
				lhs, rhs = append(lhs, s.Key), append(rhs, field("K"))
			}
			if vn != nil {
				lhs, rhs = append(lhs, s.Value), append(rhs, vn)
			}
			if len(lhs) > 0 {
				pre = append(pre, &ast.AssignStmt{Lhs: lhs, Tok: s.Tok, Rhs: rhs})
			}
			s.Body.List = append(pre, s.Body.List...)
			return &ast.RangeStmt{Key: ast.NewIdent("_"), Value: e, Tok: token.DEFINE, X: in.call("Entries", s.X), Body: s.Body}
		case *types.Chan:
			in.loopBody(s.Body)
			v, ok := in.name("v"), in.name("ok")
			c := in.name("c") // the operand is evaluated once
			rec := in.call("Recv2", c)
			if s.Key != nil {
				s.Body.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{s.Key}, Tok: s.Tok, Rhs: []ast.Expr{v}}}, s.Body.List...)
			} else {
				s.Body.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}}}, s.Body.List...)
			}
			return &ast.ForStmt{
				Init: &ast.AssignStmt{Lhs: []ast.Expr{c, v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{in.call("Range", s.X)}},
				Cond: ok,
				Post: &ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.ASSIGN, Rhs: []ast.Expr{rec}},
				Body: s.Body,
			}
		}
	}
	in.loopBody(s.Body)
	return s
}

func (in *inst) sel(s *ast.SelectStmt) ast.Stmt {
	idx, val, ok := in.name("i"), in.name("v"), in.name("ok")
	def := ast.NewIdent("false")
	var args []ast.Expr
	var pre []ast.Stmt
	sw := &ast.SwitchStmt{Tag: idx, Body: &ast.BlockStmt{}}
	n := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		body := in.stmts(cc.Body)
		cl := &ast.CaseClause{}
		if cc.Comm == nil {
			def = ast.NewIdent("true")
			cl.List = nil
			cl.Body = body
			sw.Body.List = append(sw.Body.List, cl)
			continue
		}
		cl.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)}}
		n++
		ch := in.name("c")
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			in.expr(&cm.Chan)
			in.expr(&cm.Value)
			args = append(args, in.call("CaseSend", cm.Chan, cm.Value))
		case *ast.ExprStmt:
			u := unparen(cm.X).(*ast.UnaryExpr)
			in.expr(&u.X)
			args = append(args, in.call("CaseRecv", u.X))
		case *ast.AssignStmt:
			u := unparen(cm.Rhs[0]).(*ast.UnaryExpr)
			in.expr(&u.X)
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ch}, Tok: token.DEFINE, Rhs: []ast.Expr{u.X}})
			args = append(args, in.call("CaseRecv", ch))
			rhs := []ast.Expr{in.call("As", ch, val)}
			if len(cm.Lhs) == 2 {
				rhs = append(rhs, ok)
			}
			body = append([]ast.Stmt{&ast.AssignStmt{Lhs: cm.Lhs, Tok: cm.Tok, Rhs: rhs}}, body...)
		}
		cl.Body = body
		sw.Body.List = append(sw.Body.List, cl)
	}
	if def.Name == "false" {
		// never reached; a select without default may end a function
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{
			X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"simrt: the task has ended"`}}}}}})
	}
	call := in.call("Select", append([]ast.Expr{def}, args...)...)
	return &ast.BlockStmt{List: append(pre,
		&ast.AssignStmt{Lhs: []ast.Expr{idx, val, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{call}},
		&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_"), ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{val, ok}},
		sw)}
}

func (in *inst) goStmt(s *ast.GoStmt) ast.Stmt {
	c := s.Call
	if fl, ok := unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 {
		in.block(fl.Body)
		return &ast.ExprStmt{X: in.call("Go", fl)}
	}
	ftv, okf := in.info.Types[c.Fun]
	if okf && (ftv.IsBuiltin() || ftv.IsType()) {
		e := ast.Expr(c)
		in.expr(&e)
		return &ast.ExprStmt{X: in.call("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: e}}}})}
	}
	var pre []ast.Stmt
	in.expr(&c.Fun)
	f := in.name("f")
	pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{f}, Tok: token.DEFINE, Rhs: []ast.Expr{c.Fun}})
	c.Fun = f
	if len(c.Args) == 1 {
		if tu, ok := in.typ(c.Args[0]).(*types.Tuple); ok && tu.Len() > 1 { // f(g())
			var lhs, args []ast.Expr
			for i := 0; i < tu.Len(); i++ {
				a := in.name("a")
				lhs, args = append(lhs, a), append(args, a)
			}
			in.expr(&c.Args[0])
			pre = append(pre, &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: c.Args})
			c.Args = args
		}
	}
	for i := range c.Args {
		tv, known := in.info.Types[c.Args[i]]
		if !known && c.Args[i].Pos() == token.NoPos {
			continue // made above
		}
		in.expr(&c.Args[i])
		if tv.Value != nil || tv.IsNil() {
			continue
		}
		a := in.name("a")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{a}, Tok: token.DEFINE, Rhs: []ast.Expr{c.Args[i]}})
		c.Args[i] = a
	}
	pre = append(pre, &ast.ExprStmt{X: in.call("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: c}}}})})
	return &ast.BlockStmt{List: pre}
}
