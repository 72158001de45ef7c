// instrument rewrites packages for the controlled scheduler: it writes copies of
// their files and an overlay for go build that replaces the originals.
//
//	instrument -out DIR package...
//
// Synchronisation (sync, sync/atomic, channels, select, go, GOMAXPROCS) goes
// through verif.local/harness/vsync, maps are iterated in a fixed order; nothing
// else changes.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
)

const vs = "verif_vsync"

type pkg struct {
	ImportPath, Export, Dir string
	GoFiles                 []string
}

func main() {
	out := flag.String("out", "", "directory")
	flag.Parse()
	args := append([]string{"list", "-export", "-deps", "-json=ImportPath,Export,Dir,GoFiles"}, flag.Args()...)
	cmd := exec.Command("go", args...)
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	die(err)
	pkgs := map[string]*pkg{}
	for d := json.NewDecoder(bytes.NewReader(b)); ; {
		var p pkg
		if err := d.Decode(&p); err == io.EOF {
			break
		} else {
			die(err)
		}
		pkgs[p.ImportPath] = &p
	}
	overlay := map[string]string{}
	for _, path := range flag.Args() {
		p := pkgs[path]
		if p == nil {
			die(fmt.Errorf("no package %s", path))
		}
		rewritePackage(p, pkgs, *out, overlay)
	}
	j, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	die(os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0o644))
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instrument:", err)
		os.Exit(1)
	}
}

type rewriter struct {
	fset *token.FileSet
	info *types.Info
	used bool
	tmp  int
}

func rewritePackage(p *pkg, pkgs map[string]*pkg, out string, overlay map[string]string) {
	fset := token.NewFileSet()
	var files []*ast.File
	for _, f := range p.GoFiles {
		a, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.ParseComments|parser.SkipObjectResolution)
		die(err)
		files = append(files, a)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		d := pkgs[path]
		if d == nil || d.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(d.Export)
	}), Error: func(error) {}}
	conf.Check(p.ImportPath, fset, files, info)
	for i, a := range files {
		r := &rewriter{fset: fset, info: info}
		var constraints []string
		for _, g := range a.Comments {
			for _, c := range g.List {
				if c.Pos() < a.Package && constraint.IsGoBuild(c.Text) {
					constraints = append(constraints, c.Text)
				}
			}
		}
		a.Comments = nil // positions no longer match
		for _, d := range a.Decls {
			if g, ok := d.(*ast.GenDecl); ok {
				g.Doc = nil
			}
		}
		keep := r.imports(a)
		for _, d := range a.Decls {
			r.node(d)
		}
		if r.used {
			spec := &ast.ImportSpec{Name: ast.NewIdent(vs), Path: lit("verif.local/harness/vsync")}
			a.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, a.Decls...)
		}
		if !r.used && len(keep) == 0 {
			continue // nothing to replace
		}
		var buf bytes.Buffer
		for _, c := range constraints {
			fmt.Fprintln(&buf, c+"\n")
		}
		die(format.Node(&buf, fset, a))
		for _, k := range keep {
			if k != "" {
				fmt.Fprintln(&buf, "\nvar _ = "+k)
			}
		}
		name := filepath.Join(out, strings.ReplaceAll(p.ImportPath, "/", "_")+"_"+p.GoFiles[i])
		die(os.WriteFile(name, buf.Bytes(), 0o644))
		overlay[filepath.Join(p.Dir, p.GoFiles[i])] = name
	}
}

func lit(s string) *ast.BasicLit { return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(s)} }

// imports redirects sync and sync/atomic; it returns uses that keep imports alive.
func (r *rewriter) imports(a *ast.File) (keep []string) {
	for _, d := range a.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			continue
		}
		for _, s := range g.Specs {
			s := s.(*ast.ImportSpec)
			s.Doc, s.Comment = nil, nil
			path, _ := strconv.Unquote(s.Path.Value)
			name := ""
			if s.Name != nil {
				name = s.Name.Name
			}
			set := func(def, to string) {
				s.Path = lit(to)
				s.EndPos = 0
				if name == "" {
					s.Name = ast.NewIdent(def)
				}
				keep = append(keep, "")
			}
			switch path {
			case "sync":
				set("sync", "verif.local/harness/vsync")
			case "sync/atomic":
				set("atomic", "verif.local/harness/vsync/vatomic")
			case "runtime":
				if name == "" {
					name = "runtime"
				}
				keep = append(keep, name+".GOMAXPROCS")
			}
		}
	}
	return
}

func (r *rewriter) vsync(name string, args ...ast.Expr) *ast.CallExpr {
	r.used = true
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(vs), Sel: ast.NewIdent(name)}, Args: args}
}

func (r *rewriter) under(e ast.Expr) types.Type {
	if t := r.info.TypeOf(e); t != nil {
		return t.Underlying()
	}
	return nil
}

// node rewrites everything below n in place.
func (r *rewriter) node(n ast.Node) {
	if n == nil {
		return
	}
	switch n := n.(type) {
	case *ast.FuncDecl:
		n.Doc = nil
		if n.Body != nil {
			r.block(n.Body)
		}
	case *ast.GenDecl:
		n.Doc = nil
		for _, s := range n.Specs {
			if v, ok := s.(*ast.ValueSpec); ok {
				v.Doc, v.Comment = nil, nil
				for i := range v.Values {
					v.Values[i] = r.expr(v.Values[i])
				}
				if len(v.Names) == 2 && len(v.Values) == 1 {
					v.Values[0] = r.recv2(v.Values[0])
				}
			}
			if t, ok := s.(*ast.TypeSpec); ok {
				t.Doc, t.Comment = nil, nil
			}
		}
	}
}

func (r *rewriter) block(b *ast.BlockStmt) {
	if b != nil {
		r.list(b.List)
	}
}

func (r *rewriter) list(l []ast.Stmt) {
	for i := range l {
		l[i] = r.stmt(l[i])
	}
}

func (r *rewriter) exprs(es []ast.Expr) {
	for i := range es {
		es[i] = r.expr(es[i])
	}
}

// recv2 makes the two valued form of a rewritten receive.
func (r *rewriter) recv2(e ast.Expr) ast.Expr {
	if c, ok := e.(*ast.CallExpr); ok {
		if s, ok := c.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "Recv" {
			if x, ok := s.X.(*ast.Ident); ok && x.Name == vs {
				s.Sel.Name = "Recv2"
			}
		}
	}
	return e
}

func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.BlockStmt:
		r.block(s)
	case *ast.ExprStmt:
		s.X = r.expr(s.X)
	case *ast.SendStmt:
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: r.vsync("Send", r.expr(s.Chan)), Args: []ast.Expr{r.expr(s.Value)}}}
	case *ast.IncDecStmt:
		s.X = r.expr(s.X)
	case *ast.AssignStmt:
		r.exprs(s.Lhs)
		r.exprs(s.Rhs)
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			s.Rhs[0] = r.recv2(s.Rhs[0])
		}
	case *ast.GoStmt:
		return r.goStmt(s)
	case *ast.DeferStmt:
		if e := r.expr(s.Call); e != nil {
			s.Call = e.(*ast.CallExpr)
		}
	case *ast.ReturnStmt:
		r.exprs(s.Results)
	case *ast.LabeledStmt:
		s.Stmt = r.stmt(s.Stmt)
	case *ast.IfStmt:
		s.Init = r.stmt(s.Init)
		s.Cond = r.expr(s.Cond)
		r.block(s.Body)
		s.Else = r.stmt(s.Else)
	case *ast.CaseClause:
		r.exprs(s.List)
		r.list(s.Body)
	case *ast.SwitchStmt:
		s.Init = r.stmt(s.Init)
		if s.Tag != nil {
			s.Tag = r.expr(s.Tag)
		}
		r.block(s.Body)
	case *ast.TypeSwitchStmt:
		s.Init = r.stmt(s.Init)
		s.Assign = r.stmt(s.Assign)
		r.block(s.Body)
	case *ast.SelectStmt:
		return r.selectStmt(s)
	case *ast.ForStmt:
		s.Init = r.stmt(s.Init)
		if s.Cond != nil {
			s.Cond = r.expr(s.Cond)
		}
		s.Post = r.stmt(s.Post)
		r.block(s.Body)
	case *ast.RangeStmt:
		t := r.under(s.X)
		s.X = r.expr(s.X)
		switch t.(type) {
		case *types.Chan:
			s.X = r.vsync("RangeChan", s.X)
		case *types.Map:
			s.X = r.vsync("RangeMap", s.X)
		}
		r.block(s.Body)
	case *ast.DeclStmt:
		r.node(s.Decl)
	}
	return s
}

func (r *rewriter) goStmt(s *ast.GoStmt) ast.Stmt {
	c := s.Call
	if id, ok := c.Fun.(*ast.Ident); ok {
		if _, ok := r.info.Uses[id].(*types.Builtin); ok {
			return s
		}
	}
	if tv, ok := r.info.Types[c.Fun]; ok && tv.IsType() {
		return s
	}
	fn := r.expr(c.Fun)
	r.exprs(c.Args)
	name := "GoCall"
	if c.Ellipsis.IsValid() {
		name = "GoCallSlice"
	}
	return &ast.ExprStmt{X: r.vsync(name, append([]ast.Expr{fn}, c.Args...)...)}
}

func (r *rewriter) selectStmt(s *ast.SelectStmt) ast.Stmt {
	if len(s.Body.List) == 0 {
		return s
	}
	var pre []ast.Stmt
	var names []ast.Expr
	var clauses []ast.Stmt
	def := "false"
	var defClause *ast.CaseClause
	for _, cl := range s.Body.List {
		cc := cl.(*ast.CommClause)
		body := cc.Body
		r.list(body)
		if cc.Comm == nil {
			def = "true"
			defClause = &ast.CaseClause{Body: body}
			continue
		}
		r.tmp++
		id := fmt.Sprintf("verif_c%d", r.tmp)
		var rhs ast.Expr
		switch comm := cc.Comm.(type) {
		case *ast.SendStmt:
			rhs = &ast.CallExpr{Fun: r.vsync("S", r.expr(comm.Chan)), Args: []ast.Expr{r.expr(comm.Value)}}
		case *ast.ExprStmt:
			rhs = r.vsync("R", r.expr(unparen(comm.X).(*ast.UnaryExpr).X))
		case *ast.AssignStmt:
			rhs = r.vsync("R", r.expr(unparen(comm.Rhs[0]).(*ast.UnaryExpr).X))
			vals := []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(id), Sel: ast.NewIdent("V")}}
			if len(comm.Lhs) == 2 {
				vals = append(vals, &ast.SelectorExpr{X: ast.NewIdent(id), Sel: ast.NewIdent("OK")})
			}
			body = append([]ast.Stmt{&ast.AssignStmt{Lhs: comm.Lhs, Tok: comm.Tok, Rhs: vals}}, body...)
		}
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(id)}, Tok: token.DEFINE, Rhs: []ast.Expr{rhs}})
		clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(len(names))}}, Body: body})
		names = append(names, ast.NewIdent(id))
	}
	if defClause != nil {
		clauses = append(clauses, defClause)
	} else { // so that the compiler sees that one clause is taken
		clauses[len(clauses)-1].(*ast.CaseClause).List = nil
	}
	sw := &ast.SwitchStmt{Tag: r.vsync("Select", append([]ast.Expr{ast.NewIdent(def)}, names...)...), Body: &ast.BlockStmt{List: clauses}}
	return &ast.BlockStmt{List: append(pre, sw)}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// expr returns the rewritten expression.
func (r *rewriter) expr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.FuncLit:
		r.block(e.Body)
	case *ast.CompositeLit:
		r.exprs(e.Elts)
	case *ast.ParenExpr:
		e.X = r.expr(e.X)
	case *ast.SelectorExpr:
		if x, ok := e.X.(*ast.Ident); ok {
			if pn, ok := r.info.Uses[x].(*types.PkgName); ok {
				if pn.Imported().Path() == "runtime" {
					switch e.Sel.Name {
					case "GOMAXPROCS", "NumCPU", "Gosched":
						r.used = true
						return &ast.SelectorExpr{X: ast.NewIdent(vs), Sel: e.Sel}
					}
				}
				return e
			}
		}
		e.X = r.expr(e.X)
	case *ast.IndexExpr:
		e.X, e.Index = r.expr(e.X), r.expr(e.Index)
	case *ast.SliceExpr:
		e.X = r.expr(e.X)
		e.Low, e.High, e.Max = r.opt(e.Low), r.opt(e.High), r.opt(e.Max)
	case *ast.TypeAssertExpr:
		e.X = r.expr(e.X)
	case *ast.CallExpr:
		if id, ok := e.Fun.(*ast.Ident); ok && id.Name == "close" && len(e.Args) == 1 {
			if _, ok := r.info.Uses[id].(*types.Builtin); ok {
				return r.vsync("Close", r.expr(e.Args[0]))
			}
		}
		e.Fun = r.expr(e.Fun)
		r.exprs(e.Args)
	case *ast.StarExpr:
		e.X = r.expr(e.X)
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			return r.vsync("Recv", r.expr(e.X))
		}
		e.X = r.expr(e.X)
	case *ast.BinaryExpr:
		e.X, e.Y = r.expr(e.X), r.expr(e.Y)
	case *ast.KeyValueExpr:
		e.Key, e.Value = r.expr(e.Key), r.expr(e.Value)
	}
	return e
}

func (r *rewriter) opt(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	return r.expr(e)
}
