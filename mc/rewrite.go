package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"math/bits"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
)

// rewriteMain writes an overlay in which the code under test uses the controlled scheduler (package sched) and
// batch sizes that the exploration chooses:
//
//	rewrite REPO OUTDIR features
//
// features: s(cheduler) p(oints at statements and iterations) b(atches) c(pus).
func rewriteMain(repo, out, features string) {
	mustNil(os.MkdirAll(out, 0o755))
	over := map[string]string{}
	first := true
	for _, pkg := range []string{"common", "lagrange", "phase1", "phase2", "keys"} {
		dir := filepath.Join(repo, pkg)
		fset := token.NewFileSet()
		names, _ := filepath.Glob(filepath.Join(dir, "*.go"))
		var files []*ast.File
		var paths []string
		for _, n := range names {
			if strings.HasSuffix(n, "_test.go") {
				continue
			}
			f, err := parser.ParseFile(fset, n, nil, 0)
			mustNil(err)
			files = append(files, f)
			paths = append(paths, n)
		}
		if len(files) == 0 {
			continue
		}
		// types, as far as they can be known without the imported packages
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
		conf := types.Config{Error: func(error) {}, Importer: fakeImporter{}, FakeImportC: true}
		conf.Check(pkg, fset, files, info)
		for i, f := range files {
			rw := &rewriter{fset: fset, info: info, features: features}
			rw.file(f)
			if first {
				rw.used = true
			}
			if !rw.used {
				continue
			}
			var b bytes.Buffer
			mustNil(format.Node(&b, fset, f))
			src := b.String()
			// imports and marker are added as text
			at := strings.Index(src, "package "+f.Name.Name) + len("package "+f.Name.Name)
			src = src[:at] + "\n\nimport verifsched \"verif/mc/sched\"\n" + src[at:]
			src += fmt.Sprintf("\nvar _ = verifsched.Mark(%d, %v)\n", rw.batches, rw.has("s"))
			for _, k := range rw.keep {
				src += "\nvar _ = " + k + "\n"
			}
			first = false
			p := filepath.Join(out, pkg+"_"+filepath.Base(paths[i]))
			mustNil(os.WriteFile(p, []byte(src), 0o644))
			over[paths[i]] = p
		}
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": over}, "", " ")
	mustNil(os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644))
}

type fakeImporter struct{}

func (fakeImporter) Import(path string) (*types.Package, error) {
	p := types.NewPackage(path, filepath.Base(path))
	p.MarkComplete()
	return p, nil
}

type rewriter struct {
	fset     *token.FileSet
	info     *types.Info
	features string
	used     bool
	batches  int
	keep     []string
	runtimeN string // name of package runtime in the file
	timeN    string
}

func (r *rewriter) has(f string) bool { return strings.Contains(r.features, f) }

func sel(name string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent("verifsched"), Sel: ast.NewIdent(name)}
}
func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }
func method(x ast.Expr, name string, args ...ast.Expr) *ast.CallExpr {
	return call(&ast.SelectorExpr{X: paren(x), Sel: ast.NewIdent(name)}, args...)
}
func paren(x ast.Expr) ast.Expr {
	switch x.(type) {
	case *ast.Ident, *ast.SelectorExpr, *ast.CallExpr, *ast.IndexExpr, *ast.ParenExpr:
		return x
	}
	return &ast.ParenExpr{X: x}
}

func (r *rewriter) file(f *ast.File) {
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		name := filepath.Base(path)
		if im.Name != nil {
			name = im.Name.Name
		}
		switch path {
		case "sync":
			if r.has("s") {
				im.Name = ast.NewIdent(name)
				im.Path.Value = `"verif/mc/sched/vsync"`
				r.used = true
			}
		case "sync/atomic":
			if r.has("s") {
				im.Name = ast.NewIdent(name)
				im.Path.Value = `"verif/mc/sched/vatomic"`
				r.used = true
			}
		case "runtime":
			r.runtimeN = name
		case "time":
			r.timeN = name
		}
	}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			r.fieldList(d.Recv)
			r.funcType(d.Type)
			if d.Body != nil {
				r.block(d.Body)
			}
		case *ast.GenDecl:
			r.genDecl(d, true)
		}
	}
	if r.runtimeN != "" && r.used {
		r.keep = append(r.keep, r.runtimeN+".NumCPU")
	}
	if r.timeN != "" && r.used {
		r.keep = append(r.keep, r.timeN+".Now")
	}
}

func (r *rewriter) genDecl(d *ast.GenDecl, top bool) {
	if d.Tok == token.IMPORT {
		return
	}
	for _, s := range d.Specs {
		switch s := s.(type) {
		case *ast.ValueSpec:
			s.Type = r.expr(s.Type)
			if d.Tok != token.CONST {
				for i := range s.Values {
					s.Values[i] = r.expr(s.Values[i])
				}
			}
		case *ast.TypeSpec:
			s.Type = r.expr(s.Type)
		}
	}
}

func (r *rewriter) fieldList(l *ast.FieldList) {
	if l == nil {
		return
	}
	for _, f := range l.List {
		f.Type = r.expr(f.Type)
	}
}
func (r *rewriter) funcType(t *ast.FuncType) { r.fieldList(t.Params); r.fieldList(t.Results) }

// constants that are batch sizes
var batchName = regexp.MustCompile(`(?i)batch|chunk|block|buf`)

func (r *rewriter) batchConst(x ast.Expr) (int64, bool) {
	if !r.has("b") {
		return 0, false
	}
	tv, ok := r.info.Types[x]
	if id, isID := x.(*ast.Ident); isID {
		if c, isC := r.info.Uses[id].(*types.Const); isC {
			if c.Val().Kind() != constant.Int && c.Val().Kind() != constant.Float {
				return 0, false
			}
			v, exact := constant.Int64Val(constant.ToInt(c.Val()))
			if exact && (v == 1<<20 || v >= 1<<14 && v <= 1<<27 && bits.OnesCount64(uint64(v)) == 1 && batchName.MatchString(id.Name)) {
				return v, true
			}
		}
		return 0, false
	}
	if !ok || tv.Value == nil || tv.Value.Kind() != constant.Int {
		return 0, false
	}
	if v, exact := constant.Int64Val(tv.Value); exact && v == 1<<20 {
		return v, true
	}
	return 0, false
}

func (r *rewriter) isChan(x ast.Expr) bool {
	tv, ok := r.info.Types[x]
	if !ok || tv.Type == nil {
		return false
	}
	_, is := tv.Type.Underlying().(*types.Chan)
	return is
}

func (r *rewriter) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = r.expr(l[i])
	}
}

func (r *rewriter) expr(x ast.Expr) ast.Expr {
	if x == nil {
		return nil
	}
	if v, ok := r.batchConst(x); ok {
		r.used = true
		r.batches++
		c := ast.Expr(call(sel("Batch"), &ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(v)}))
		if tv, ok := r.info.Types[x]; ok && tv.Type != nil {
			if b, isB := tv.Type.(*types.Basic); isB && b.Info()&types.IsUntyped == 0 && b.Info()&types.IsNumeric != 0 && b.Kind() != types.Int {
				c = call(ast.NewIdent(b.Name()), c)
			}
		}
		return c
	}
	switch x := x.(type) {
	case *ast.FuncLit:
		r.funcType(x.Type)
		r.block(x.Body)
	case *ast.CompositeLit:
		x.Type = r.expr(x.Type)
		r.exprs(x.Elts)
	case *ast.ParenExpr:
		x.X = r.expr(x.X)
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok && id.Obj == nil {
			if (r.has("s") || r.has("c")) && r.runtimeN != "" && id.Name == r.runtimeN {
				switch x.Sel.Name {
				case "NumCPU", "GOMAXPROCS":
					r.used = true
					return sel(x.Sel.Name)
				case "Gosched":
					if r.has("s") {
						r.used = true
						return sel("Gosched")
					}
				}
				return x
			}
			if r.has("s") && r.timeN != "" && id.Name == r.timeN && x.Sel.Name == "Sleep" {
				r.used = true
				return sel("Sleep")
			}
		}
		x.X = r.expr(x.X)
	case *ast.IndexExpr:
		x.X = r.expr(x.X)
		x.Index = r.expr(x.Index)
	case *ast.IndexListExpr:
		x.X = r.expr(x.X)
		r.exprs(x.Indices)
	case *ast.SliceExpr:
		x.X = r.expr(x.X)
		x.Low = r.expr(x.Low)
		x.High = r.expr(x.High)
		x.Max = r.expr(x.Max)
	case *ast.TypeAssertExpr:
		x.X = r.expr(x.X)
		x.Type = r.expr(x.Type)
	case *ast.CallExpr:
		if r.has("s") {
			if id, ok := x.Fun.(*ast.Ident); ok && id.Obj == nil {
				switch {
				case id.Name == "make" && len(x.Args) >= 1:
					if ct := chanTypeOf(x.Args[0]); ct != nil {
						r.used = true
						for i := 1; i < len(x.Args); i++ {
							x.Args[i] = call(ast.NewIdent("int"), r.expr(x.Args[i]))
						}
						return call(&ast.IndexExpr{X: sel("MakeChan"), Index: r.expr(ct.Value)}, x.Args[1:]...)
					}
				case id.Name == "close" && len(x.Args) == 1:
					r.used = true
					return method(r.expr(x.Args[0]), "Close")
				case (id.Name == "len" || id.Name == "cap") && len(x.Args) == 1 && r.isChan(x.Args[0]):
					n := map[string]string{"len": "Len", "cap": "Cap"}[id.Name]
					return method(r.expr(x.Args[0]), n)
				}
			}
		}
		x.Fun = r.expr(x.Fun)
		r.exprs(x.Args)
	case *ast.StarExpr:
		x.X = r.expr(x.X)
	case *ast.UnaryExpr:
		if x.Op == token.ARROW && r.has("s") {
			r.used = true
			return method(r.expr(x.X), "Recv")
		}
		x.X = r.expr(x.X)
	case *ast.BinaryExpr:
		x.X = r.expr(x.X)
		x.Y = r.expr(x.Y)
	case *ast.KeyValueExpr:
		if _, isID := x.Key.(*ast.Ident); !isID {
			x.Key = r.expr(x.Key)
		}
		x.Value = r.expr(x.Value)
	case *ast.ArrayType:
		x.Elt = r.expr(x.Elt)
	case *ast.StructType:
		r.fieldList(x.Fields)
	case *ast.FuncType:
		r.funcType(x)
	case *ast.InterfaceType:
	case *ast.MapType:
		x.Key = r.expr(x.Key)
		x.Value = r.expr(x.Value)
	case *ast.Ellipsis:
		x.Elt = r.expr(x.Elt)
	case *ast.ChanType:
		if r.has("s") {
			r.used = true
			return &ast.StarExpr{X: &ast.IndexExpr{X: sel("Chan"), Index: r.expr(x.Value)}}
		}
	}
	return x
}

func chanTypeOf(x ast.Expr) *ast.ChanType {
	for {
		switch t := x.(type) {
		case *ast.ParenExpr:
			x = t.X
			continue
		case *ast.ChanType:
			return t
		}
		return nil
	}
}

func (r *rewriter) pointStmt(name string) ast.Stmt {
	r.used = true
	return &ast.ExprStmt{X: call(sel(name))}
}

func (r *rewriter) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = r.stmts(b.List)
	}
}

func (r *rewriter) stmts(l []ast.Stmt) []ast.Stmt {
	var o []ast.Stmt
	for _, s := range l {
		if r.has("p") {
			switch s.(type) {
			case *ast.DeclStmt, *ast.EmptyStmt, *ast.BranchStmt, *ast.CaseClause, *ast.CommClause:
			default:
				o = append(o, r.pointStmt("PointS"))
			}
		}
		o = append(o, r.stmt(s))
	}
	return o
}

func (r *rewriter) loopBody(b *ast.BlockStmt) {
	r.block(b)
	if r.has("p") {
		b.List = append([]ast.Stmt{r.pointStmt("PointL")}, b.List...)
	}
}

func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok {
			r.genDecl(g, false)
			if g.Tok == token.CONST && r.has("b") {
				return s // its uses may be gone, which is no error for a constant
			}
		}
	case *ast.LabeledStmt:
		s.Stmt = r.stmt(s.Stmt)
	case *ast.ExprStmt:
		s.X = r.expr(s.X)
	case *ast.SendStmt:
		if r.has("s") {
			r.used = true
			return &ast.ExprStmt{X: method(r.expr(s.Chan), "Send", r.expr(s.Value))}
		}
		s.Chan, s.Value = r.expr(s.Chan), r.expr(s.Value)
	case *ast.IncDecStmt:
		s.X = r.expr(s.X)
	case *ast.AssignStmt:
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 && r.has("s") {
			if u, ok := s.Rhs[0].(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				r.used = true
				r.exprs(s.Lhs)
				s.Rhs[0] = method(r.expr(u.X), "Recv2")
				return s
			}
		}
		r.exprs(s.Lhs)
		r.exprs(s.Rhs)
	case *ast.GoStmt:
		if !r.has("s") {
			s.Call = r.expr(s.Call).(*ast.CallExpr)
			return s
		}
		r.used = true
		if id, ok := s.Call.Fun.(*ast.Ident); ok && id.Obj == nil && id.Name == "close" {
			c := r.expr(s.Call).(*ast.CallExpr)
			return &ast.ExprStmt{X: call(sel("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: c}}}})}
		}
		c, ok := r.expr(s.Call).(*ast.CallExpr)
		mustf(ok, "go statement")
		n := "Go"
		if len(c.Args) > 0 {
			n = fmt.Sprintf("Go%d", len(c.Args))
		}
		return &ast.ExprStmt{X: call(sel(n), append([]ast.Expr{c.Fun}, c.Args...)...)}
	case *ast.DeferStmt:
		if c, ok := r.expr(s.Call).(*ast.CallExpr); ok {
			s.Call = c
		}
	case *ast.ReturnStmt:
		r.exprs(s.Results)
	case *ast.BlockStmt:
		r.block(s)
	case *ast.IfStmt:
		if s.Init != nil {
			s.Init = r.stmt(s.Init)
		}
		s.Cond = r.expr(s.Cond)
		r.block(s.Body)
		if s.Else != nil {
			s.Else = r.stmt(s.Else)
		}
	case *ast.CaseClause:
		r.exprs(s.List)
		s.Body = r.stmts(s.Body)
	case *ast.SwitchStmt:
		if s.Init != nil {
			s.Init = r.stmt(s.Init)
		}
		s.Tag = r.expr(s.Tag)
		for i := range s.Body.List {
			s.Body.List[i] = r.stmt(s.Body.List[i])
		}
	case *ast.TypeSwitchStmt:
		if s.Init != nil {
			s.Init = r.stmt(s.Init)
		}
		s.Assign = r.stmt(s.Assign)
		for i := range s.Body.List {
			s.Body.List[i] = r.stmt(s.Body.List[i])
		}
	case *ast.SelectStmt:
		if r.has("s") {
			return r.selectStmt(s)
		}
		for _, c := range s.Body.List {
			cc := c.(*ast.CommClause)
			cc.Body = r.stmts(cc.Body)
		}
	case *ast.ForStmt:
		if s.Init != nil {
			s.Init = r.stmt(s.Init)
		}
		s.Cond = r.expr(s.Cond)
		if s.Post != nil {
			s.Post = r.stmt(s.Post)
		}
		r.loopBody(s.Body)
	case *ast.RangeStmt:
		if r.has("s") && r.isChan(s.X) {
			r.used = true
			v, tok := ast.Expr(ast.NewIdent("_")), token.DEFINE
			if s.Key != nil {
				v, tok = s.Key, s.Tok
			}
			ok := ast.NewIdent("verifOK")
			x := r.expr(s.X)
			r.loopBody(s.Body)
			recv := &ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{method(x, "Recv2")}}
			var pre []ast.Stmt
			if tok == token.ASSIGN {
				pre = append(pre, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ok}, Type: ast.NewIdent("bool")}}}})
				recv.Tok = token.ASSIGN
			}
			pre = append(pre, recv, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}})
			return &ast.ForStmt{Body: &ast.BlockStmt{List: append(pre, s.Body.List...)}}
		}
		s.X = r.expr(s.X)
		r.loopBody(s.Body)
	}
	return s
}

func (r *rewriter) selectStmt(s *ast.SelectStmt) ast.Stmt {
	r.used = true
	def := ast.NewIdent("false")
	var args []ast.Expr
	var clauses []ast.Stmt
	i := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		body := r.stmts(cc.Body)
		if cc.Comm == nil {
			def.Name = "true"
			clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "-1"}}, Body: body})
			continue
		}
		switch m := cc.Comm.(type) {
		case *ast.SendStmt:
			args = append(args, call(sel("SendCase"), r.expr(m.Chan), r.expr(m.Value)))
		case *ast.ExprStmt:
			ch := m.X.(*ast.UnaryExpr).X
			args = append(args, call(sel("RecvCase"), r.expr(ch)))
		case *ast.AssignStmt:
			ch := r.expr(m.Rhs[0].(*ast.UnaryExpr).X)
			args = append(args, call(sel("RecvCase"), ch))
			n := "Got"
			if len(m.Lhs) == 2 {
				n = "Got2"
			}
			body = append([]ast.Stmt{&ast.AssignStmt{Lhs: m.Lhs, Tok: m.Tok, Rhs: []ast.Expr{method(ch, n)}}}, body...)
		}
		clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(i)}}, Body: body})
		i++
	}
	return &ast.SwitchStmt{Tag: call(sel("Select"), append([]ast.Expr{def}, args...)...), Body: &ast.BlockStmt{List: clauses}}
}
