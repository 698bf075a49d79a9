// refactor rewrites the program in a scratch copy in a way that keeps its behaviour, to see whether the checks stay
// quiet: refactor -dir DIR -t NAME [-file SUBSTR] [-fn NAME]. It prints the functions it touched.
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

type ctx struct {
	fset  *token.FileSet
	info  *types.Info
	pkg   *types.Package
	file  *ast.File
	n     int
	sites map[string]int
	fn    string
	decls []ast.Decl
}

var onlyFn, onlyFile string
var which int

func main() {
	dir := flag.String("dir", "", "")
	tr := flag.String("t", "", "")
	flag.StringVar(&onlyFn, "fn", "", "")
	flag.StringVar(&onlyFile, "file", "", "")
	flag.Parse()
	fset := token.NewFileSet()
	pkgs, err := packages.Load(&packages.Config{Dir: *dir, Fset: fset, Mode: packages.NeedName | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedFiles | packages.NeedImports | packages.NeedDeps}, "./...")
	if err != nil {
		panic(err)
	}
	sites := map[string]int{}
	for _, p := range pkgs {
		if strings.Contains(p.PkgPath, "thelper") {
			continue
		}
		for _, f := range p.Syntax {
			name := fset.Position(f.Pos()).Filename
			if onlyFile != "" && !strings.Contains(name, onlyFile) {
				continue
			}
			if ast.IsGenerated(f) || strings.Contains(name, "/injection/") {
				continue
			}
			c := &ctx{fset: fset, info: p.TypesInfo, pkg: p.Types, file: f, sites: sites}
			before := c.n
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil || onlyFn != "" && fd.Name.Name != onlyFn {
					continue
				}
				c.fn = strings.TrimPrefix(name, *dir+"/") + ":" + fd.Name.Name
				c.rewrite(*tr, fd)
			}
			if c.n == before {
				continue
			}
			f.Decls = append(f.Decls, c.decls...)
			// positions of comments no longer fit: keep those before the package clause and directives
			var keep []*ast.CommentGroup
			for _, g := range f.Comments {
				dirv := false
				for _, x := range g.List {
					if strings.HasPrefix(x.Text, "//go:") {
						dirv = true
					}
				}
				if dirv {
					keep = append(keep, g)
				}
			}
			f.Comments = keep
			var b bytes.Buffer
			if err := format.Node(&b, fset, f); err != nil {
				panic(name + ": " + err.Error())
			}
			if err := os.WriteFile(name, b.Bytes(), 0o644); err != nil {
				panic(err)
			}
		}
	}
	var ks []string
	for k := range sites {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Println(k, sites[k])
	}
}

func (c *ctx) hit() int {
	c.n++
	c.sites[c.fn]++
	return c.n
}

func (c *ctx) fresh() *ast.Ident { return ast.NewIdent(fmt.Sprintf("zz%d", c.n)) }

func define(l []ast.Expr, r ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: l, Tok: token.DEFINE, Rhs: []ast.Expr{r}}
}

func (c *ctx) rewrite(tr string, fd *ast.FuncDecl) {
	body := func(f func(*astutil.Cursor) bool) { astutil.Apply(fd.Body, nil, f) }
	switch tr {
	case "invert": // if c {A} else {B}  =>  if !c {B} else {A}
		body(func(k *astutil.Cursor) bool {
			s, ok := k.Node().(*ast.IfStmt)
			if !ok {
				return true
			}
			el, isBlock := s.Else.(*ast.BlockStmt)
			if s.Else != nil && !isBlock {
				return true
			}
			if s.Else == nil {
				el = &ast.BlockStmt{}
			}
			c.hit()
			s.Cond = c.not(s.Cond)
			s.Body, s.Else = el, s.Body
			return true
		})
	case "nest": // if c {A; return}; rest  =>  if c {A; return} else {rest}
		body(func(k *astutil.Cursor) bool {
			b, ok := k.Node().(*ast.BlockStmt)
			if !ok {
				return true
			}
			for i := len(b.List) - 2; i >= 0; i-- {
				s, ok := b.List[i].(*ast.IfStmt)
				if !ok || s.Else != nil || len(s.Body.List) == 0 || !ends(s.Body) || s.Init != nil {
					continue
				}
				if !ends(&ast.BlockStmt{List: b.List[i+1:]}) {
					continue
				}
				c.hit()
				s.Else = &ast.BlockStmt{List: append([]ast.Stmt{}, b.List[i+1:]...)}
				b.List = b.List[:i+1]
			}
			return true
		})
	case "init": // if x := f(); c {..}  =>  { x := f(); if c {..} }
		body(func(k *astutil.Cursor) bool {
			s, ok := k.Node().(*ast.IfStmt)
			if !ok || s.Init == nil {
				return true
			}
			c.hit()
			in := s.Init
			s.Init = nil
			k.Replace(&ast.BlockStmt{List: []ast.Stmt{in, s}})
			return true
		})
	case "index": // for _, x := range s {..}  =>  for i := 0; i < len(s); i++ { x := s[i]; .. }
		body(func(k *astutil.Cursor) bool {
			s, ok := k.Node().(*ast.RangeStmt)
			if !ok || s.Tok != token.DEFINE {
				return true
			}
			if _, ok := k.Parent().(*ast.LabeledStmt); ok {
				return true
			}
			t := c.info.TypeOf(s.X)
			if t == nil {
				return true
			}
			if _, ok := t.Underlying().(*types.Slice); !ok {
				return true
			}
			c.hit()
			coll, i := c.fresh(), ast.NewIdent(fmt.Sprintf("zi%d", c.n))
			var pre []ast.Stmt
			if id, ok := s.Key.(*ast.Ident); ok && id.Name != "_" {
				pre = append(pre, define([]ast.Expr{id}, i))
			}
			if id, ok := s.Value.(*ast.Ident); ok && id.Name != "_" {
				pre = append(pre, define([]ast.Expr{id}, &ast.IndexExpr{X: coll, Index: i}))
			}
			s.Body.List = append(pre, s.Body.List...)
			k.Replace(&ast.BlockStmt{List: []ast.Stmt{
				define([]ast.Expr{coll}, s.X),
				&ast.ForStmt{Init: define([]ast.Expr{i}, &ast.BasicLit{Kind: token.INT, Value: "0"}),
					Cond: &ast.BinaryExpr{X: i, Op: token.LSS, Y: &ast.CallExpr{Fun: ast.NewIdent("len"), Args: []ast.Expr{coll}}},
					Post: &ast.IncDecStmt{X: i, Tok: token.INC}, Body: s.Body}}})
			return true
		})
	case "args": // f(g(x))  =>  t := g(x); f(t), for statements
		c.stmts(fd, func(s ast.Stmt) []ast.Stmt {
			var call *ast.CallExpr
			switch x := s.(type) {
			case *ast.ExprStmt:
				call, _ = x.X.(*ast.CallExpr)
			case *ast.AssignStmt:
				if len(x.Rhs) == 1 {
					call, _ = x.Rhs[0].(*ast.CallExpr)
				}
			case *ast.ReturnStmt:
				if len(x.Results) == 1 {
					call, _ = x.Results[0].(*ast.CallExpr)
				}
			}
			if call == nil || c.info.Types[call.Fun].IsType() || c.info.Types[call.Fun].IsBuiltin() {
				return nil
			}
			var pre []ast.Stmt
			for i, a := range call.Args {
				tv := c.info.Types[a]
				if tv.Value != nil || tv.IsNil() || tv.Type == nil {
					continue
				}
				if _, ok := tv.Type.(*types.Tuple); ok {
					continue
				}
				if _, ok := a.(*ast.Ident); ok {
					continue
				}
				if _, ok := a.(*ast.FuncLit); ok {
					continue
				}
				c.hit()
				v := c.fresh()
				pre = append(pre, define([]ast.Expr{v}, a))
				call.Args[i] = v
			}
			return append(pre, s)
		}, true)
	case "ret": // return f(x), nil  =>  r1, r2 := ...: single results only
		c.stmts(fd, func(s ast.Stmt) []ast.Stmt {
			x, ok := s.(*ast.ReturnStmt)
			if !ok {
				return nil
			}
			var pre []ast.Stmt
			for i, e := range x.Results {
				tv := c.info.Types[e]
				if tv.Value != nil || tv.IsNil() || tv.Type == nil {
					continue
				}
				if _, ok := tv.Type.(*types.Tuple); ok {
					return nil
				}
				if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
					continue
				}
				if _, ok := e.(*ast.Ident); ok {
					continue
				}
				c.hit()
				v := c.fresh()
				pre = append(pre, define([]ast.Expr{v}, e))
				x.Results[i] = v
			}
			return append(pre, s)
		}, false)
	case "cond": // if c {  =>  b := c; if b {
		c.stmts(fd, func(s ast.Stmt) []ast.Stmt {
			x, ok := s.(*ast.IfStmt)
			if !ok || x.Init != nil {
				return nil
			}
			if _, ok := x.Cond.(*ast.Ident); ok {
				return nil
			}
			c.hit()
			v := c.fresh()
			pre := define([]ast.Expr{v}, x.Cond)
			x.Cond = v
			return []ast.Stmt{pre, s}
		}, true)
	case "flip": // a == b  =>  b == a; a < b => b > a
		body(func(k *astutil.Cursor) bool {
			b, ok := k.Node().(*ast.BinaryExpr)
			if !ok {
				return true
			}
			m := map[token.Token]token.Token{token.EQL: token.EQL, token.NEQ: token.NEQ, token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}
			if op, ok := m[b.Op]; ok {
				c.hit()
				b.X, b.Y, b.Op = b.Y, b.X, op
			}
			return true
		})
	case "morgan":
		body(func(k *astutil.Cursor) bool {
			b, ok := k.Node().(*ast.BinaryExpr)
			if !ok || b.Op != token.LAND && b.Op != token.LOR {
				return true
			}
			c.hit()
			op := token.LAND
			if b.Op == token.LAND {
				op = token.LOR
			}
			k.Replace(&ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: &ast.BinaryExpr{X: c.not(b.X), Op: op, Y: c.not(b.Y)}}})
			return true
		})
	case "split": // if a && b {A}  =>  if a { if b {A} }
		body(func(k *astutil.Cursor) bool {
			s, ok := k.Node().(*ast.IfStmt)
			if !ok || s.Else != nil {
				return true
			}
			b, ok := s.Cond.(*ast.BinaryExpr)
			if !ok || b.Op != token.LAND {
				return true
			}
			c.hit()
			s.Cond = b.X
			s.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.IfStmt{Cond: b.Y, Body: s.Body}}}
			return true
		})
	case "literal": // x := &T{A: a}  =>  x := new(T); x.A = a   (returns and definitions)
		c.stmts(fd, func(s ast.Stmt) []ast.Stmt {
			var e *ast.Expr
			switch x := s.(type) {
			case *ast.AssignStmt:
				if len(x.Rhs) == 1 && len(x.Lhs) == 1 {
					e = &x.Rhs[0]
				}
			case *ast.ReturnStmt:
				for i := range x.Results {
					if u, ok := x.Results[i].(*ast.UnaryExpr); ok && u.Op == token.AND {
						e = &x.Results[i]
						break
					}
				}
			}
			if e == nil {
				return nil
			}
			u, ok := (*e).(*ast.UnaryExpr)
			if !ok || u.Op != token.AND {
				return nil
			}
			lit, ok := u.X.(*ast.CompositeLit)
			if !ok || len(lit.Elts) == 0 {
				return nil
			}
			if _, ok := c.info.TypeOf(lit).Underlying().(*types.Struct); !ok {
				return nil
			}
			for _, x := range lit.Elts {
				if _, ok := x.(*ast.KeyValueExpr); !ok {
					return nil
				}
			}
			c.hit()
			v := c.fresh()
			res := []ast.Stmt{define([]ast.Expr{v}, &ast.UnaryExpr{Op: token.AND, X: &ast.CompositeLit{Type: lit.Type}})}
			for _, x := range lit.Elts {
				kv := x.(*ast.KeyValueExpr)
				res = append(res, &ast.AssignStmt{Lhs: []ast.Expr{&ast.SelectorExpr{X: v, Sel: kv.Key.(*ast.Ident)}}, Tok: token.ASSIGN, Rhs: []ast.Expr{kv.Value}})
			}
			*e = v
			return append(res, s)
		}, true)
	case "block": // statements of a loop's or if's body in a closure called at once, where nothing leaves it
		body(func(k *astutil.Cursor) bool {
			b, ok := k.Node().(*ast.BlockStmt)
			if !ok || len(b.List) == 0 || leaves(b) || b == fd.Body {
				return true
			}
			switch k.Parent().(type) {
			case *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt:
			default:
				return true
			}
			c.hit()
			b.List = []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: b.List}}}}}
			return true
		})
	case "delegate": // the function hands everything to a helper
		if fd.Name.Name == "main" || fd.Name.Name == "init" || fd.Type.TypeParams != nil {
			return
		}
		if fd.Recv != nil && (len(fd.Recv.List[0].Names) == 0 || fd.Recv.List[0].Names[0].Name == "_") {
			return
		}
		var args []ast.Expr
		dots := false
		for _, p := range fd.Type.Params.List {
			if len(p.Names) == 0 {
				return
			}
			for _, n := range p.Names {
				if n.Name == "_" {
					return
				}
				args = append(args, ast.NewIdent(n.Name))
			}
			if _, ok := p.Type.(*ast.Ellipsis); ok {
				dots = true
			}
		}
		c.hit()
		name := ast.NewIdent("zzDo" + fd.Name.Name)
		var fun ast.Expr = name
		if fd.Recv != nil {
			fun = &ast.SelectorExpr{X: ast.NewIdent(fd.Recv.List[0].Names[0].Name), Sel: name}
		}
		call := &ast.CallExpr{Fun: fun, Args: args}
		if dots {
			call.Ellipsis = 1
		}
		var s ast.Stmt = &ast.ExprStmt{X: call}
		if fd.Type.Results != nil && len(fd.Type.Results.List) > 0 {
			s = &ast.ReturnStmt{Results: []ast.Expr{call}}
		}
		c.decls = append(c.decls, &ast.FuncDecl{Recv: fd.Recv, Name: name, Type: fd.Type, Body: fd.Body})
		fd.Body = &ast.BlockStmt{List: []ast.Stmt{s}}
	case "single": // one return at the end: results in variables, by a closure
		if fd.Type.Results == nil || len(fd.Type.Results.List) == 0 || len(fd.Type.Results.List[0].Names) > 0 {
			return
		}
		c.hit()
		var vs []ast.Expr
		for i := range fd.Type.Results.List {
			vs = append(vs, ast.NewIdent(fmt.Sprintf("zr%d", i)))
		}
		fd.Body = &ast.BlockStmt{List: []ast.Stmt{
			define(vs, &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}, Results: fd.Type.Results}, Body: fd.Body}}),
			&ast.ReturnStmt{Results: vs}}}
	case "named": // named results and bare returns at the end
		if fd.Type.Results == nil || len(fd.Type.Results.List) == 0 || len(fd.Type.Results.List[0].Names) > 0 {
			return
		}
		c.hit()
		var vs []ast.Expr
		nf := &ast.FieldList{}
		for i, f := range fd.Type.Results.List {
			id := ast.NewIdent(fmt.Sprintf("zr%d", i))
			vs = append(vs, id)
			nf.List = append(nf.List, &ast.Field{Names: []*ast.Ident{id}, Type: f.Type})
		}
		fd.Type = &ast.FuncType{Params: fd.Type.Params, Results: nf, TypeParams: fd.Type.TypeParams}
		astutil.Apply(fd.Body, func(k *astutil.Cursor) bool {
			_, lit := k.Node().(*ast.FuncLit)
			return !lit
		}, func(k *astutil.Cursor) bool {
			r, ok := k.Node().(*ast.ReturnStmt)
			if !ok || len(r.Results) == 0 {
				return true
			}
			k.Replace(&ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: vs, Tok: token.ASSIGN, Rhs: r.Results}, &ast.ReturnStmt{}}})
			return true
		})
	case "switch": // type switches and switches into chains of ifs: value switches without fallthrough or break
		body(func(k *astutil.Cursor) bool {
			s, ok := k.Node().(*ast.SwitchStmt)
			if !ok || s.Init != nil || leavesSwitch(s.Body) {
				return true
			}
			if _, ok := k.Parent().(*ast.LabeledStmt); ok {
				return true
			}
			c.hit()
			v := c.fresh()
			var pre []ast.Stmt
			if s.Tag != nil {
				pre = append(pre, define([]ast.Expr{v}, s.Tag))
			}
			var def *ast.BlockStmt
			var first, last *ast.IfStmt
			for _, st := range s.Body.List {
				cc := st.(*ast.CaseClause)
				if cc.List == nil {
					def = &ast.BlockStmt{List: cc.Body}
					continue
				}
				var cond ast.Expr
				for _, e := range cc.List {
					x := e
					if s.Tag != nil {
						x = &ast.BinaryExpr{X: v, Op: token.EQL, Y: e}
					}
					if cond == nil {
						cond = x
					} else {
						cond = &ast.BinaryExpr{X: cond, Op: token.LOR, Y: x}
					}
				}
				f := &ast.IfStmt{Cond: cond, Body: &ast.BlockStmt{List: cc.Body}}
				if first == nil {
					first = f
				} else {
					last.Else = f
				}
				last = f
			}
			if first == nil {
				return true
			}
			if def != nil {
				last.Else = def
			}
			k.Replace(&ast.BlockStmt{List: append(pre, first)})
			return true
		})
	case "concat": // a + b on strings  =>  fmt-free join: strings.Join is another import, so a helper
		body(func(k *astutil.Cursor) bool {
			b, ok := k.Node().(*ast.BinaryExpr)
			if !ok || b.Op != token.ADD || c.info.Types[b].Value != nil {
				return true
			}
			t, ok := c.info.TypeOf(b).(*types.Basic)
			if !ok || t.Info()&types.IsString == 0 {
				return true
			}
			c.hit()
			k.Replace(&ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{
				Params:  &ast.FieldList{List: []*ast.Field{{Names: []*ast.Ident{ast.NewIdent("a"), ast.NewIdent("b")}, Type: ast.NewIdent("string")}}},
				Results: &ast.FieldList{List: []*ast.Field{{Type: ast.NewIdent("string")}}}},
				Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{&ast.BinaryExpr{X: ast.NewIdent("a"), Op: token.ADD, Y: ast.NewIdent("b")}}}}}},
				Args: []ast.Expr{b.X, b.Y}})
			return true
		})
	case "append": // s = append(s, x)  =>  e := x; t := append(s, e); s = t
		c.stmts(fd, func(s ast.Stmt) []ast.Stmt {
			x, ok := s.(*ast.AssignStmt)
			if !ok || x.Tok != token.ASSIGN || len(x.Lhs) != 1 || len(x.Rhs) != 1 {
				return nil
			}
			call, ok := x.Rhs[0].(*ast.CallExpr)
			if !ok {
				return nil
			}
			if id, ok := call.Fun.(*ast.Ident); !ok || id.Name != "append" || len(call.Args) != 2 {
				return nil
			}
			c.hit()
			v := c.fresh()
			x.Rhs[0] = v
			return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{define([]ast.Expr{v}, call), s}}}
		}, true)
	case "labels": // for c {..}  =>  for { if !c {break}; .. }
		body(func(k *astutil.Cursor) bool {
			s, ok := k.Node().(*ast.ForStmt)
			if !ok || s.Cond == nil {
				return true
			}
			c.hit()
			s.Body.List = append([]ast.Stmt{&ast.IfStmt{Cond: c.not(s.Cond), Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}}, s.Body.List...)
			s.Cond = nil
			return true
		})
	case "continue": // for .. { if c {A} }  =>  for .. { if !c {continue}; A }
		body(func(k *astutil.Cursor) bool {
			var b *ast.BlockStmt
			switch s := k.Node().(type) {
			case *ast.ForStmt:
				b = s.Body
			case *ast.RangeStmt:
				b = s.Body
			default:
				return true
			}
			if len(b.List) == 0 {
				return true
			}
			s, ok := b.List[len(b.List)-1].(*ast.IfStmt)
			if !ok || s.Else != nil || s.Init != nil {
				return true
			}
			c.hit()
			b.List = append(b.List[:len(b.List)-1], &ast.IfStmt{Cond: c.not(s.Cond), Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}})
			b.List = append(b.List, s.Body.List...)
			return true
		})
	case "expr": // conditions and values computed by helpers
		if fd.Type.TypeParams != nil || generic(fd) {
			return
		}
		helper := func(e *ast.Expr) {
			switch x := (*e).(type) {
			case *ast.BinaryExpr:
				if id, ok := x.Y.(*ast.Ident); ok && id.Name == "nil" {
					return
				}
			case *ast.CallExpr:
			default:
				return
			}
			tv := c.info.Types[*e]
			if tv.Value != nil || tv.Type == nil {
				return
			}
			if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 && b.Kind() != types.UntypedBool {
				return
			}
			t := types.Default(tv.Type)
			var res []types.Type
			if tu, ok := t.(*types.Tuple); ok {
				for i := 0; i < tu.Len(); i++ {
					res = append(res, tu.At(i).Type())
				}
			} else {
				res = append(res, t)
			}
			if call := c.extract(fd, []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{*e}}}, res, *e); call != nil {
				*e = call
			}
		}
		body(func(k *astutil.Cursor) bool {
			switch x := k.Node().(type) {
			case *ast.IfStmt:
				helper(&x.Cond)
			case *ast.AssignStmt:
				if len(x.Rhs) == 1 && (x.Tok == token.ASSIGN || x.Tok == token.DEFINE) {
					if call, ok := x.Rhs[0].(*ast.CallExpr); ok && c.info.Types[call.Fun].IsBuiltin() {
						return true
					}
					helper(&x.Rhs[0])
				}
			}
			return true
		})
	case "ifret", "tail":
		if fd.Type.TypeParams != nil || generic(fd) || fd.Type.Results != nil && len(fd.Type.Results.List) > 0 && len(fd.Type.Results.List[0].Names) > 0 {
			return
		}
		var res []types.Type
		sig := c.info.Defs[fd.Name].Type().(*types.Signature)
		for i := 0; i < sig.Results().Len(); i++ {
			res = append(res, sig.Results().At(i).Type())
		}
		if hasLabels(fd.Body) {
			return
		}
		do := func(l []ast.Stmt) []ast.Stmt {
			call := c.extract(fd, l, res, &ast.BlockStmt{List: l, Lbrace: l[0].Pos(), Rbrace: l[len(l)-1].End()})
			if call == nil {
				return nil
			}
			if len(res) == 0 {
				return []ast.Stmt{&ast.ExprStmt{X: call}}
			}
			return []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{call}}}
		}
		if tr == "tail" {
			n := len(fd.Body.List)
			if n < 3 {
				return
			}
			for _, st := range fd.Body.List[:n/2] {
				lit := false
				ast.Inspect(st, func(x ast.Node) bool {
					if _, ok := x.(*ast.FuncLit); ok {
						lit = true
					}
					return true
				})
				if lit {
					return
				}
			}
			if l := do(fd.Body.List[n/2:]); l != nil {
				fd.Body.List = append(append([]ast.Stmt{}, fd.Body.List[:n/2]...), l...)
			}
			return
		}
		astutil.Apply(fd.Body, func(k *astutil.Cursor) bool {
			_, lit := k.Node().(*ast.FuncLit)
			return !lit
		}, func(k *astutil.Cursor) bool {
			s, ok := k.Node().(*ast.IfStmt)
			if !ok || len(s.Body.List) == 0 || len(res) == 0 {
				return true
			}
			if _, ok := s.Body.List[len(s.Body.List)-1].(*ast.ReturnStmt); !ok {
				return true
			}
			if br := false; true {
				ast.Inspect(s.Body, func(n ast.Node) bool {
					if _, ok := n.(*ast.BranchStmt); ok {
						br = true
					}
					return true
				})
				if br {
					return true
				}
			}
			if l := do(s.Body.List); l != nil {
				s.Body.List = l
			}
			return true
		})
	default:
		panic("unknown " + tr)
	}
}

// stmts rewrites statements of lists. With simple, only in blocks and clauses.
func (c *ctx) stmts(fd *ast.FuncDecl, f func(ast.Stmt) []ast.Stmt, simple bool) {
	do := func(l []ast.Stmt) []ast.Stmt {
		var res []ast.Stmt
		for _, s := range l {
			if n := f(s); n != nil {
				res = append(res, n...)
			} else {
				res = append(res, s)
			}
		}
		return res
	}
	astutil.Apply(fd.Body, nil, func(k *astutil.Cursor) bool {
		switch x := k.Node().(type) {
		case *ast.BlockStmt:
			x.List = do(x.List)
		case *ast.CaseClause:
			x.Body = do(x.Body)
		case *ast.CommClause:
			x.Body = do(x.Body)
		}
		return true
	})
}

func (c *ctx) not(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return c.not(x.X)
	case *ast.UnaryExpr:
		if x.Op == token.NOT {
			return x.X
		}
	case *ast.BinaryExpr:
		m := map[token.Token]token.Token{token.EQL: token.NEQ, token.NEQ: token.EQL, token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR}
		if op, ok := m[x.Op]; ok {
			if b, ok := c.info.TypeOf(x.X).Underlying().(*types.Basic); op == token.EQL || op == token.NEQ || ok && b.Info()&types.IsFloat == 0 {
				return &ast.BinaryExpr{X: x.X, Op: op, Y: x.Y}
			}
		}
	}
	return &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: e}}
}

func ends(b *ast.BlockStmt) bool {
	if len(b.List) == 0 {
		return false
	}
	switch s := b.List[len(b.List)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.IfStmt:
		if el, ok := s.Else.(*ast.BlockStmt); ok {
			return ends(s.Body) && ends(el)
		}
	}
	return false
}

func leaves(b *ast.BlockStmt) bool {
	bad := false
	ast.Inspect(b, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.ReturnStmt, *ast.BranchStmt, *ast.DeferStmt:
			bad = true
		}
		return true
	})
	return bad
}

func leavesSwitch(b *ast.BlockStmt) bool {
	bad := false
	ast.Inspect(b, func(n ast.Node) bool {
		switch s := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.BranchStmt:
			if s.Tok == token.BREAK || s.Tok == token.FALLTHROUGH {
				bad = true
			}
		}
		return true
	})
	return bad
}

func generic(fd *ast.FuncDecl) bool {
	if fd.Recv == nil {
		return false
	}
	t := fd.Recv.List[0].Type
	if st, ok := t.(*ast.StarExpr); ok {
		t = st.X
	}
	switch t.(type) {
	case *ast.IndexExpr, *ast.IndexListExpr:
		return true
	}
	return false
}

func hasLabels(b *ast.BlockStmt) bool {
	bad := false
	ast.Inspect(b, func(n ast.Node) bool {
		if _, ok := n.(*ast.LabeledStmt); ok {
			bad = true
		}
		return true
	})
	return bad
}

// extract makes a helper of the statements, with the local variables they use as parameters. The node is where they
// were, for deciding which variables come from outside.
func (c *ctx) extract(fd *ast.FuncDecl, l []ast.Stmt, res []types.Type, at ast.Node) ast.Expr {
	if !at.Pos().IsValid() {
		return nil
	}
	ok := true
	var vars []*types.Var
	seen := map[*types.Var]bool{}
	inside := map[types.Object]bool{}
	for _, s := range l {
		ast.Inspect(s, func(n ast.Node) bool {
			if id, is := n.(*ast.Ident); is && c.info.Defs[id] != nil {
				inside[c.info.Defs[id]] = true
			}
			return true
		})
	}
	local := func(o types.Object) *types.Var {
		v, is := o.(*types.Var)
		if !is || v.IsField() || v.Parent() == nil || v.Parent() == c.pkg.Scope() || inside[v] || v.Pkg() != c.pkg {
			return nil
		}
		return v
	}
	root := func(e ast.Expr) *types.Var {
		if id, is := e.(*ast.Ident); is {
			return local(c.info.Uses[id])
		}
		return nil
	}
	q := func(p *types.Package) string {
		if p == c.pkg {
			return ""
		}
		for _, im := range c.file.Imports {
			path := strings.Trim(im.Path.Value, "\"")
			if path == p.Path() {
				if im.Name != nil {
					return im.Name.Name
				}
				return p.Name()
			}
		}
		ok = false
		return p.Name()
	}
	for _, s := range l {
		ast.Inspect(s, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncLit, *ast.DeferStmt, *ast.BranchStmt, *ast.TypeSwitchStmt:
				if _, is := n.(*ast.BranchStmt); is {
					return true
				}
				ok = false
			case *ast.AssignStmt:
				for _, e := range x.Lhs {
					if root(e) != nil {
						ok = false
					}
				}
			case *ast.IncDecStmt:
				if root(x.X) != nil {
					ok = false
				}
			case *ast.UnaryExpr:
				if x.Op == token.AND && root(x.X) != nil {
					ok = false
				}
			case *ast.Ident:
				if strings.HasPrefix(x.Name, "zz") {
					if c.info.Uses[x] == nil && c.info.Defs[x] == nil {
						return true
					}
				}
				o := c.info.Uses[x]
				if v := local(o); v != nil && !seen[v] {
					seen[v] = true
					vars = append(vars, v)
				}
				if tn, is := o.(*types.TypeName); is && tn.Parent() != c.pkg.Scope() && tn.Parent() != types.Universe && tn.Pkg() == c.pkg {
					ok = false
				}
			}
			return true
		})
	}
	typ := func(t types.Type) ast.Expr { return ast.NewIdent(types.TypeString(t, q)) }
	params, results := &ast.FieldList{}, &ast.FieldList{}
	var args []ast.Expr
	for _, v := range vars {
		// addresses of values taken by methods with pointer receivers change the copy only
		if _, isPtr := v.Type().Underlying().(*types.Struct); isPtr {
			ok = false
		}
		params.List = append(params.List, &ast.Field{Names: []*ast.Ident{ast.NewIdent(v.Name())}, Type: typ(v.Type())})
		args = append(args, ast.NewIdent(v.Name()))
	}
	for _, t := range res {
		results.List = append(results.List, &ast.Field{Type: typ(t)})
	}
	if !ok {
		return nil
	}
	c.hit()
	name := ast.NewIdent(fmt.Sprintf("zzX%s%d", fd.Name.Name+strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' {
			return r
		}
		return -1
	}, c.fn), c.n))
	c.decls = append(c.decls, &ast.FuncDecl{Name: name, Type: &ast.FuncType{Params: params, Results: results}, Body: &ast.BlockStmt{List: l}})
	return &ast.CallExpr{Fun: name, Args: args}
}
