// astref rewrites every function of a package in a behaviour-preserving way.
// Development helper: astref DIR TRANSFORM [FUNC]
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"
)

var (
	fset *token.FileSet
	info *types.Info
	pkg  *types.Package
	tmpN int
)

func tmp() string { tmpN++; return fmt.Sprintf("t%d_", tmpN) }
func id(s string) *ast.Ident { return ast.NewIdent(s) }

func define(name string, e ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{id(name)}, Tok: token.DEFINE, Rhs: []ast.Expr{e}}
}

// blocks applies f to every statement list of a body, innermost first.
func blocks(n ast.Node, f func([]ast.Stmt) []ast.Stmt) {
	var post func(n ast.Node)
	post = func(n ast.Node) {
		ast.Inspect(n, func(m ast.Node) bool {
			if m == n || m == nil {
				return true
			}
			switch m.(type) {
			case *ast.BlockStmt, *ast.CaseClause:
				post(m)
				return false
			}
			return true
		})
		switch b := n.(type) {
		case *ast.BlockStmt:
			b.List = f(b.List)
		case *ast.CaseClause:
			b.Body = f(b.Body)
		}
	}
	post(n)
}

func terminates(l []ast.Stmt) bool {
	if len(l) == 0 {
		return false
	}
	switch s := l[len(l)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.IfStmt:
		if s.Else == nil || !terminates(s.Body.List) {
			return false
		}
		switch e := s.Else.(type) {
		case *ast.BlockStmt:
			return terminates(e.List)
		case *ast.IfStmt:
			return terminates([]ast.Stmt{e})
		}
	case *ast.ExprStmt:
		if c, ok := s.X.(*ast.CallExpr); ok {
			if i, ok := c.Fun.(*ast.Ident); ok && i.Name == "panic" {
				return true
			}
		}
	}
	return false
}

func hasJump(n ast.Node, toks ...token.Token) bool {
	found := false
	ast.Inspect(n, func(m ast.Node) bool {
		switch b := m.(type) {
		case *ast.FuncLit:
			return false
		case *ast.BranchStmt:
			for _, t := range toks {
				found = found || b.Tok == t
			}
		}
		return true
	})
	return found
}

func not(e ast.Expr) ast.Expr { return &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: e}} }

// exprs rewrites every expression of a node bottom-up.
func exprs(n ast.Node, f func(ast.Expr) ast.Expr) {
	var fix func(n ast.Node)
	fix = func(n ast.Node) {
		switch x := n.(type) {
		case *ast.BinaryExpr:
			fix(x.X)
			fix(x.Y)
			x.X, x.Y = f(x.X), f(x.Y)
			return
		case *ast.ParenExpr:
			fix(x.X)
			x.X = f(x.X)
			return
		case *ast.UnaryExpr:
			fix(x.X)
			x.X = f(x.X)
			return
		case *ast.CallExpr:
			fix(x.Fun)
			for i := range x.Args {
				fix(x.Args[i])
				x.Args[i] = f(x.Args[i])
			}
			return
		case *ast.IfStmt:
			if x.Init != nil {
				fix(x.Init)
			}
			fix(x.Cond)
			x.Cond = f(x.Cond)
			fix(x.Body)
			if x.Else != nil {
				fix(x.Else)
			}
			return
		case *ast.ForStmt:
			if x.Init != nil {
				fix(x.Init)
			}
			if x.Cond != nil {
				fix(x.Cond)
				x.Cond = f(x.Cond)
			}
			if x.Post != nil {
				fix(x.Post)
			}
			fix(x.Body)
			return
		case *ast.ReturnStmt:
			for i := range x.Results {
				fix(x.Results[i])
				x.Results[i] = f(x.Results[i])
			}
			return
		case *ast.AssignStmt:
			for i := range x.Rhs {
				fix(x.Rhs[i])
				x.Rhs[i] = f(x.Rhs[i])
			}
			return
		}
		ast.Inspect(n, func(m ast.Node) bool {
			if m == n || m == nil {
				return true
			}
			fix(m)
			return false
		})
	}
	fix(n)
}

func isLenSafe(e ast.Expr) bool {
	switch e.(type) {
	case *ast.Ident, *ast.SelectorExpr:
		return true
	}
	return false
}

func typeOf(e ast.Expr) types.Type {
	if t, ok := info.Types[e]; ok {
		return t.Type
	}
	if i, ok := e.(*ast.Ident); ok {
		if o := info.ObjectOf(i); o != nil {
			return o.Type()
		}
	}
	return nil
}

func clone(fl *ast.FieldList) *ast.FieldList {
	if fl == nil {
		return nil
	}
	n := &ast.FieldList{}
	for _, f := range fl.List {
		c := &ast.Field{Type: f.Type}
		for _, m := range f.Names {
			c.Names = append(c.Names, id(m.Name))
		}
		n.List = append(n.List, c)
	}
	return n
}

type transform func(f *ast.FuncDecl, file *ast.File)

var transforms = map[string]transform{
	"invert": func(f *ast.FuncDecl, _ *ast.File) {
		blocks(f.Body, func(l []ast.Stmt) []ast.Stmt {
			for i, s := range l {
				if x, ok := s.(*ast.IfStmt); ok && x.Else != nil {
					if e, ok := x.Else.(*ast.BlockStmt); ok {
						x.Cond, x.Body, x.Else = not(x.Cond), e, x.Body
					}
				}
				_ = i
			}
			return l
		})
	},
	// if c { return } rest  ->  if !c { rest } else { return }
	"nest": func(f *ast.FuncDecl, _ *ast.File) {
		top := f.Body
		blocks(f.Body, func(l []ast.Stmt) []ast.Stmt {
			_ = top
			if !terminates(l) {
				return l
			}
			for i := len(l) - 2; i >= 0; i-- {
				x, ok := l[i].(*ast.IfStmt)
				if !ok || x.Else != nil || !terminates(x.Body.List) {
					continue
				}
				rest := append([]ast.Stmt{}, l[i+1:]...)
				x.Cond = not(x.Cond)
				x.Else = x.Body
				x.Body = &ast.BlockStmt{List: rest}
				l = l[:i+1]
			}
			return l
		})
	},
	"rangeindex": func(f *ast.FuncDecl, _ *ast.File) {
		blocks(f.Body, func(l []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for _, s := range l {
				r, ok := s.(*ast.RangeStmt)
				if !ok || r.Tok != token.DEFINE {
					out = append(out, s)
					continue
				}
				t := typeOf(r.X)
				if t == nil {
					out = append(out, s)
					continue
				}
				u := t.Underlying()
				if p, ok := u.(*types.Pointer); ok {
					u = p.Elem().Underlying()
				}
				switch u.(type) {
				case *types.Slice, *types.Array:
				default:
					out = append(out, s)
					continue
				}
				xs, i := tmp(), tmp()
				if k, ok := r.Key.(*ast.Ident); ok && k.Name != "_" {
					i = k.Name
				}
				var pre []ast.Stmt
				if v, ok := r.Value.(*ast.Ident); ok && v.Name != "_" {
					pre = append(pre, define(v.Name, &ast.IndexExpr{X: id(xs), Index: id(i)}))
				}
				r.Body.List = append(pre, r.Body.List...)
				out = append(out, define(xs, r.X), &ast.ForStmt{
					Init: define(i, &ast.BasicLit{Kind: token.INT, Value: "0"}),
					Cond: &ast.BinaryExpr{X: id(i), Op: token.LSS, Y: &ast.CallExpr{Fun: id("len"), Args: []ast.Expr{id(xs)}}},
					Post: &ast.IncDecStmt{X: id(i), Tok: token.INC}, Body: r.Body})
			}
			return out
		})
	},
	"while": func(f *ast.FuncDecl, _ *ast.File) {
		blocks(f.Body, func(l []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for _, s := range l {
				x, ok := s.(*ast.ForStmt)
				if !ok || x.Cond == nil || hasJump(x.Body, token.CONTINUE, token.BREAK) {
					out = append(out, s)
					continue
				}
				body := []ast.Stmt{&ast.IfStmt{Cond: not(x.Cond), Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}}
				body = append(body, &ast.BlockStmt{List: x.Body.List})
				if x.Post != nil {
					body = append(body, x.Post)
				}
				blk := &ast.BlockStmt{}
				if x.Init != nil {
					blk.List = append(blk.List, x.Init)
				}
				blk.List = append(blk.List, &ast.ForStmt{Body: &ast.BlockStmt{List: body}})
				out = append(out, blk)
			}
			return out
		})
	},
	// results into named variables, bare returns
	"named": func(f *ast.FuncDecl, _ *ast.File) {
		rs := f.Type.Results
		if rs == nil || len(rs.List) == 0 || len(rs.List[0].Names) > 0 {
			return
		}
		var names []string
		for i, r := range rs.List {
			n := fmt.Sprintf("res%d_", i)
			names = append(names, n)
			r.Names = []*ast.Ident{id(n)}
		}
		blocks(f.Body, func(l []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for _, s := range l {
				r, ok := s.(*ast.ReturnStmt)
				if !ok || len(r.Results) == 0 {
					out = append(out, s)
					continue
				}
				a := &ast.AssignStmt{Tok: token.ASSIGN, Rhs: r.Results}
				for _, n := range names {
					a.Lhs = append(a.Lhs, id(n))
				}
				out = append(out, a, &ast.ReturnStmt{})
			}
			return out
		})
	},
	// single exit: the body in a closure
	"closure": func(f *ast.FuncDecl, _ *ast.File) {
		if f.Name.Name == "init" {
			return
		}
		t := &ast.FuncType{Params: &ast.FieldList{}, Results: clone(f.Type.Results)}
		call := &ast.CallExpr{Fun: &ast.FuncLit{Type: t, Body: f.Body}}
		if f.Type.Results == nil {
			f.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}
		} else {
			f.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{call}}}}
		}
	},
	// every function a wrapper of an inner one
	"wrap": func(f *ast.FuncDecl, file *ast.File) {
		if f.Name.Name == "init" || f.Name.Name == "main" {
			return
		}
		var args []ast.Expr
		ell := token.NoPos
		for _, p := range f.Type.Params.List {
			if len(p.Names) == 0 {
				return
			}
			for _, n := range p.Names {
				if n.Name == "_" {
					return
				}
				args = append(args, id(n.Name))
			}
			if _, ok := p.Type.(*ast.Ellipsis); ok {
				ell = 1
			}
		}
		in := &ast.FuncDecl{Recv: clone(f.Recv), Name: id("inner" + f.Name.Name), Type: &ast.FuncType{Params: clone(f.Type.Params), Results: clone(f.Type.Results)}, Body: f.Body}
		var fn ast.Expr = id(in.Name.Name)
		if f.Recv != nil {
			if len(f.Recv.List[0].Names) == 0 {
				return
			}
			fn = &ast.SelectorExpr{X: id(f.Recv.List[0].Names[0].Name), Sel: id(in.Name.Name)}
		}
		call := &ast.CallExpr{Fun: fn, Args: args, Ellipsis: ell}
		if f.Type.Results == nil {
			f.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}
		} else {
			f.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{call}}}}
		}
		file.Decls = append(file.Decls, in)
	},
	"vardecl": func(f *ast.FuncDecl, _ *ast.File) {
		blocks(f.Body, func(l []ast.Stmt) []ast.Stmt {
			for i, s := range l {
				a, ok := s.(*ast.AssignStmt)
				if !ok || a.Tok != token.DEFINE {
					continue
				}
				all := true
				var ns []*ast.Ident
				for _, x := range a.Lhs {
					n := x.(*ast.Ident)
					if n.Name == "_" || info.Defs[n] == nil {
						all = false
					}
					ns = append(ns, n)
				}
				if all {
					l[i] = &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: ns, Values: a.Rhs}}}}
				}
			}
			return l
		})
	},
	"compound": func(f *ast.FuncDecl, _ *ast.File) {
		ast.Inspect(f.Body, func(n ast.Node) bool {
			if a, ok := n.(*ast.AssignStmt); ok && len(a.Lhs) == 1 {
				if i, ok := a.Lhs[0].(*ast.Ident); ok {
					op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.OR_ASSIGN: token.OR, token.AND_ASSIGN: token.AND, token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM}[a.Tok]
					if op != 0 {
						a.Tok = token.ASSIGN
						a.Rhs[0] = &ast.BinaryExpr{X: id(i.Name), Op: op, Y: &ast.ParenExpr{X: a.Rhs[0]}}
					}
				}
			}
			return true
		})
		blocks(f.Body, func(l []ast.Stmt) []ast.Stmt {
			for i, s := range l {
				if a, ok := s.(*ast.IncDecStmt); ok && a.Tok == token.INC {
					l[i] = &ast.AssignStmt{Lhs: []ast.Expr{a.X}, Tok: token.ADD_ASSIGN, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "1"}}}
				}
			}
			return l
		})
	},
	"flip": func(f *ast.FuncDecl, _ *ast.File) {
		inv := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}
		exprs(f.Body, func(e ast.Expr) ast.Expr {
			if b, ok := e.(*ast.BinaryExpr); ok && inv[b.Op] != 0 {
				return &ast.BinaryExpr{X: b.Y, Op: inv[b.Op], Y: b.X}
			}
			return e
		})
	},
	"negate": func(f *ast.FuncDecl, _ *ast.File) {
		inv := map[token.Token]token.Token{token.LSS: token.GEQ, token.GTR: token.LEQ, token.LEQ: token.GTR, token.GEQ: token.LSS, token.EQL: token.NEQ, token.NEQ: token.EQL}
		exprs(f.Body, func(e ast.Expr) ast.Expr {
			b, ok := e.(*ast.BinaryExpr)
			if !ok {
				return e
			}
			if inv[b.Op] != 0 {
				return not(&ast.BinaryExpr{X: b.X, Op: inv[b.Op], Y: b.Y})
			}
			if b.Op == token.LAND || b.Op == token.LOR {
				op := token.LOR
				if b.Op == token.LOR {
					op = token.LAND
				}
				return not(&ast.BinaryExpr{X: not(b.X), Op: op, Y: not(b.Y)})
			}
			return e
		})
	},
	"noop": func(f *ast.FuncDecl, _ *ast.File) {
		blocks(f.Body, func(l []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for _, s := range l {
				if _, ok := s.(*ast.CaseClause); ok {
					return l
				}
				n := tmp()
				out = append(out, define(n, &ast.BasicLit{Kind: token.INT, Value: "0"}), &ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(n)}}, s)
			}
			return out
		})
	},
	"splitor": func(f *ast.FuncDecl, _ *ast.File) {
		blocks(f.Body, func(l []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for _, s := range l {
				x, ok := s.(*ast.IfStmt)
				if ok && x.Init == nil && x.Else == nil && terminates(x.Body.List) {
					for {
						b, ok := x.Cond.(*ast.BinaryExpr)
						if !ok || b.Op != token.LOR {
							break
						}
						// the body is shared between two printed copies
						out = append(out, &ast.IfStmt{Cond: b.X, Body: x.Body})
						x = &ast.IfStmt{Cond: b.Y, Body: x.Body}
					}
					out = append(out, x)
					continue
				}
				if ok && x.Init == nil && x.Else == nil {
					if b, ok := x.Cond.(*ast.BinaryExpr); ok && b.Op == token.LAND {
						s = &ast.IfStmt{Cond: b.X, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.IfStmt{Cond: b.Y, Body: x.Body}}}}
					}
				}
				out = append(out, s)
			}
			return out
		})
	},
	"switch": func(f *ast.FuncDecl, _ *ast.File) {
		blocks(f.Body, func(l []ast.Stmt) []ast.Stmt {
			for i, s := range l {
				x, ok := s.(*ast.IfStmt)
				if !ok || hasJump(x, token.BREAK) {
					continue
				}
				sw := &ast.SwitchStmt{Init: x.Init, Body: &ast.BlockStmt{}}
				sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{x.Cond}, Body: x.Body.List})
				switch e := x.Else.(type) {
				case *ast.BlockStmt:
					sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: e.List})
				case *ast.IfStmt:
					sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{e}})
				}
				l[i] = sw
			}
			return l
		})
	},
	"hoistinit": func(f *ast.FuncDecl, _ *ast.File) {
		blocks(f.Body, func(l []ast.Stmt) []ast.Stmt {
			for i, s := range l {
				if x, ok := s.(*ast.IfStmt); ok && x.Init != nil {
					in := x.Init
					x.Init = nil
					l[i] = &ast.BlockStmt{List: []ast.Stmt{in, x}}
				}
			}
			return l
		})
	},
	// conditions into variables
	"condvar": func(f *ast.FuncDecl, _ *ast.File) {
		blocks(f.Body, func(l []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for _, s := range l {
				if x, ok := s.(*ast.IfStmt); ok && x.Init == nil {
					n := tmp()
					out = append(out, define(n, x.Cond))
					x.Cond = id(n)
				}
				out = append(out, s)
			}
			return out
		})
	},
	// call results into variables
	"temps": func(f *ast.FuncDecl, _ *ast.File) {
		blocks(f.Body, func(l []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for _, s := range l {
				var pre []ast.Stmt
				var hoist func(e ast.Expr, root bool) ast.Expr
				hoist = func(e ast.Expr, root bool) ast.Expr {
					c, ok := e.(*ast.CallExpr)
					if !ok {
						return e
					}
					if tv, ok := info.Types[c.Fun]; ok && (tv.IsType() || tv.IsBuiltin()) {
						for i := range c.Args {
							if tv.IsBuiltin() && i == 0 {
								continue
							}
							c.Args[i] = hoist(c.Args[i], false)
						}
						return e
					}
					for i := range c.Args {
						c.Args[i] = hoist(c.Args[i], false)
					}
					if root {
						return e
					}
					t := info.Types[c].Type
					if t == nil {
						return e
					}
					if _, tuple := t.(*types.Tuple); tuple {
						return e
					}
					n := tmp()
					pre = append(pre, define(n, c))
					return id(n)
				}
				switch x := s.(type) {
				case *ast.ExprStmt:
					x.X = hoist(x.X, true)
				case *ast.AssignStmt:
					if len(x.Rhs) == 1 {
						x.Rhs[0] = hoist(x.Rhs[0], true)
					}
				case *ast.ReturnStmt:
					for i := range x.Results {
						x.Results[i] = hoist(x.Results[i], len(x.Results) == 1 && false)
					}
				}
				out = append(append(out, pre...), s)
			}
			return out
		})
	},
	"reslice": func(f *ast.FuncDecl, _ *ast.File) {
		exprs(f.Body, func(e ast.Expr) ast.Expr {
			x, ok := e.(*ast.SliceExpr)
			if !ok || x.Low == nil || x.High == nil || x.Max != nil {
				return e
			}
			lo, hi := info.Types[x.Low], info.Types[x.High]
			if lo.Value == nil || hi.Value == nil {
				return e
			}
			t := typeOf(x.X)
			if t == nil {
				return e
			}
			return &ast.SliceExpr{X: &ast.SliceExpr{X: x.X, Low: x.Low}, High: &ast.BinaryExpr{X: x.High, Op: token.SUB, Y: &ast.ParenExpr{X: x.Low}}}
		})
	},
	"lenzero": func(f *ast.FuncDecl, _ *ast.File) {
		exprs(f.Body, func(e ast.Expr) ast.Expr {
			b, ok := e.(*ast.BinaryExpr)
			if !ok {
				return e
			}
			c, ok := b.X.(*ast.CallExpr)
			if !ok {
				return e
			}
			if i, ok := c.Fun.(*ast.Ident); !ok || i.Name != "len" {
				return e
			}
			if l, ok := b.Y.(*ast.BasicLit); ok && l.Value == "0" {
				switch b.Op {
				case token.EQL:
					return &ast.BinaryExpr{X: b.X, Op: token.LSS, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}
				case token.NEQ, token.GTR:
					return &ast.BinaryExpr{X: b.X, Op: token.GEQ, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}
				}
			}
			return e
		})
	},
	// parameters copied first
	"copyparams": func(f *ast.FuncDecl, _ *ast.File) {
		var pre []ast.Stmt
		fl := append([]*ast.Field{}, f.Type.Params.List...)
		if f.Recv != nil {
			fl = append(fl, f.Recv.List...)
		}
		for _, p := range fl {
			for _, n := range p.Names {
				if n.Name != "_" {
					nn := n.Name
					n.Name = nn + "Arg_"
					pre = append(pre, define(nn, id(n.Name)), &ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(nn)}})
				}
			}
		}
		f.Body.List = append(pre, f.Body.List...)
	},
	// the functions of each file in reverse order
	"reorder": func(f *ast.FuncDecl, file *ast.File) {},
}

func main() {
	dir, name := os.Args[1], os.Args[2]
	only := ""
	if len(os.Args) > 3 {
		only = os.Args[3]
	}
	if dir == "list" {
		for k := range transforms {
			fmt.Println(k)
		}
		return
	}
	cfg := &packages.Config{Mode: packages.LoadSyntax, Dir: dir, Env: append(os.Environ(), "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off")}
	ps, err := packages.Load(cfg, "./bip32", "./bip39", "./util", "./bip44")
	if err != nil {
		panic(err)
	}
	for _, p := range ps {
		if len(p.Errors) > 0 {
			fmt.Println(p.Errors)
			os.Exit(1)
		}
		fset, info, pkg = p.Fset, p.TypesInfo, p.Types
		for _, file := range p.Syntax {
			fn := fset.Position(file.Pos()).Filename
			if strings.HasSuffix(fn, "script.go") {
				continue
			}
			decls := append([]ast.Decl{}, file.Decls...)
			n := 0
			for _, d := range decls {
				f, ok := d.(*ast.FuncDecl)
				if !ok || f.Body == nil {
					continue
				}
				full := f.Name.Name
				if only != "" && only != full {
					continue
				}
				transforms[name](f, file)
				n++
			}
			if n == 0 {
				continue
			}
			// comments inside rewritten bodies would be misplaced
			file.Comments = nil
			ast.Inspect(file, func(m ast.Node) bool {
				switch x := m.(type) {
				case *ast.FuncDecl:
					x.Doc = nil
				case *ast.GenDecl:
					keep := false
					if x.Doc != nil {
						for _, c := range x.Doc.List {
							keep = keep || strings.HasPrefix(c.Text, "//go:")
						}
					}
					if !keep {
						x.Doc = nil
					}
				}
				return true
			})
			var buf bytes.Buffer
			if err := format.Node(&buf, token.NewFileSet(), file); err != nil {
				panic(err)
			}
			os.WriteFile(fn, buf.Bytes(), 0o644)
		}
	}
}
