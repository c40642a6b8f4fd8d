// mutate lists or writes single-site mutants of the module's library packages.
//
//	mutate DIR            prints "N file:line description" for every mutant
//	mutate DIR N OUTDIR   writes the mutated file of mutant N below OUTDIR
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type mutant struct {
	file, desc string
	line       int
	do, undo   func()
}

var muts []mutant

func main() {
	dir := os.Args[1]
	want := -1
	if len(os.Args) > 2 {
		want, _ = strconv.Atoi(os.Args[2])
	}
	for _, f := range []string{"bip32/bip32.go", "bip32/path.go", "bip32/utils.go", "bip32/reg_ver_bytes.go", "bip39/bip39.go", "bip44/coin.go", "bip44/coins.go", "util/util.go", "util/key_path.go"} {
		fs := token.NewFileSet()
		path := filepath.Join(dir, f)
		tree, err := parser.ParseFile(fs, path, nil, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		n0 := len(muts)
		collect(fs, f, tree)
		if want >= n0 && want < len(muts) {
			muts[want].do()
			var b bytes.Buffer
			if err := format.Node(&b, fs, tree); err != nil {
				panic(err)
			}
			os.WriteFile(filepath.Join(os.Args[3], f), b.Bytes(), 0o644)
			return
		}
	}
	if want < 0 {
		for i, m := range muts {
			fmt.Printf("%d %s:%d %s\n", i, m.file, m.line, m.desc)
		}
	}
}

func collect(fs *token.FileSet, file string, tree *ast.File) {
	add := func(n ast.Node, desc string, do func()) {
		muts = append(muts, mutant{file: file, desc: desc, line: fs.Position(n.Pos()).Line, do: do})
	}
	ops := map[token.Token][]token.Token{
		token.LSS: {token.LEQ, token.GEQ}, token.LEQ: {token.LSS, token.GTR}, token.GTR: {token.GEQ, token.LEQ}, token.GEQ: {token.GTR, token.LSS},
		token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.QUO}, token.QUO: {token.MUL, token.REM},
		token.REM: {token.QUO}, token.AND: {token.OR}, token.OR: {token.AND}, token.LAND: {token.LOR}, token.LOR: {token.LAND}, token.SHL: {token.SHR}, token.SHR: {token.SHL},
	}
	for _, d := range tree.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok {
			gd := d.(*ast.GenDecl)
			if gd.Tok == token.IMPORT || gd.Tok == token.TYPE {
				continue
			}
			for _, sp := range gd.Specs {
				vs := sp.(*ast.ValueSpec)
				for _, v := range vs.Values {
					if _, ok := v.(*ast.CompositeLit); ok {
						continue // tables
					}
					exprs(v, file, add, ops)
				}
			}
			continue
		}
		if fd.Body == nil {
			continue
		}
		if fd.Name.Name == "init" && file == "bip44/coins.go" {
			// the table is C31's
		}
		exprs(fd.Body, file, add, ops)
		stmts(fd, add)
	}
}

func exprs(root ast.Node, file string, add func(ast.Node, string, func()), ops map[token.Token][]token.Token) {
	ast.Inspect(root, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BinaryExpr:
			for _, t := range ops[x.Op] {
				t := t
				add(x, x.Op.String()+" -> "+t.String(), func() { x.Op = t })
			}
		case *ast.AssignStmt:
			if x.Tok == token.ADD_ASSIGN {
				add(x, "+= -> =", func() { x.Tok = token.ASSIGN })
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				v, err := strconv.ParseInt(x.Value, 0, 64)
				if err == nil {
					add(x, x.Value+" +1", func() { x.Value = fmt.Sprint(v + 1) })
					if v > 0 {
						add(x, x.Value+" -1", func() { x.Value = fmt.Sprint(v - 1) })
					}
				}
			}
			if x.Kind == token.STRING && len(x.Value) < 60 {
				add(x, "string "+x.Value+" changed", func() {
					if x.Value == `""` || x.Value == "``" {
						x.Value = `"0"`
					} else {
						x.Value = x.Value[:len(x.Value)-2] + x.Value[len(x.Value)-1:]
					}
				})
			}
		case *ast.SliceExpr:
			if x.Low != nil {
				lo := x.Low
				add(x, "slice low +1", func() { x.Low = plus(lo, 1) })
				add(x, "slice low dropped", func() { x.Low = nil })
			}
			if x.High != nil && x.Max == nil {
				hi := x.High
				add(x, "slice high -1", func() { x.High = plus(hi, -1) })
				add(x, "slice high dropped", func() { x.High = nil })
			}
			if x.Max != nil {
				add(x, "slice max dropped", func() { x.Max = nil; x.Slice3 = false })
			}
		case *ast.IndexExpr:
			if _, ok := x.Index.(*ast.BasicLit); !ok {
				ix := x.Index
				add(x, "index +1", func() { x.Index = plus(ix, 1) })
			}
		case *ast.CallExpr:
			if len(x.Args) >= 2 {
				for i := 0; i+1 < len(x.Args); i++ {
					i := i
					add(x, fmt.Sprint("arguments swapped ", i), func() { x.Args[i], x.Args[i+1] = x.Args[i+1], x.Args[i] })
				}
			}
			if len(x.Args) == 1 {
				if id, ok := x.Fun.(*ast.Ident); ok && ast.IsExported(id.Name) || isSel(x.Fun) {
					a := x.Args[0]
					_ = a
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				add(x, "! dropped", func() { x.Op = token.NOT; x.X = &ast.UnaryExpr{Op: token.NOT, X: x.X} })
			}
		case *ast.Ident:
			swap := map[string][]string{"true": {"false"}, "false": {"true"},
				"PvtKeyStartIndex": {"PubKeyStartIndex"}, "PubKeyStartIndex": {"PvtKeyStartIndex"},
				"PvtFlagToHDBytesSlice": {"PubFlagToHDBytesSlice"}, "PubFlagToHDBytesSlice": {"PvtFlagToHDBytesSlice"},
				"PubKeyFlagBytes": {"PvtKeyFlagBytes"}, "PvtKeyFlagBytes": {"PubKeyFlagBytes"},
				"DefaultMainnetVersion": {"DefaultTestnetVersion"}, "x": {"y"}, "y": {"x"}, "X": {"Y"}, "Y": {"X"},
				"key1Int": {"key2Int"}, "key1": {"key2"}, "setPvtKeyBytes": {"setPubKeyBytes"}, "P": {"N"}, "N": {"P"},
				"purposeVal": {"purposeValFull"}, "Symbol": {"Name"}, "Name": {"Symbol"}, "PvtKeyFlag": {"PubKeyFlag"}, "PubKeyFlag": {"PvtKeyFlag"},
				"Type": {"PathComponent"}, "PathComponent": {"Type"}, "mnemonic": {"password"}, "password": {"mnemonic"}, "b": {"checksum"}, "startIndex": {"endIndex"},
				"StartIndex": {"EndIndex"}, "currentKey": {"*rootKey"}, "Fields": {"ToLower"}, "TrimSpace": {"ToLower"}}
			for _, w := range swap[x.Name] {
				w := w
				add(x, x.Name+" -> "+w, func() { x.Name = w })
			}
		}
		return true
	})
}

func isSel(e ast.Expr) bool { _, ok := e.(*ast.SelectorExpr); return ok }

func plus(e ast.Expr, k int) ast.Expr {
	op := token.ADD
	if k < 0 {
		op, k = token.SUB, -k
	}
	return &ast.BinaryExpr{X: &ast.ParenExpr{X: e}, Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(k)}}
}

func stmts(fd *ast.FuncDecl, add func(ast.Node, string, func())) {
	nres := 0
	lastErr := false
	if fd.Type.Results != nil {
		for _, f := range fd.Type.Results.List {
			k := len(f.Names)
			if k == 0 {
				k = 1
			}
			nres += k
			id, ok := f.Type.(*ast.Ident)
			lastErr = ok && id.Name == "error"
		}
	}
	list := func(l *[]ast.Stmt) {
		for i, s := range *l {
			i, s := i, s
			empty := &ast.BlockStmt{}
			switch x := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt:
				add(s, "statement deleted", func() { (*l)[i] = empty })
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					add(s, "assignment deleted", func() {
						ns := &ast.AssignStmt{Tok: token.ASSIGN}
						for _, r := range x.Rhs {
							ns.Lhs = append(ns.Lhs, ast.NewIdent("_"))
							ns.Rhs = append(ns.Rhs, r)
						}
						if len(x.Lhs) != len(x.Rhs) {
							ns.Lhs = nil
							for range x.Lhs {
								ns.Lhs = append(ns.Lhs, ast.NewIdent("_"))
							}
						}
						(*l)[i] = ns
					})
				}
			case *ast.IfStmt:
				c := x.Cond
				add(s, "condition false", func() {
					x.Cond = &ast.BinaryExpr{X: ast.NewIdent("false"), Op: token.LAND, Y: &ast.ParenExpr{X: c}}
				})
				add(s, "condition true", func() {
					x.Cond = &ast.BinaryExpr{X: ast.NewIdent("true"), Op: token.LOR, Y: &ast.ParenExpr{X: c}}
				})
			case *ast.ReturnStmt:
				if lastErr && len(x.Results) == nres && nres > 0 {
					id, ok := x.Results[nres-1].(*ast.Ident)
					if !ok || id.Name != "nil" {
						add(s, "error dropped", func() { x.Results[nres-1] = ast.NewIdent("nil") })
					} else {
						add(s, "error made up", func() { x.Results[nres-1] = ast.NewIdent(`fmt.Errorf("x")`) })
					}
				}
			case *ast.BranchStmt:
				if x.Tok == token.BREAK {
					add(s, "break -> continue", func() { x.Tok = token.CONTINUE })
				} else if x.Tok == token.CONTINUE {
					add(s, "continue -> break", func() { x.Tok = token.BREAK })
				}
			case *ast.CaseClause:
				_ = x
			}
			if i > 0 {
				_, r := s.(*ast.ReturnStmt)
				if !r && !strings.Contains(fmt.Sprintf("%T", s), "Decl") {
					add(s, "swapped with the statement before", func() { (*l)[i-1], (*l)[i] = (*l)[i], (*l)[i-1] })
				}
			}
		}
	}
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			list(&x.List)
		case *ast.CaseClause:
			list(&x.Body)
		}
		return true
	})
}
