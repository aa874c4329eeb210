package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// loopTails rewrites functions without contract that call themselves, where each of these calls is all that a return statement
// returns, to loops:
//
//	func f(p T) R { ... return f(e) ... }
//
// becomes
//
//	func f(verif_p T) R { verif_tail: for { p := verif_p; ... { verif_p = e; continue verif_tail } ... } }
//
// which computes the same. Loops are given invariants by the contracts of the functions that call f. The rewritten text
// replaces that of the file, and is otherwise the same byte by byte.
func loopTails(dir string, cs []*Contract, ov map[string][]byte) error {
	has := map[string]bool{}
	for _, c := range cs {
		has[c.Name] = true
	}
	ents, err := os.ReadDir(dir)
	if err != nil {
		return err
	}
	for _, e := range ents {
		n := e.Name()
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") || n == "y.go" {
			continue
		}
		path := filepath.Join(dir, n)
		if _, ok := ov[path]; ok {
			continue
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, src, 0)
		if err != nil {
			return nil // reported by the type checker
		}
		var edits []edit
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || has[declName(fd)] {
				continue
			}
			edits = append(edits, tailEdits(fset, fd)...)
		}
		if len(edits) > 0 {
			out := applyEdits(src, edits)
			if _, err := parser.ParseFile(token.NewFileSet(), path, out, 0); err == nil {
				ov[path] = out
			}
		}
	}
	return nil
}

type edit struct {
	from, to int
	text     string
}

func applyEdits(src []byte, edits []edit) []byte {
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].from > edits[j].from })
	s := string(src)
	for _, e := range edits {
		s = s[:e.from] + e.text + s[e.to:]
	}
	return []byte(s)
}

func declName(fd *ast.FuncDecl) string {
	if fd.Recv == nil || len(fd.Recv.List) == 0 {
		return fd.Name.Name
	}
	switch t := fd.Recv.List[0].Type.(type) {
	case *ast.StarExpr:
		return fmt.Sprintf("(*%v).%s", t.X, fd.Name.Name)
	default:
		return fmt.Sprintf("(%v).%s", t, fd.Name.Name)
	}
}

func tailEdits(fset *token.FileSet, fd *ast.FuncDecl) []edit {
	recv := ""
	if fd.Recv != nil {
		if len(fd.Recv.List) != 1 || len(fd.Recv.List[0].Names) != 1 {
			return nil
		}
		recv = fd.Recv.List[0].Names[0].Name
	}
	if fd.Type.TypeParams != nil || fd.Type.Results == nil {
		return nil
	}
	for _, r := range fd.Type.Results.List {
		if len(r.Names) > 0 {
			return nil
		}
	}
	var params []*ast.Ident
	for _, p := range fd.Type.Params.List {
		if _, ok := p.Type.(*ast.Ellipsis); ok || len(p.Names) == 0 {
			return nil
		}
		params = append(params, p.Names...)
	}
	if len(params) == 0 {
		return nil
	}
	self := func(x ast.Expr) *ast.CallExpr {
		c, ok := x.(*ast.CallExpr)
		if !ok || c.Ellipsis != token.NoPos {
			return nil
		}
		switch fn := c.Fun.(type) {
		case *ast.Ident:
			if recv == "" && fn.Name == fd.Name.Name && len(c.Args) == len(params) {
				return c
			}
		case *ast.SelectorExpr:
			if id, ok := fn.X.(*ast.Ident); ok && recv != "" && id.Name == recv && fn.Sel.Name == fd.Name.Name && len(c.Args) == len(params) {
				return c
			}
		}
		return nil
	}
	tails := map[ast.Expr]bool{}
	var rets []*ast.ReturnStmt
	ok := true
	calls := 0
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit, *ast.DeferStmt, *ast.GoStmt:
			ok = false
		case *ast.ReturnStmt:
			if len(n.Results) == 1 {
				if c := self(n.Results[0]); c != nil {
					tails[c] = true
					rets = append(rets, n)
				}
			}
		case *ast.CallExpr:
			if self(n) != nil {
				calls++
				ok = ok && tails[n]
			}
		case *ast.AssignStmt: // the receiver stays the same
			for _, l := range n.Lhs {
				if id, isID := l.(*ast.Ident); isID && (id.Name == recv && recv != "" || id.Name == fd.Name.Name) {
					ok = false
				}
			}
		}
		return ok
	})
	if !ok || calls == 0 || calls != len(rets) {
		return nil
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var edits []edit
	var outer, inner []string
	for _, p := range params {
		if p.Name == "_" {
			return nil
		}
		edits = append(edits, edit{off(p.Pos()), off(p.Pos()), "verif_"})
		outer = append(outer, "verif_"+p.Name)
		inner = append(inner, p.Name)
	}
	edits = append(edits, edit{off(fd.Body.Lbrace) + 1, off(fd.Body.Lbrace) + 1,
		" verif_tail: for { " + strings.Join(inner, ", ") + " := " + strings.Join(outer, ", ") + "; " + strings.Repeat("_, ", len(inner)-1) + "_ = " + strings.Join(inner, ", ") + ";"})
	edits = append(edits, edit{off(fd.Body.Rbrace), off(fd.Body.Rbrace), "}"})
	for _, r := range rets {
		c := r.Results[0].(*ast.CallExpr)
		edits = append(edits, edit{off(r.Pos()), off(c.Lparen) + 1, "{ " + strings.Join(outer, ", ") + " = "})
		edits = append(edits, edit{off(c.Rparen), off(c.Rparen) + 1, "; continue verif_tail }"})
	}
	return edits
}
