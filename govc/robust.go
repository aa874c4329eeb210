package main

// Keeping contracts attached to code whose unexported names change: names that disappeared are matched with new ones of the
// same shape, and what still does not compile is left out, declaration by declaration.

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
)

type fnShape struct {
	Recv string   `json:"recv,omitempty"`
	Name string   `json:"name"`
	Sig  string   `json:"sig"`
	Ids  []string `json:"ids"`

	params  []Param // receiver first
	results []Param
}

type pkgShape struct {
	Types map[string][][2]string `json:"types"` // struct types: fields and their types
	Funcs []fnShape              `json:"funcs"`
}

func exprStr(e ast.Expr) string {
	var b strings.Builder
	printer.Fprint(&b, token.NewFileSet(), e)
	return b.String()
}

func fieldTypes(fl *ast.FieldList) string {
	if fl == nil {
		return ""
	}
	var out []string
	for _, f := range fl.List {
		n := len(f.Names)
		if n == 0 {
			n = 1
		}
		for ; n > 0; n-- {
			out = append(out, exprStr(f.Type))
		}
	}
	return strings.Join(out, ",")
}

func fieldParams(fl *ast.FieldList) (out []Param) {
	if fl == nil {
		return nil
	}
	for _, f := range fl.List {
		for _, n := range f.Names {
			out = append(out, Param{n.Name, exprStr(f.Type)})
		}
		if len(f.Names) == 0 {
			out = append(out, Param{"_", exprStr(f.Type)})
		}
	}
	return
}

// adapt gives the contract the parameters its function has now: they are those of the contract by name, otherwise by type,
// otherwise new ones it does not mention.
func (p *pkgShape) adapt(c *Contract) {
	if c.Lemma || c.action != nil {
		return
	}
	recv, name := "", c.Name
	if i := strings.LastIndex(name, ")."); i >= 0 {
		recv, name = strings.TrimSuffix(strings.TrimPrefix(name, "("), name[i:]), name[i+2:]
	}
	var fn *fnShape
	var others []*fnShape
	for i := range p.Funcs {
		f := &p.Funcs[i]
		if f.Name != name {
			continue
		}
		if f.Recv == recv {
			fn = f
		}
		others = append(others, f)
	}
	if fn == nil && len(others) == 1 {
		fn = others[0] // became a method, or stopped being one
		if strings.TrimPrefix(fn.Recv, "*") != strings.TrimPrefix(recv, "*") && !unexported(name) {
			return
		}
	}
	if fn == nil {
		return
	}
	c.Name = name
	if fn.Recv != "" {
		c.Name = "(" + fn.Recv + ")." + name
	}
	same := len(fn.params) == len(c.Params)
	for i := 0; same && i < len(fn.params); i++ {
		same = fn.params[i].Type == c.Params[i].Type
	}
	byName := map[string]int{}
	for i, q := range c.Params {
		byName[q.Name] = i
	}
	if same {
		for i, q := range fn.params {
			if j, ok := byName[q.Name]; ok && i != j {
				same = false
			}
		}
	}
	if !same {
		ps := make([]Param, len(fn.params))
		used := map[int]bool{}
		base := func(t string) string { return strings.TrimPrefix(t, "*") }
		for i, q := range fn.params {
			if j, ok := byName[q.Name]; ok && !used[j] && base(c.Params[j].Type) == base(q.Type) {
				used[j] = true
				ps[i] = Param{c.Params[j].Name, q.Type}
			}
		}
		for i, q := range fn.params {
			for j := 0; ps[i].Name == "" && j < len(c.Params); j++ {
				if !used[j] && base(c.Params[j].Type) == base(q.Type) {
					used[j] = true
					ps[i] = Param{c.Params[j].Name, q.Type}
				}
			}
			if ps[i].Name == "" {
				ps[i] = Param{fmt.Sprintf("zznew%d", i), q.Type}
			}
		}
		c.Params = ps
	}
	if len(fn.results) == len(c.Results) {
		for i, q := range fn.results {
			c.Results[i].Type = q.Type
		}
	}
}

// shapeOf reads the declarations of the package in dir. Of the generated parser, ysrc if given, only the values of symbols
// have names of the program.
func shapeOf(dir string, ysrc []byte) *pkgShape {
	p := &pkgShape{Types: map[string][][2]string{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		isY := filepath.Base(f) == "y.go"
		var src any
		if isY && ysrc != nil {
			src = ysrc
		}
		af, err := parser.ParseFile(token.NewFileSet(), f, src, 0)
		if err != nil {
			continue
		}
		for _, d := range af.Decls {
			switch d := d.(type) {
			case *ast.GenDecl:
				for _, s := range d.Specs {
					ts, ok := s.(*ast.TypeSpec)
					if !ok || isY && ts.Name.Name != "yySymType" {
						continue
					}
					var fs [][2]string
					if st, ok := ts.Type.(*ast.StructType); ok {
						for _, f := range st.Fields.List {
							for _, n := range f.Names {
								fs = append(fs, [2]string{n.Name, exprStr(f.Type)})
							}
							if len(f.Names) == 0 {
								fs = append(fs, [2]string{"", exprStr(f.Type)})
							}
						}
					} else {
						fs = [][2]string{{"=", exprStr(ts.Type)}}
					}
					p.Types[ts.Name.Name] = fs
				}
			case *ast.FuncDecl:
				if isY {
					continue
				}
				s := fnShape{Name: d.Name.Name, Sig: fieldTypes(d.Type.Params) + "->" + fieldTypes(d.Type.Results)}
				if d.Recv != nil {
					s.Recv = fieldTypes(d.Recv)
				}
				s.params = append(fieldParams(d.Recv), fieldParams(d.Type.Params)...)
				s.results = fieldParams(d.Type.Results)
				ids := map[string]bool{}
				if d.Body != nil {
					ast.Inspect(d.Body, func(n ast.Node) bool {
						switch n := n.(type) {
						case *ast.Ident:
							ids[n.Name] = true
						case *ast.BasicLit:
							ids[n.Value] = true
						}
						return true
					})
				}
				for i := range ids {
					s.Ids = append(s.Ids, i)
				}
				sort.Strings(s.Ids)
				p.Funcs = append(p.Funcs, s)
			}
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		return p.Funcs[i].Recv+"."+p.Funcs[i].Name < p.Funcs[j].Recv+"."+p.Funcs[j].Name
	})
	return p
}

func cmdNames(repo, verif string) {
	out := map[string]*pkgShape{}
	for _, pd := range pkgDirs {
		out[pd.key] = shapeOf(filepath.Join(repo, pd.dir), nil)
	}
	b, _ := json.MarshalIndent(out, "", " ")
	os.WriteFile(filepath.Join(verif, "spec", "names.json"), append(b, '\n'), 0644)
}

type rename struct{ kind, from, to string }

func unexported(n string) bool { return n != "" && (n[0] >= 'a' && n[0] <= 'z' || n[0] == '_') }

func similarity(a, b []string) float64 {
	m := map[string]bool{}
	for _, x := range a {
		m[x] = true
	}
	n := 0
	for _, x := range b {
		if m[x] {
			n++
		}
	}
	if len(a)+len(b)-n == 0 {
		return 1
	}
	return float64(n) / float64(len(a)+len(b)-n)
}

var shapeMemo = map[string]map[string][]rename{}

// renames are the names of the specified code that the code in repo has under another name.
func renames(repo, verif string) map[string][]rename {
	key := repo + " " + verif
	if r, ok := shapeMemo[key]; ok {
		return r
	}
	out := map[string][]rename{}
	var ysrc []byte
	if tmp, err := os.MkdirTemp("", "govc"); err == nil {
		ysrc, _ = regeneratedY(repo, verif, tmp)
		os.RemoveAll(tmp)
	}
	base := map[string]*pkgShape{}
	if b, err := os.ReadFile(filepath.Join(verif, "spec", "names.json")); err == nil {
		json.Unmarshal(b, &base)
	}
	for _, pd := range pkgDirs {
		if base[pd.key] != nil {
			out[pd.key] = shapeRenames(base[pd.key], shapeOf(filepath.Join(repo, pd.dir), ysrc))
		}
	}
	shapeMemo[key] = out
	return out
}

func shapeRenames(b, n *pkgShape) (out []rename) {
	tmap := map[string]string{}
	used := map[string]bool{}
	subst := func(s string) string {
		return regexp.MustCompile(`\w+`).ReplaceAllStringFunc(s, func(w string) string {
			if t, ok := tmap[w]; ok {
				return t
			}
			return w
		})
	}
	var bt []string
	for t := range b.Types {
		bt = append(bt, t)
	}
	sort.Strings(bt)
	flat := func(fs [][2]string) (o []string) {
		for _, f := range fs {
			o = append(o, f[0]+" "+f[1])
		}
		return
	}
	for _, t := range bt {
		if _, ok := n.Types[t]; ok || !unexported(t) {
			continue
		}
		best, bs := "", 0.4
		for u, fs := range n.Types {
			if _, old := b.Types[u]; old || used[u] {
				continue
			}
			if s := similarity(flat(b.Types[t]), flat(fs)); s > bs || s == bs && u < best {
				best, bs = u, s
			}
		}
		if best != "" {
			tmap[t] = best
			used[best] = true
			out = append(out, rename{"name", t, best})
		}
	}
	for _, t := range bt {
		u := subst(t)
		nf := n.Types[u]
		have := map[string]bool{}
		for _, f := range nf {
			have[f[0]] = true
		}
		was := map[string]bool{}
		for _, f := range b.Types[t] {
			was[f[0]] = true
		}
		taken := map[string]bool{}
		for i, f := range b.Types[t] {
			if !unexported(f[0]) || have[f[0]] {
				continue
			}
			var cands []string
			for j, g := range nf {
				if !was[g[0]] && !taken[g[0]] && g[1] == subst(f[1]) {
					if i == j {
						cands = []string{g[0]}
						break
					}
					cands = append(cands, g[0])
				}
			}
			if len(cands) > 0 {
				taken[cands[0]] = true
				out = append(out, rename{"field", f[0], cands[0]})
			}
		}
	}
	oldF := map[string]bool{}
	for _, f := range b.Funcs {
		oldF[subst(f.Recv)+"."+f.Name] = true
	}
	newF := map[string]bool{}
	for _, f := range n.Funcs {
		newF[f.Recv+"."+f.Name] = true
	}
	takenF := map[string]bool{}
	for _, f := range b.Funcs {
		k := subst(f.Recv) + "." + f.Name
		if newF[k] || !unexported(f.Name) {
			continue
		}
		best, bs := "", 0.0
		for _, g := range n.Funcs {
			gk := g.Recv + "." + g.Name
			if oldF[gk] || takenF[gk] || g.Recv != subst(f.Recv) || g.Sig != subst(f.Sig) {
				continue
			}
			if s := similarity(f.Ids, g.Ids); best == "" || s > bs {
				best, bs = g.Name, s
			}
		}
		if best != "" {
			takenF[subst(f.Recv)+"."+best] = true
			kind := "name"
			if f.Recv != "" {
				kind = "method"
			}
			out = append(out, rename{kind, f.Name, best})
		}
	}
	return
}

// renameIn applies renames to specification text.
func renameIn(src []byte, rs []rename) []byte {
	s := string(src)
	for _, r := range rs {
		switch r.kind {
		case "name":
			s = regexp.MustCompile(`(^|[^\w.])`+r.from+`\b`).ReplaceAllString(s, "${1}"+r.to)
		case "method":
			s = regexp.MustCompile(`\.`+r.from+`\b`).ReplaceAllString(s, "."+r.to)
			s = regexp.MustCompile(`(//@ func \([^)]*\) )`+r.from+`\(`).ReplaceAllString(s, "${1}"+r.to+"(")
		case "field":
			s = regexp.MustCompile(`\.`+r.from+`\b`).ReplaceAllString(s, "."+r.to)
			s = regexp.MustCompile(`([{,]\s*)`+r.from+`:`).ReplaceAllString(s, "${1}"+r.to+":")
			s = strings.ReplaceAll(s, "$<"+r.from+">", "$<"+r.to+">")
		}
	}
	return []byte(s)
}

// withoutDecl blanks the declaration of a Go file at a line; of an import declaration only the line.
func withoutDecl(src []byte, line int) ([]byte, string, bool) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", src, parser.SkipObjectResolution)
	if err != nil {
		return src, "", false
	}
	blank := func(from, to int) []byte {
		ls := strings.Split(string(src), "\n")
		for i := from; i <= to && i <= len(ls); i++ {
			ls[i-1] = ""
		}
		return []byte(strings.Join(ls, "\n"))
	}
	for _, d := range f.Decls {
		a, b := fs.Position(d.Pos()).Line, fs.Position(d.End()).Line
		if line < a || line > b {
			continue
		}
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			if a == b {
				return blank(a, b), "import", true
			}
			return blank(line, line), "import", true
		}
		name := "declaration"
		if fd, ok := d.(*ast.FuncDecl); ok {
			name = fd.Name.Name
		}
		return blank(a, b), name, true
	}
	return src, "", false
}

var rePos = regexp.MustCompile(`(?m)^[^\s:]*?([\w.]+\.go):(\d+):\d+: (.*)$`)

// posOf splits an error position.
func posOf(pos string) (file string, line int) {
	parts := strings.Split(pos, ":")
	if len(parts) < 2 {
		return
	}
	n := len(parts)
	line, err := strconv.Atoi(parts[n-2])
	if err != nil {
		line, _ = strconv.Atoi(parts[n-1])
		return strings.Join(parts[:n-1], ":"), line
	}
	return strings.Join(parts[:n-2], ":"), line
}

// leaveOut removes what of the specification does not compile; errors of the program itself are returned.
func (w *World) leaveOut(ps []*packages.Package, ov map[string][]byte) (again bool, err error) {
	done := map[string]bool{}
	for _, p := range ps {
		for _, e := range p.Errors {
			file, line := posOf(e.Pos)
			base := filepath.Base(file)
			if !strings.HasPrefix(base, "zz_verif_") {
				return false, fmt.Errorf("load %s: %v", p.PkgPath, e)
			}
			src, ok := ov[file]
			if !ok {
				return false, fmt.Errorf("load %s: %v", p.PkgPath, e)
			}
			if base == "zz_verif_clauses.go" {
				ls := strings.Split(string(src), "\n")
				if line < 1 || line > len(ls) {
					return false, fmt.Errorf("load %s: %v", p.PkgPath, e)
				}
				m := regexp.MustCompile(`^func (zzclause_\d+)\(`).FindStringSubmatch(ls[line-1])
				if m == nil {
					if strings.Contains(e.Msg, "imported and not used") {
						continue
					}
					return false, fmt.Errorf("load %s: %v", p.PkgPath, e)
				}
				for _, c := range w.clist {
					for _, cl := range c.Clauses {
						if cl.GoName == m[1] && strings.HasSuffix(p.PkgPath, pkgPath(c.Pkg)) && c.unfit == "" {
							c.unfit = e.Msg
							again = true
						}
					}
				}
				continue
			}
			key := fmt.Sprint(file, line)
			if done[key] {
				continue
			}
			done[key] = true
			next, name, ok := withoutDecl(src, line)
			if !ok {
				if string(next) == string(src) && again {
					continue // already removed in this round
				}
				return false, fmt.Errorf("load %s: %v", p.PkgPath, e)
			}
			w.leftOut = append(w.leftOut, fmt.Sprintf("%s: %s: %s", base, name, e.Msg))
			ov[file] = next
			again = true
		}
	}
	return
}

func pkgPath(key string) string {
	for _, pd := range pkgDirs {
		if pd.key == key {
			return pd.path
		}
	}
	return key
}
