package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// actionSpec is the contract of a production's action as spec/actions.txt has it.
type actionSpec struct {
	prod  string
	lines []string
	no    int
}

func readActions(verif string, rs []rename) ([]*actionSpec, error) {
	b, err := os.ReadFile(filepath.Join(verif, "spec", "actions.txt"))
	if err != nil {
		return nil, err
	}
	b = renameIn(b, rs)
	var out []*actionSpec
	for i, l := range strings.Split(string(b), "\n") {
		switch {
		case strings.TrimSpace(l) == "" || strings.HasPrefix(l, "#"):
		case l[0] == '\t':
			s := out[len(out)-1]
			s.lines = append(s.lines, strings.TrimSpace(l))
		default:
			out = append(out, &actionSpec{prod: strings.TrimSpace(l), no: i + 1})
		}
	}
	return out, nil
}

func (w *World) grammarOverlay(ov map[string][]byte) error {
	y, err := regeneratedY(w.repo, w.verif, w.tmp)
	if err != nil {
		w.grammarErr = err.Error()
		return nil
	}
	if y != nil {
		w.regenerated = true
		ov[filepath.Join(w.repo, "y.go")] = y
	}
	if w.ysrc = y; y == nil {
		if w.ysrc, err = os.ReadFile(filepath.Join(w.repo, "y.go")); err != nil {
			w.grammarErr = err.Error()
			return nil
		}
	}
	if w.ypar, err = parseY(w.ysrc); err != nil {
		w.grammarErr = err.Error()
		return nil
	}
	gy, err := os.ReadFile(filepath.Join(w.repo, "asn1.y"))
	if err != nil {
		w.grammarErr = err.Error()
		return nil
	}
	if w.gram, err = parseYacc(string(gy)); err != nil {
		w.grammarErr = err.Error()
	}
	return nil
}

var reDollar = regexp.MustCompile(`\$(?:<(\w+)>)?(\d+)`)

// unionTypes are the Go types of the fields of yySymType.
func (y *yparser) unionTypes() map[string]string {
	out := map[string]string{}
	m := regexp.MustCompile(`(?s)type yySymType struct \{(.*?)\n\}`).FindSubmatch(y.src)
	if m == nil {
		return out
	}
	for _, l := range strings.Split(string(m[1]), "\n") {
		if f := strings.Fields(l); len(f) >= 2 {
			out[f[0]] = strings.Join(f[1:], " ")
		}
	}
	return out
}

// bindActions extracts the actions of y.go into functions and gives each the contract of its production.
func (w *World) bindActions(ov map[string][]byte) ([]*Contract, error) {
	if w.grammarErr != "" || w.gram == nil || w.ypar == nil {
		return nil, nil
	}
	specs, err := readActions(w.verif, renames(w.repo, w.verif)["root"])
	if err != nil {
		return nil, err
	}
	w.matchGrammar(specs)
	types := w.ypar.unionTypes()
	// imports of y.go its actions may use
	var src strings.Builder
	var out []*Contract
	for n := 1; n < len(w.gram.prods); n++ {
		p := w.gram.prods[n]
		s := w.prodSpec[n]
		if s == nil || len(s.lines) == 0 && w.ypar.cases[n] == nil {
			continue
		}
		body, line, _, err := w.ypar.actionBody(n)
		if err != nil {
			w.grammarIssue("C09", p.String(), err.Error())
			continue
		}
		name := fmt.Sprintf("zzaction_%d", n)
		init := ""
		if len(p.rhs) > 0 {
			init = "\tyyVAL = yyDollar[1]\n"
		}
		fmt.Fprintf(&src, "func %s(zzlex *MyLexer, yyDollar []yySymType, yyVAL yySymType) yySymType {\n\tvar yylex yyLexer = zzlex\n\t_ = yylex\n\t_ = yyDollar\n%s", name, init)
		if body != "" {
			if line > 0 {
				fmt.Fprintf(&src, "//line asn1.y:%d\n", line)
			}
			src.WriteString(body + "\n")
		}
		src.WriteString("\treturn yyVAL\n}\n\n")
		c := &Contract{Pkg: "root", Name: "action " + p.String(), Pos: fmt.Sprintf("actions.txt:%d", s.no), action: &actionInfo{name},
			Params:  []Param{{"zzlex", "*MyLexer"}, {"yyDollar", "[]yySymType"}, {"yyVAL", "yySymType"}},
			Results: []Param{{"result", "yySymType"}}}
		c.Clauses = append(c.Clauses, &Clause{Kind: "requires", Label: "symbols", Expr: fmt.Sprintf("len(yyDollar) == %d", len(p.rhs)+1)})
		bad := ""
		sub := func(e string) string {
			return reDollar.ReplaceAllStringFunc(e, func(m string) string {
				g := reDollar.FindStringSubmatch(m)
				k, _ := strconv.Atoi(g[2])
				f := g[1]
				if k < 1 || k > len(p.rhs) {
					bad = "symbol " + m + " does not exist"
					return m
				}
				if f == "" {
					f = w.gram.field[p.rhs[k-1]]
				}
				if f == "" {
					bad = p.rhs[k-1] + " has no value"
				}
				return fmt.Sprintf("yyDollar[%d].%s", k, f)
			})
		}
		props := map[string]bool{"C03": true}
		if len(s.lines) == 0 {
			for _, q := range []string{"C05", "C06", "C07", "C08"} {
				props[q] = true // it must change nothing
			}
		}
		for _, l := range s.lines {
			if strings.HasPrefix(l, "!") {
				f := strings.Fields(l[1:])
				switch f[0] {
				case "effects":
					c.Effects = true
				default:
					c.Clauses = append(c.Clauses, &Clause{Kind: f[0], Label: f[0], Expr: sub(strings.Join(f[1:], " "))})
				}
				continue
			}
			j := strings.Index(l, "]")
			cl := &Clause{Kind: "ensures", Label: "value", Props: strings.Fields(l[1:j])}
			e := strings.TrimSpace(l[j+1:])
			if strings.HasPrefix(e, "=") {
				f := w.gram.field[p.lhs]
				if f == "" || types[f] == "" {
					bad = p.lhs + " has no value"
				}
				cl.Expr = fmt.Sprintf("eq(result.%s, (%s)(%s))", f, types[f], sub(strings.TrimSpace(e[1:])))
			} else {
				cl.Label = "effect"
				cl.Expr = sub(strings.TrimSpace(e[1:]))
			}
			for _, q := range cl.Props {
				props[q] = true
			}
			c.Clauses = append(c.Clauses, cl)
		}
		for q := range props {
			c.Props = append(c.Props, q)
		}
		sort.Strings(c.Props)
		if bad != "" {
			for _, q := range c.Props {
				w.grammarIssue(q, p.String(), bad)
			}
			continue
		}
		out = append(out, c)
	}
	// the imports of y.go its actions use
	text := "package asn1go\n\n"
	for _, im := range w.ypar.file.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		name, decl := path[strings.LastIndex(path, "/")+1:], im.Path.Value
		if im.Name != nil {
			name, decl = im.Name.Name, im.Name.Name+" "+im.Path.Value
		}
		if regexp.MustCompile(`\b` + name + `\.`).MatchString(src.String()) {
			text += "import " + decl + "\n"
		}
	}
	text += "\n" + src.String()
	ov[filepath.Join(w.repo, "zz_actions_gen.go")] = []byte(text)
	os.WriteFile(filepath.Join(w.tmp, "actions_gen.go"), []byte(text), 0644)
	return out, nil
}

type grammarIssue struct{ prop, what, why string }

func (w *World) grammarIssue(prop, what, why string) {
	w.grammarIssues = append(w.grammarIssues, grammarIssue{prop, what, why})
}

// matchGrammar finds the contract of every production of the current grammar: by its text, or, if nonterminals were
// renamed or added, by the text under a renaming.
func (w *World) matchGrammar(specs []*actionSpec) {
	w.prodSpec = map[int]*actionSpec{}
	by := map[string][]*actionSpec{}
	for _, s := range specs {
		by[s.prod] = append(by[s.prod], s)
	}
	used := map[*actionSpec]bool{}
	take := func(n int, text string) bool {
		for _, s := range by[text] {
			if !used[s] {
				used[s] = true
				w.prodSpec[n] = s
				return true
			}
		}
		return false
	}
	var rest []int
	for n := 1; n < len(w.gram.prods); n++ {
		if !take(n, w.gram.prods[n].String()) {
			rest = append(rest, n)
		}
	}
	if len(rest) == 0 {
		return
	}
	// a renaming: nonterminals only in the current grammar stand for ones only in the specification
	cur, old := map[string]bool{}, map[string]bool{}
	for _, p := range w.gram.prods[1:] {
		cur[p.lhs] = true
	}
	for _, s := range specs {
		old[strings.Fields(s.prod)[0]] = true
	}
	ren := map[string]string{}
	for changed := true; changed; {
		changed = false
		for _, n := range rest {
			p := w.gram.prods[n]
			for _, s := range specs {
				if used[s] {
					continue
				}
				f := strings.Fields(s.prod)
				f = append(f[:1:1], f[2:]...)
				g := append([]string{p.lhs}, p.rhs...)
				if len(f) != len(g) {
					continue
				}
				m := map[string]string{}
				ok := true
				for i := range f {
					a, b := g[i], f[i]
					if r, in := ren[a]; in {
						a = r
					}
					if a == b {
						continue
					}
					if r, in := m[a]; in && r != b || !cur[a] || old[a] || !old[b] || cur[b] {
						ok = false
						break
					}
					m[a] = b
				}
				if ok && len(m) > 0 {
					for a, b := range m {
						ren[a] = b
					}
					changed = true
				}
			}
		}
	}
	for _, n := range rest {
		p := w.gram.prods[n]
		r := func(s string) string {
			if t, ok := ren[s]; ok {
				return t
			}
			return s
		}
		q := &production{lhs: r(p.lhs)}
		for _, x := range p.rhs {
			q.rhs = append(q.rhs, r(x))
		}
		if !take(n, q.String()) {
			w.grammarIssue("C09", p.String(), "this production is not one of the specified grammar")
		}
	}
}
