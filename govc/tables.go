package main

// Validation of the parser's tables against the grammar, by exhaustive enumeration of the automaton they define.

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type lrtab struct {
	y       *yparser
	g       *grammar
	r1, r2  []int
	pact    []int
	act     []int
	chk     []int
	def     []int
	exca    []int
	pgo     []int
	last    int
	flag    int
	symTok  map[string]int // token name -> internal number
	tokName map[int]string
	ntName  map[int]string
	ntNum   map[string]int
	errs    []string
}

func (l *lrtab) bad(f string, a ...interface{}) {
	if len(l.errs) < 20 {
		l.errs = append(l.errs, fmt.Sprintf(f, a...))
	}
}

func newTables(y *yparser, g *grammar) (*lrtab, error) {
	l := &lrtab{y: y, g: g, r1: y.tab["yyR1"], r2: y.tab["yyR2"], pact: y.tab["yyPact"], act: y.tab["yyAct"], chk: y.tab["yyChk"],
		def: y.tab["yyDef"], exca: y.tab["yyExca"], pgo: y.tab["yyPgo"], last: y.cons["yyLast"], flag: y.cons["yyFlag"],
		symTok: map[string]int{}, tokName: map[int]string{}, ntName: map[int]string{}, ntNum: map[string]int{}}
	for _, n := range []string{"yyR1", "yyR2", "yyPact", "yyAct", "yyChk", "yyDef", "yyExca", "yyPgo", "yyTok1", "yyTok2", "yyTok3"} {
		if len(y.tab[n]) == 0 {
			return nil, fmt.Errorf("y.go has no table %s", n)
		}
	}
	if len(l.pact) != len(l.def) || len(l.chk) != len(l.pact) || len(l.act) != l.last || len(l.r1) != len(l.r2) {
		return nil, fmt.Errorf("the tables' lengths do not agree")
	}
	return l, nil
}

// production agreement: yyR1, yyR2 and yyToknames are those of the grammar.
func (l *lrtab) agreement() {
	if len(l.r1) != len(l.g.prods) {
		l.bad("y.go has %d productions, asn1.y %d", len(l.r1)-1, len(l.g.prods)-1)
		return
	}
	nts := map[string]bool{}
	for _, p := range l.g.prods {
		nts[p.lhs] = true
	}
	for n := 1; n < len(l.r1); n++ {
		p := l.g.prods[n]
		if l.r2[n] != len(p.rhs) {
			l.bad("y.go takes %d symbols for %q", l.r2[n], p.String())
		}
		if m, ok := l.ntNum[p.lhs]; ok && m != l.r1[n] {
			l.bad("y.go reduces %q to another nonterminal", p.String())
		}
		if m, ok := l.ntName[l.r1[n]]; ok && m != p.lhs {
			l.bad("y.go takes %s for %s", p.lhs, m)
		}
		l.ntNum[p.lhs] = l.r1[n]
		l.ntName[l.r1[n]] = p.lhs
		if k, ok := actionLen(l.y, n); ok && k != len(p.rhs) {
			l.bad("the action of %q takes %d symbols", p.String(), k)
		}
		if p.action != (l.y.cases[n] != nil) {
			l.bad("the action of %q is not that of asn1.y", p.String())
		}
	}
	// tokens: position in yyToknames is the internal number - goyacc lists $end, error, $unk first
	for i, t := range l.y.names {
		l.symTok[t] = i + 1
		l.tokName[i+1] = t
	}
	for _, p := range l.g.prods[1:] {
		for _, s := range p.rhs {
			if !nts[s] && l.symTok[s] == 0 {
				l.bad("token %s of the grammar is not in yyToknames", s)
			}
			if s == "error" {
				l.bad("the grammar recovers from errors")
			}
		}
	}
	// characters: what the lexer returns for a token is translated to it, and nothing else is
	seen := map[int]string{}
	for _, t := range l.g.tokens {
		c, ok := l.y.cons[t]
		if !ok {
			l.bad("y.go does not define %s", t)
			continue
		}
		if o, dup := seen[c]; dup {
			l.bad("%s and %s have the same value", t, o)
		}
		seen[c] = t
		if l.translate(c) != l.symTok[t] {
			l.bad("token %s is taken for %s", t, l.tokName[l.translate(c)])
		}
	}
	if l.translate(0) != 1 || len(l.y.names) == 0 || l.y.names[0] != "$end" {
		l.bad("the end of the text is not token $end")
	}
	unk := l.symTok["$unk"]
	for c := 1; c < 70000; c++ {
		if c == l.y.cons["yyPrivate"] { // the character of error, which no lexer returns
			continue
		}
		if seen[c] == "" && l.translate(c) != unk {
			l.bad("character %d is taken for %s", c, l.tokName[l.translate(c)])
		}
	}
}

func actionLen(y *yparser, n int) (int, bool) {
	_, _, k, err := y.actionBody(n)
	return k, err == nil && k >= 0
}

func (l *lrtab) translate(c int) int {
	t1, t2, t3 := l.y.tab["yyTok1"], l.y.tab["yyTok2"], l.y.tab["yyTok3"]
	priv := l.y.cons["yyPrivate"]
	tok := 0
	if c <= 0 {
		tok = t1[0]
	} else if c < len(t1) {
		tok = t1[c]
	} else if c >= priv && c < priv+len(t2) {
		tok = t2[c-priv]
	} else {
		for i := 0; i+1 < len(t3); i += 2 {
			if t3[i] == c {
				tok = t3[i+1]
				break
			}
		}
	}
	if tok == 0 {
		tok = t2[1]
	}
	return tok
}

const (
	actShift = iota
	actReduce
	actAccept
	actError
)

// action is what the driver does in a state with a token.
func (l *lrtab) action(s, tok int) (int, int) {
	n := l.pact[s]
	if n > l.flag {
		n += tok
		if n >= 0 && n < l.last {
			n = l.act[n]
			if n < 0 || n >= len(l.chk) {
				l.bad("state %d: yyAct leaves the tables", s)
				return actError, 0
			}
			if l.chk[n] == tok {
				return actShift, n
			}
		}
	}
	n = l.def[s]
	if n == -2 {
		xi := 0
		for {
			if xi+1 >= len(l.exca) {
				l.bad("state %d has no entry in yyExca", s)
				return actError, 0
			}
			if l.exca[xi] == -1 && l.exca[xi+1] == s {
				break
			}
			xi += 2
		}
		for xi += 2; ; xi += 2 {
			if xi+1 >= len(l.exca) {
				l.bad("the entry of state %d in yyExca does not end", s)
				return actError, 0
			}
			n = l.exca[xi]
			if n < 0 || n == tok {
				break
			}
		}
		n = l.exca[xi+1]
		if n < 0 {
			return actAccept, 0
		}
	}
	if n == 0 {
		return actError, 0
	}
	return actReduce, n
}

// needsToken tells whether the driver reads a token before it acts in the state.
func (l *lrtab) gotoState(s, nt int) int {
	g := l.pgo[nt]
	j := g + s + 1
	if j >= l.last || j < 0 {
		return l.act[g]
	}
	t := l.act[j]
	if t < 0 || t >= len(l.chk) || l.chk[t] != -nt {
		return l.act[g]
	}
	return t
}

type edges struct {
	out  map[int]map[int]bool
	back map[int]map[int]bool
}

func (l *lrtab) accName(s int) string {
	c := l.chk[s]
	if c > 0 {
		return l.tokName[c]
	}
	return l.ntName[-c]
}

// symbols proves that whenever the driver reduces by a production the symbols on top of its stack are those of the
// production's right-hand side, and that it accepts only a whole text that is the start symbol. The stack is a path in
// the automaton: the least set of edges closed under shifts and reductions over-approximates the paths of all runs.
func (l *lrtab) automaton() *edges {
	e := &edges{map[int]map[int]bool{}, map[int]map[int]bool{}}
	reach := map[int]bool{0: true}
	ntok := len(l.y.names)
	type se struct{ s, t int }
	var queue []se
	add := func(s, t int) {
		if e.out[s] == nil {
			e.out[s] = map[int]bool{}
		}
		if e.back[t] == nil {
			e.back[t] = map[int]bool{}
		}
		if !e.out[s][t] {
			e.out[s][t] = true
			e.back[t][s] = true
			queue = append(queue, se{s, t})
		}
	}
	type red struct{ s, p int }
	reds := map[red]bool{}
	expand := func(s int) {
		for tok := 1; tok <= ntok; tok++ {
			a, n := l.action(s, tok)
			switch a {
			case actShift:
				if tok == l.symTok["error"] {
					l.bad("state %d shifts error", s)
				}
				add(s, n)
			case actReduce:
				if n >= len(l.r1) {
					l.bad("state %d reduces by production %d", s, n)
					continue
				}
				reds[red{s, n}] = true
			}
		}
	}
	expand(0)
	apply := func(r red) {
		p := l.g.prods[r.p]
		k := len(p.rhs)
		level := map[int]bool{r.s: true}
		for i := k - 1; i >= 0; i-- {
			next := map[int]bool{}
			for s := range level {
				if s == 0 {
					l.bad("%q may be reduced where the stack holds too few symbols", p.String())
					continue
				}
				if l.accName(s) != p.rhs[i] {
					l.bad("%q may be reduced when its symbol %d is %s", p.String(), i+1, l.accName(s))
					return
				}
				for q := range e.back[s] {
					next[q] = true
				}
			}
			level = next
		}
		for q := range level {
			g := l.gotoState(q, l.r1[r.p])
			if g < 0 || g >= len(l.chk) {
				l.bad("state %d goes to state %d with %s", q, g, p.lhs)
				continue
			}
			if l.chk[g] != -l.r1[r.p] {
				l.bad("state %d goes to a state of %s with %s", q, l.accName(g), p.lhs)
				continue
			}
			add(q, g)
		}
	}
	for len(queue) > 0 || true {
		for len(queue) > 0 {
			x := queue[0]
			queue = queue[1:]
			if !reach[x.t] {
				reach[x.t] = true
				expand(x.t)
			}
		}
		var rs []red
		for r := range reds {
			rs = append(rs, r)
		}
		sort.Slice(rs, func(i, j int) bool { return rs[i].s < rs[j].s || rs[i].s == rs[j].s && rs[i].p < rs[j].p })
		for _, r := range rs {
			apply(r)
			if len(l.errs) > 10 {
				return e
			}
		}
		if len(queue) == 0 {
			break
		}
	}
	start := l.g.prods[1].lhs
	accepts := 0
	for s := range reach {
		for tok := 1; tok <= ntok; tok++ {
			if a, _ := l.action(s, tok); a == actAccept {
				accepts++
				if tok != l.symTok["$end"] {
					l.bad("the text is accepted before %s", l.tokName[tok])
				}
				if l.accName(s) != start || len(e.back[s]) != 1 || !e.back[s][0] {
					l.bad("the text is accepted when the stack does not hold just %s", start)
				}
			}
		}
	}
	if accepts == 0 {
		l.bad("no text is accepted")
	}
	return e
}

// termination proves that the driver does a bounded number of reductions between two tokens: from every pair of
// neighbouring states and with every next token, it shifts, accepts, reports an error or takes the lower of the two
// states from the stack.
func (l *lrtab) termination(e *edges) {
	for q, ts := range e.out {
		for s := range ts {
			for tok := 1; tok <= len(l.y.names); tok++ {
				stack := []int{q, s}
				steps := 0
				for {
					a, n := l.action(stack[len(stack)-1], tok)
					if a != actReduce {
						break
					}
					k := l.r2[n]
					if len(stack)-k < 1 {
						break
					}
					stack = stack[:len(stack)-k]
					stack = append(stack, l.gotoState(stack[len(stack)-1], l.r1[n]))
					if steps++; steps > 4*len(l.chk) {
						l.bad("from states %d %d before %s the parser reduces for ever", q, s, l.tokName[tok])
						break
					}
				}
				if len(l.errs) > 10 {
					return
				}
			}
		}
	}
	// the bottom of the stack
	for tok := 1; tok <= len(l.y.names); tok++ {
		stack := []int{0}
		for steps := 0; ; steps++ {
			a, n := l.action(stack[len(stack)-1], tok)
			if a != actReduce || len(stack)-l.r2[n] < 1 {
				break
			}
			stack = append(stack[:len(stack)-l.r2[n]], 0)
			stack[len(stack)-1] = l.gotoState(stack[len(stack)-2], l.r1[n])
			if steps > 4*len(l.chk) {
				l.bad("at the start before %s the parser reduces for ever", l.tokName[tok])
				break
			}
		}
	}
}

// bounds proves that the driver's accesses to its tables stay inside of them.
func (l *lrtab) bounds() {
	for s := range l.pact {
		for tok := 1; tok <= len(l.y.names); tok++ {
			l.action(s, tok)
		}
		for nt := range l.ntName {
			if nt >= len(l.pgo) || l.pgo[nt] >= len(l.act) {
				l.bad("yyPgo leaves the tables at %s", l.ntName[nt])
				return
			}
			g := l.gotoState(s, nt)
			if g < 0 || g >= len(l.pact) {
				l.bad("state %d goes nowhere with %s", s, l.ntName[nt])
			}
		}
	}
}

// dead action text: a production no value of which is used needs none
func (w *World) staticObligations(kind string) []*Obl {
	var out []*Obl
	add := func(name string, errs []string, props ...string) {
		o := &Obl{Fn: "y.go", Name: name, Kind: kind, Props: props, Static: "ok", Where: "y.go"}
		if len(errs) > 0 {
			o.Static = strings.Join(errs, "; ")
		}
		out = append(out, o)
	}
	switch kind {
	case "state":
		w.stateObligations(func(fn, name string, errs []string) {
			add(name, errs)
			out[len(out)-1].Fn = fn
			out[len(out)-1].Where = fn
		})
	case "grammar":
		if w.grammarErr != "" || w.gram == nil || w.ypar == nil {
			add("the grammar can be read", []string{w.grammarErr})
			return out
		}
		var issues []string
		for _, i := range w.grammarIssues {
			issues = append(issues, i.what+": "+i.why)
		}
		add("every production is one of the specified grammar and has its contract", issues)
		l, err := newTables(w.ypar, w.gram)
		if err != nil {
			add("the tables can be read", []string{err.Error()})
			return out
		}
		take := func() []string { e := l.errs; l.errs = nil; return e }
		l.agreement()
		ok := len(l.errs) == 0
		add("productions, tokens and actions of y.go are those of asn1.y", take())
		if !ok {
			return out
		}
		l.automaton()
		add("each reduction covers the symbols of its right-hand side, and only a whole module is accepted", take())
		want, _ := os.ReadFile(filepath.Join(w.verif, "spec", "driver.txt"))
		var diff []string
		if got := w.ypar.driver(); got != string(want) {
			diff = []string{"y.go's driver is not the one goyacc generates"}
			a, b := strings.Split(string(want), "\n"), strings.Split(got, "\n")
			for i := 0; i < len(a) && i < len(b); i++ {
				if a[i] != b[i] {
					diff = append(diff, fmt.Sprintf("line %d of it is %q instead of %q", i+1, b[i], a[i]))
					break
				}
			}
		}
		add("the driver is goyacc's", diff)
	case "tables":
		if w.grammarErr != "" || w.gram == nil || w.ypar == nil {
			return out
		}
		l, err := newTables(w.ypar, w.gram)
		if err != nil {
			add("the tables can be read", []string{err.Error()})
			return out
		}
		take := func() []string { e := l.errs; l.errs = nil; return e }
		l.agreement()
		if len(l.errs) > 0 { // C09's
			return out
		}
		l.bounds()
		add("the tables are never left", take())
		e := l.automaton()
		l.errs = nil // C09's
		l.termination(e)
		add("the parser reduces a bounded number of times between two tokens", take())
	case "lists":
		if w.grammarErr != "" || w.gram == nil || w.ypar == nil {
			return out
		}
		var errs []string
		for n, cc := range w.ypar.cases {
			for _, e := range sharedLists(cc.Body) {
				errs = append(errs, fmt.Sprintf("%s: %s", w.gram.prods[n].String(), e))
			}
		}
		sort.Strings(errs)
		add("a list that is appended to has no other owner", errs)
	}
	return out
}

// sharedLists are the symbol values an action appends to and uses a second time, so that two lists share an array.
func sharedLists(body []ast.Stmt) (out []string) {
	path := func(e ast.Expr) string {
		if _, ok := e.(*ast.SelectorExpr); !ok {
			return ""
		}
		s := types.ExprString(e)
		if !strings.HasPrefix(s, "yyDollar[") {
			return ""
		}
		return s
	}
	appended := map[string]int{}
	uses := map[string]int{}
	for _, st := range body {
		ast.Inspect(st, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.CallExpr:
				if id, ok := n.Fun.(*ast.Ident); ok && len(n.Args) > 0 {
					if id.Name == "append" {
						if p := path(n.Args[0]); p != "" {
							appended[p]++
						}
						// the elements of an appended list are copied
						for i, a := range n.Args[1:] {
							if path(a) == "" || n.Ellipsis == 0 || i != len(n.Args)-2 {
								ast.Inspect(a, func(m ast.Node) bool { return count(m, path, uses) })
							}
						}
						if path(n.Args[0]) == "" {
							ast.Inspect(n.Args[0], func(m ast.Node) bool { return count(m, path, uses) })
						}
						return false
					}
					if id.Name == "len" || id.Name == "cap" || id.Name == "copy" {
						return false
					}
				}
			case ast.Expr:
				return count(n, path, uses)
			}
			return true
		})
	}
	for p, n := range appended {
		m := 0
		for q, k := range uses {
			if q == p || strings.HasPrefix(p, q+".") || strings.HasPrefix(q, p+".") {
				m += k
			}
		}
		if n+m > 1 {
			out = append(out, p+" is appended to and used elsewhere")
		}
	}
	return
}

func count(n ast.Node, path func(ast.Expr) string, uses map[string]int) bool {
	if e, ok := n.(ast.Expr); ok {
		if p := path(e); p != "" {
			uses[p]++
			return false
		}
	}
	return true
}
