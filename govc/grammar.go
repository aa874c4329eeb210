package main

// The grammar, its generated parser and the contracts of its actions. Each semantic action of y.go is extracted into a
// function of its own - its statements unchanged, yyDollar, yyVAL and yylex as parameters - and verified against the
// contract its production has in spec/actions.txt. The tables of y.go are validated against the productions by
// exhaustive enumeration, and the driver around the actions is compared with goyacc's.

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
)

type actionInfo struct {
	goName string
}

type production struct {
	lhs    string
	rhs    []string
	action bool
}

func (p *production) String() string {
	return strings.TrimSpace(p.lhs + " : " + strings.Join(p.rhs, " "))
}

type grammar struct {
	prods  []*production // prods[0] is $accept
	field  map[string]string
	tokens []string
}

// tokenizeYacc splits yacc text into words, punctuation, and whole { } blocks; comments are dropped.
func tokenizeYacc(s string) ([]string, error) {
	var out []string
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case strings.HasPrefix(s[i:], "//"):
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case strings.HasPrefix(s[i:], "/*"):
			j := strings.Index(s[i+2:], "*/")
			if j < 0 {
				return nil, fmt.Errorf("unterminated comment")
			}
			i += j + 4
		case c == '{':
			j, err := blockEnd(s, i)
			if err != nil {
				return nil, err
			}
			out = append(out, s[i:j])
			i = j
		case strings.HasPrefix(s[i:], "%{"):
			j := strings.Index(s[i:], "%}")
			if j < 0 {
				return nil, fmt.Errorf("unterminated %%{")
			}
			i += j + 2
		case strings.HasPrefix(s[i:], "%%"):
			out = append(out, "%%")
			i += 2
		case c == ':' || c == '|' || c == ';':
			out = append(out, string(c))
			i++
		case c == '<':
			j := strings.IndexByte(s[i:], '>')
			if j < 0 {
				return nil, fmt.Errorf("unterminated <")
			}
			out = append(out, s[i:i+j+1])
			i += j + 1
		case c == '\'' || c == '"':
			j := i + 1
			for j < len(s) && s[j] != c {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			out = append(out, s[i:j+1])
			i = j + 1
		default:
			j := i
			for j < len(s) && (s[j] == '_' || s[j] == '%' || s[j] == '.' || s[j] == '$' || s[j] == '-' || s[j] >= '0' && s[j] <= '9' || s[j] >= 'A' && s[j] <= 'Z' || s[j] >= 'a' && s[j] <= 'z') {
				j++
			}
			if j == i {
				return nil, fmt.Errorf("unexpected %q in the grammar", c)
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out, nil
}

func blockEnd(s string, i int) (int, error) {
	depth := 0
	for ; i < len(s); i++ {
		switch {
		case s[i] == '{':
			depth++
		case s[i] == '}':
			depth--
			if depth == 0 {
				return i + 1, nil
			}
		case strings.HasPrefix(s[i:], "//"):
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case strings.HasPrefix(s[i:], "/*"):
			j := strings.Index(s[i+2:], "*/")
			if j < 0 {
				return 0, fmt.Errorf("unterminated comment")
			}
			i += j + 3
		case s[i] == '"' || s[i] == '\'' || s[i] == '`':
			q := s[i]
			for i++; i < len(s) && s[i] != q; i++ {
				if s[i] == '\\' && q != '`' {
					i++
				}
			}
		}
	}
	return 0, fmt.Errorf("unbalanced braces")
}

func parseYacc(src string) (*grammar, error) {
	toks, err := tokenizeYacc(src)
	if err != nil {
		return nil, err
	}
	g := &grammar{field: map[string]string{}}
	i := 0
	for i < len(toks) && toks[i] != "%%" {
		switch toks[i] {
		case "%token", "%type", "%left", "%right", "%nonassoc":
			kind := toks[i]
			f := ""
			for i++; i < len(toks) && !strings.HasPrefix(toks[i], "%"); i++ {
				t := toks[i]
				if strings.HasPrefix(t, "<") {
					f = t[1 : len(t)-1]
					continue
				}
				if f != "" {
					g.field[t] = f
				}
				if kind != "%type" {
					g.tokens = append(g.tokens, t)
				}
			}
		default:
			i++
		}
	}
	i++
	g.prods = []*production{{lhs: "$accept"}}
	for i < len(toks) && toks[i] != "%%" {
		lhs := toks[i]
		if i+1 >= len(toks) || toks[i+1] != ":" {
			return nil, fmt.Errorf("production of %s has no colon", lhs)
		}
		i += 2
		cur := &production{lhs: lhs}
		for {
			if i >= len(toks) || toks[i] == "%%" || toks[i] == ";" || i+1 < len(toks) && toks[i+1] == ":" {
				break
			}
			switch t := toks[i]; {
			case t == "|":
				g.prods = append(g.prods, cur)
				cur = &production{lhs: lhs}
			case strings.HasPrefix(t, "{"):
				cur.action = true
			case t == "%prec":
				i++
			default:
				if cur.action {
					return nil, fmt.Errorf("action inside of a production of %s", lhs)
				}
				cur.rhs = append(cur.rhs, t)
			}
			i++
		}
		g.prods = append(g.prods, cur)
		if i < len(toks) && toks[i] == ";" {
			i++
		}
	}
	if len(g.prods) < 2 {
		return nil, fmt.Errorf("no productions")
	}
	g.prods[0].rhs = []string{g.prods[1].lhs, "$end"}
	return g, nil
}

// ---------------------------------------------------------------------------------------------------- regeneration

func shaOf(b []byte) string { return fmt.Sprintf("%x", sha256.Sum256(b)) }

// knownPairs lists the sums of asn1.y and its y.go as committed: in the base tree and in the repaired one.
func knownPairs(verif string) (out [][2]string) {
	b, _ := os.ReadFile(filepath.Join(verif, "spec", "generated.sha256"))
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) == 2 && !strings.HasPrefix(l, "#") {
			out = append(out, [2]string{f[0], f[1]})
		}
	}
	return
}

// regeneratedY is the parser generated from an edited grammar whose y.go was left alone, nil if the committed one is in
// use.
func regeneratedY(repo, verif, tmp string) ([]byte, error) {
	gy, err := os.ReadFile(filepath.Join(repo, "asn1.y"))
	if err != nil {
		return nil, err
	}
	y, err := os.ReadFile(filepath.Join(repo, "y.go"))
	if err != nil {
		return nil, err
	}
	stale := false
	for _, p := range knownPairs(verif) {
		if p[1] == shaOf(y) {
			stale = p[0] != shaOf(gy)
			break
		}
	}
	if !stale {
		return nil, nil
	}
	bin := "/opt/vp/bin/goyacc"
	if _, err := os.Stat(bin); err != nil {
		bin = filepath.Join(tmp, "goyacc")
		if out, err := runCmd(verif, goEnv(tmp), "go", "build", "-modfile="+filepath.Join(verif, "govc", "go.mod"), "-o", bin, "golang.org/x/tools/cmd/goyacc"); err != nil {
			return nil, fmt.Errorf("goyacc: %s", out)
		}
	}
	dir, err := os.MkdirTemp(tmp, "yacc")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	if err := os.WriteFile(filepath.Join(dir, "asn1.y"), gy, 0644); err != nil {
		return nil, err
	}
	c := exec.Command(bin, "-o", "y.go", "-v", "y.output", "asn1.y")
	c.Dir = dir
	if out, err := c.CombinedOutput(); err != nil {
		return nil, fmt.Errorf("goyacc refuses asn1.y: %v %s", err, out)
	}
	return os.ReadFile(filepath.Join(dir, "y.go"))
}

// ---------------------------------------------------------------------------------------------------- y.go

type yparser struct {
	src     []byte
	fset    *token.FileSet
	file    *ast.File
	parse   *ast.FuncDecl
	cases   map[int]*ast.CaseClause
	sw      *ast.SwitchStmt
	tab     map[string][]int
	cons    map[string]int
	names   []string // yyToknames
	problem string
}

func evalInt(e ast.Expr, cons map[string]int) (int, bool) {
	switch e := e.(type) {
	case *ast.BasicLit:
		if e.Kind == token.INT {
			n, err := strconv.Atoi(e.Value)
			return n, err == nil
		}
	case *ast.UnaryExpr:
		n, ok := evalInt(e.X, cons)
		if e.Op == token.SUB {
			return -n, ok
		}
	case *ast.ParenExpr:
		return evalInt(e.X, cons)
	case *ast.Ident:
		n, ok := cons[e.Name]
		return n, ok
	}
	return 0, false
}

func parseY(src []byte) (*yparser, error) {
	y := &yparser{src: src, fset: token.NewFileSet(), cases: map[int]*ast.CaseClause{}, tab: map[string][]int{}, cons: map[string]int{}}
	f, err := parser.ParseFile(y.fset, "y.go", src, 0)
	if err != nil {
		return nil, err
	}
	y.file = f
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.GenDecl:
			for _, s := range d.Specs {
				vs, ok := s.(*ast.ValueSpec)
				if !ok || len(vs.Names) != 1 || len(vs.Values) != 1 {
					continue
				}
				n := vs.Names[0].Name
				if d.Tok == token.CONST {
					if v, ok := evalInt(vs.Values[0], y.cons); ok {
						y.cons[n] = v
					}
					continue
				}
				cl, ok := vs.Values[0].(*ast.CompositeLit)
				if !ok {
					continue
				}
				if n == "yyToknames" {
					for _, e := range cl.Elts {
						if b, ok := e.(*ast.BasicLit); ok {
							t, _ := strconv.Unquote(b.Value)
							y.names = append(y.names, t)
						}
					}
					continue
				}
				if strings.HasPrefix(n, "yy") {
					var l []int
					for _, e := range cl.Elts {
						v, ok := evalInt(e, y.cons)
						if !ok {
							l = nil
							break
						}
						l = append(l, v)
					}
					y.tab[n] = l
				}
			}
		case *ast.FuncDecl:
			if d.Name.Name == "Parse" && d.Recv != nil {
				y.parse = d
			}
		}
	}
	if y.parse == nil {
		return nil, fmt.Errorf("y.go has no Parse")
	}
	for _, s := range y.parse.Body.List {
		ast.Inspect(s, func(n ast.Node) bool {
			if sw, ok := n.(*ast.SwitchStmt); ok {
				if id, ok := sw.Tag.(*ast.Ident); ok && id.Name == "yynt" {
					y.sw = sw
				}
			}
			return true
		})
	}
	if y.sw == nil {
		return nil, fmt.Errorf("Parse has no switch over yynt")
	}
	for _, s := range y.sw.Body.List {
		cc := s.(*ast.CaseClause)
		for _, e := range cc.List {
			n, ok := evalInt(e, y.cons)
			if !ok || len(cc.List) != 1 {
				return nil, fmt.Errorf("unexpected case in the actions of y.go")
			}
			y.cases[n] = cc
		}
	}
	return y, nil
}

// text is the source of a node.
func (y *yparser) text(from, to token.Pos) string {
	return string(y.src[y.fset.PositionFor(from, false).Offset:y.fset.PositionFor(to, false).Offset])
}

var reDollarLen = regexp.MustCompile(`^yyDollar = yyS\[yypt-(\d+) ?: ?yypt\+1\]$`)

// actionBody is the statements of the action of production n and the number of symbols yyDollar is given.
func (y *yparser) actionBody(n int) (body string, line int, k int, err error) {
	cc := y.cases[n]
	if cc == nil {
		return "", 0, -1, nil
	}
	if len(cc.Body) == 0 {
		return "", 0, 0, fmt.Errorf("empty case")
	}
	m := reDollarLen.FindStringSubmatch(strings.TrimSpace(y.text(cc.Body[0].Pos(), cc.Body[0].End())))
	if m == nil {
		return "", 0, 0, fmt.Errorf("the case does not begin by taking the symbols of its right-hand side")
	}
	k, _ = strconv.Atoi(m[1])
	if len(cc.Body) == 1 {
		return "", 0, k, nil
	}
	line = y.fset.PositionFor(cc.Body[1].Pos(), true).Line
	return y.text(cc.Body[1].Pos(), cc.Body[len(cc.Body)-1].End()), line, k, nil
}

// driver is the text of y.go's functions without the actions.
func (y *yparser) driver() string {
	saved := y.sw.Body.List
	y.sw.Body.List = nil
	defer func() { y.sw.Body.List = saved }()
	var b bytes.Buffer
	for _, d := range y.file.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok {
			printer.Fprint(&b, token.NewFileSet(), fd)
			b.WriteString("\n")
		}
	}
	return b.String()
}
