package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/chemikadze/asn1go"

// World is one loaded version of /repo together with its contracts.
type World struct {
	gram            *grammar
	ypar            *yparser
	ysrc            []byte
	grammarErr      string
	grammarIssues   []grammarIssue
	prodSpec        map[int]*actionSpec
	regenerated     bool
	repo            string
	verif           string
	tmp             string
	overlay         map[string][]byte // path in repo -> content, used for loading
	fset            *token.FileSet
	prog            *ssa.Program
	pkgs            map[string]*ssa.Package // by short name: root, utils, asn1go, ws2bin
	ppkgs           map[string]*packages.Package
	fns             map[string]*ssa.Function // "root:(*MyLexer).Lex"
	contracts       map[*ssa.Function]*Contract
	clist           []*Contract
	lemmas          map[string]*Contract
	leftOut         []string          // declarations of the specification that do not compile
	missing         []missingContract // contracts without function
	specRec         map[*ssa.Function]bool
	unfoldMemo      map[*Term]*Term
	globals         map[*ssa.Global]*constGlobal
	loops           map[*ssa.Function][]*Loop
	implMemo        map[string][]types.Type
	nonnilElem      map[string]bool
	usedAssumptions map[string]bool
	mu              sync.Mutex
	closures        map[string]*ssa.Function
	constMaps       map[string]*constGlobal
	specByName      map[string]*ssa.Function
	allFns          map[*ssa.Function]bool
	noTermination   map[string]bool
	inlined         map[string]map[string]bool
	calledContracts map[string]map[string]bool
	externals       map[string]bool
	calleeMemo      map[*ssa.Function][]*ssa.Function
	thorough        bool
	patient         bool
	first           bool  // the first open obligation is enough
	hard            int64 // obligations that stayed open in the function at hand
	regenY          bool
	ygo             string // text of y.go in use
}

var pkgDirs = []struct{ key, dir, path string }{
	{"root", ".", modPath},
	{"utils", "internal/utils", modPath + "/internal/utils"},
	{"asn1go", "cmd/asn1go", modPath + "/cmd/asn1go"},
	{"ws2bin", "cmd/ws2bin", modPath + "/cmd/ws2bin"},
}

type Clause struct {
	Kind    string // requires ensures panics decreases inv measure modifies uses
	Label   string
	Props   []string
	Expr    string
	Foralls []Param
	Exists  []Param
	Pats    []Param // loop pattern variables
	GoName  string
	fn      *ssa.Function
}

type Param struct{ Name, Type string }

type Contract struct {
	Pkg     string
	Name    string // relative function name
	Params  []Param
	Results []Param
	Props   []string
	Clauses []*Clause
	Lemma   bool
	Inline  bool   // contract applies to verification only; callers see the body
	Effects bool   // the function has effects outside of the program
	Trusted string // non-empty: body not verified, reason
	Pos     string
	fn      *ssa.Function
	action  *actionInfo
	unfit   string // why its clauses do not compile
}

type missingContract struct {
	c   *Contract
	why string
}

func (c *Contract) clauses(kind string) (out []*Clause) {
	for _, cl := range c.Clauses {
		if cl.Kind == kind {
			out = append(out, cl)
		}
	}
	return
}

func goEnv(tmp string) []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "GOWORK", "GOSUMDB", "GO111MODULE":
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "GOSUMDB=off", "GO111MODULE=on",
		"GOFLAGS=-mod=mod -modfile="+filepath.Join(tmp, "repo.mod"))
}

func copyFile(src, dst string) {
	b, err := os.ReadFile(src)
	if err == nil {
		os.WriteFile(dst, b, 0644)
	}
}

// specOverlay returns the spec files of all packages, keyed by their place in the repo.
func specOverlay(repo, verif string) map[string][]byte {
	ov := map[string][]byte{}
	for _, pd := range pkgDirs {
		files, _ := filepath.Glob(filepath.Join(verif, "spec", pd.key, "*.go"))
		for _, f := range files {
			b, err := os.ReadFile(f)
			if err != nil {
				panic(err)
			}
			ov[filepath.Join(repo, pd.dir, "zz_verif_"+filepath.Base(f))] = renameIn(b, renames(repo, verif)[pd.key])
		}
	}
	return ov
}

var reOld = regexp.MustCompile(`\bold\(`)

// rewriteOld replaces old(e) by e over the entry-state parameters.
func rewriteOld(e string, params []Param) string {
	for {
		loc := reOld.FindStringIndex(e)
		if loc == nil {
			return e
		}
		depth, i := 0, loc[1]-1
		for ; i < len(e); i++ {
			if e[i] == '(' {
				depth++
			} else if e[i] == ')' {
				depth--
				if depth == 0 {
					break
				}
			}
		}
		inner := e[loc[1]:i]
		for _, p := range params {
			inner = regexp.MustCompile(`(^|[^\w.])`+regexp.QuoteMeta(p.Name)+`\b`).ReplaceAllString(inner, "${1}old_"+p.Name)
		}
		e = e[:loc[0]] + "(" + inner + ")" + e[i+1:]
	}
}

// splitTop splits at sep outside of brackets and strings.
func splitTop(e, sep string) []string {
	var out []string
	depth, last := 0, 0
	var quote byte
	for i := 0; i < len(e); i++ {
		c := e[i]
		if quote != 0 {
			if c == '\\' && quote != '`' {
				i++
			} else if c == quote {
				quote = 0
			}
			continue
		}
		switch c {
		case '"', '`', '\'':
			quote = c
		case '(', '[', '{':
			depth++
		case ')', ']', '}':
			depth--
		}
		if depth == 0 && strings.HasPrefix(e[i:], sep) {
			out = append(out, e[last:i])
			last = i + len(sep)
			i = last - 1
		}
	}
	return append(out, e[last:])
}

func rewriteImplies(e string) string {
	// innermost first: handle parenthesised parts
	var b strings.Builder
	for i := 0; i < len(e); i++ {
		if e[i] == '(' {
			depth, j := 0, i
			for ; j < len(e); j++ {
				if e[j] == '(' {
					depth++
				} else if e[j] == ')' {
					depth--
					if depth == 0 {
						break
					}
				}
			}
			b.WriteString("(" + rewriteImplies(e[i+1:j]) + ")")
			i = j
			continue
		}
		b.WriteByte(e[i])
	}
	e = b.String()
	parts := splitTop(e, "==>")
	r := strings.TrimSpace(parts[len(parts)-1])
	for i := len(parts) - 2; i >= 0; i-- {
		r = fmt.Sprintf("(!(%s) || (%s))", strings.TrimSpace(parts[i]), r)
	}
	return r
}

func parseParams(s string) []Param {
	var out []Param
	for _, p := range splitTop(s, ",") {
		p = strings.TrimSpace(p)
		if p == "" {
			continue
		}
		f := strings.SplitN(p, " ", 2)
		if len(f) == 1 {
			out = append(out, Param{f[0], ""})
		} else {
			out = append(out, Param{f[0], strings.TrimSpace(f[1])})
		}
	}
	for i := len(out) - 2; i >= 0; i-- {
		if out[i].Type == "" {
			out[i].Type = out[i+1].Type
		}
	}
	return out
}

var reClause = regexp.MustCompile(`^(\w+)\s*(?:\[([^\]]*)\])?\s*(.*)$`)

// parseContracts reads the //@ blocks of a spec file.
func parseContracts(pkg, file string, src []byte) ([]*Contract, error) {
	var out []*Contract
	var cur *Contract
	var lines []string
	var nos []int
	for i, l := range strings.Split(string(src), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "//@") {
			t := strings.TrimSpace(l[3:])
			if strings.HasPrefix(t, "...") && len(lines) > 0 { // continuation
				lines[len(lines)-1] += " " + strings.TrimSpace(t[3:])
				continue
			}
			lines = append(lines, t)
			nos = append(nos, i+1)
		}
	}
	for i, l := range lines {
		if l == "" {
			continue
		}
		m := reClause.FindStringSubmatch(l)
		if m == nil {
			return nil, fmt.Errorf("%s:%d: bad contract line %q", file, nos[i], l)
		}
		kind, props, rest := m[1], m[2], m[3]
		switch kind {
		case "func", "lemma", "action":
			c := &Contract{Pkg: pkg, Lemma: kind == "lemma", Pos: fmt.Sprintf("%s:%d", filepath.Base(file), nos[i])}
			if kind == "action" {
				c.Name = "action " + strings.Join(strings.Fields(rest), " ")
				cur = c
				out = append(out, c)
				break
			}
			s := rest
			if strings.HasPrefix(s, "(") {
				j := strings.Index(s, ")")
				ps := parseParams(s[1:j])
				c.Params = ps
				s = strings.TrimSpace(s[j+1:])
				k := strings.Index(s, "(")
				c.Name = "(" + ps[0].Type + ")." + strings.TrimSpace(s[:k])
				s = s[k:]
			} else {
				k := strings.Index(s, "(")
				c.Name = strings.TrimSpace(s[:k])
				s = s[k:]
			}
			depth, j := 0, 0
			for ; j < len(s); j++ {
				if s[j] == '(' {
					depth++
				} else if s[j] == ')' {
					depth--
					if depth == 0 {
						break
					}
				}
			}
			c.Params = append(c.Params, parseParams(s[1:j])...)
			s = strings.TrimSpace(s[j+1:])
			if strings.HasPrefix(s, "(") {
				c.Results = parseParams(s[1 : len(s)-1])
			} else if s != "" {
				c.Results = []Param{{"result", s}}
			}
			cur = c
			out = append(out, c)
		case "props":
			cur.Props = append(cur.Props, strings.Fields(rest)...)
		case "trusted":
			cur.Trusted = rest
		case "inline":
			cur.Inline = true
		case "effects":
			cur.Effects = true
		case "requires", "ensures", "panics", "decreases", "inv", "measure", "modifies", "uses", "exits":
			cl := &Clause{Kind: kind}
			for _, p := range strings.FieldsFunc(props, func(r rune) bool { return r == ',' || r == ' ' }) {
				cl.Props = append(cl.Props, p)
			}
			if kind == "inv" || kind == "measure" || kind == "uses" {
				if strings.HasPrefix(rest, "(") {
					j := strings.Index(rest, ")")
					cl.Pats = parseParams(rest[1:j])
					rest = strings.TrimSpace(rest[j+1:])
				}
			} else if kind == "ensures" || kind == "requires" || kind == "panics" || kind == "exits" {
				if j := regexp.MustCompile(`^(\w+):\s`).FindStringSubmatchIndex(rest); j != nil {
					cl.Label = rest[j[2]:j[3]]
					rest = rest[j[1]:]
				}
			}
			if strings.HasPrefix(rest, "exists ") {
				p := splitTop(rest[7:], "::")
				cl.Exists = parseParams(p[0])
				rest = strings.TrimSpace(strings.Join(p[1:], "::"))
			}
			if strings.HasPrefix(rest, "forall ") {
				p := splitTop(rest[7:], "::")
				cl.Foralls = parseParams(p[0])
				rest = strings.TrimSpace(strings.Join(p[1:], "::"))
			}
			cl.Expr = rest
			if cl.Label == "" {
				cl.Label = fmt.Sprintf("%s%d", kind, len(cur.clauses(kind))+1)
			}
			cur.Clauses = append(cur.Clauses, cl)
		default:
			return nil, fmt.Errorf("%s:%d: unknown contract keyword %q", file, nos[i], kind)
		}
	}
	return out, nil
}

// clauseSource generates the Go functions the clauses compile to.
func clauseSource(cs []*Contract, pkgName string, imports string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n%s\n", pkgName, imports)
	n := 0
	sig := func(ps []Param, prefix string) string {
		var s []string
		for _, p := range ps {
			s = append(s, prefix+p.Name+" "+strings.TrimPrefix(p.Type, "="))
		}
		return strings.Join(s, ", ")
	}
	join := func(xs ...string) string {
		var o []string
		for _, x := range xs {
			if x != "" {
				o = append(o, x)
			}
		}
		return strings.Join(o, ", ")
	}
	for _, c := range cs {
		if c.unfit != "" {
			continue
		}
		for _, cl := range c.Clauses {
			n++
			cl.GoName = fmt.Sprintf("zzclause_%d", n)
			e := rewriteImplies(rewriteOld(cl.Expr, c.Params))
			ps := sig(c.Params, "")
			old := sig(c.Params, "old_")
			switch cl.Kind {
			case "requires":
				fmt.Fprintf(&b, "func %s(%s) bool { return %s }\n", cl.GoName, join(ps, sig(cl.Foralls, "")), e)
			case "ensures":
				fmt.Fprintf(&b, "func %s(%s) bool { return %s }\n", cl.GoName, join(ps, sig(c.Results, ""), old, sig(cl.Exists, ""), sig(cl.Foralls, "")), e)
			case "panics", "exits":
				fmt.Fprintf(&b, "func %s(%s) bool { return %s }\n", cl.GoName, join(ps, old, sig(cl.Exists, ""), sig(cl.Foralls, "")), e)
			case "decreases":
				fmt.Fprintf(&b, "func %s(%s) []int { return []int{%s} }\n", cl.GoName, ps, e)
			case "inv":
				fmt.Fprintf(&b, "func %s(%s) bool { return %s }\n", cl.GoName, join(ps, old, sig(cl.Pats, ""), sig(cl.Foralls, "")), e)
			case "measure":
				if len(splitTop(e, ",")) > 1 {
					fmt.Fprintf(&b, "func %s(%s) []int { return []int{%s} }\n", cl.GoName, join(ps, old, sig(cl.Pats, "")), e)
					break
				}
				fmt.Fprintf(&b, "func %s(%s) int { return %s }\n", cl.GoName, join(ps, old, sig(cl.Pats, "")), e)
			case "modifies":
				fmt.Fprintf(&b, "func %s(%s) []interface{} { return []interface{}{%s} }\n", cl.GoName, ps, modAddrs(e))
			case "uses":
				fmt.Fprintf(&b, "func %s(%s) { %s }\n", cl.GoName, join(ps, sig(cl.Pats, "")), e)
			}
		}
	}
	return b.String()
}

func modAddrs(e string) string {
	var out []string
	for _, p := range splitTop(e, ",") {
		p = strings.TrimSpace(p)
		if strings.HasPrefix(p, "*") {
			out = append(out, p[1:])
		} else {
			out = append(out, "&"+p)
		}
	}
	return strings.Join(out, ", ")
}

var goImports = regexp.MustCompile(`(?s)import \(.*?\n\)`)

func loadWorld(repo, verif string) (*World, error) {
	w := &World{repo: repo, verif: verif, pkgs: map[string]*ssa.Package{}, ppkgs: map[string]*packages.Package{},
		fns: map[string]*ssa.Function{}, contracts: map[*ssa.Function]*Contract{}, lemmas: map[string]*Contract{},
		unfoldMemo: map[*Term]*Term{}, loops: map[*ssa.Function][]*Loop{}, implMemo: map[string][]types.Type{},
		globals: map[*ssa.Global]*constGlobal{}, nonnilElem: map[string]bool{}, usedAssumptions: map[string]bool{},
		closures: map[string]*ssa.Function{}, constMaps: map[string]*constGlobal{}, specByName: map[string]*ssa.Function{},
		allFns: map[*ssa.Function]bool{}, noTermination: map[string]bool{}, inlined: map[string]map[string]bool{},
		calledContracts: map[string]map[string]bool{}, externals: map[string]bool{}, calleeMemo: map[*ssa.Function][]*ssa.Function{}}
	tmp, err := os.MkdirTemp("", "govc")
	if err != nil {
		return nil, err
	}
	w.tmp = tmp
	copyFile(filepath.Join(repo, "go.mod"), filepath.Join(tmp, "repo.mod"))
	copyFile(filepath.Join(repo, "go.sum"), filepath.Join(tmp, "repo.sum"))
	ov := specOverlay(repo, verif)
	if err := w.grammarOverlay(ov); err != nil {
		return nil, err
	}
	var regen []func() // the clauses as Go functions
	// contracts
	for _, pd := range pkgDirs {
		var cs []*Contract
		var files []string
		for f := range ov {
			if filepath.Dir(f) == filepath.Clean(filepath.Join(repo, pd.dir)) {
				files = append(files, f)
			}
		}
		sort.Strings(files)
		imports := ""
		for _, f := range files {
			if !strings.Contains(filepath.Base(f), "zz_verif_") {
				continue
			}
			c, err := parseContracts(pd.key, f, ov[f])
			if err != nil {
				return nil, err
			}
			cs = append(cs, c...)
			if strings.HasSuffix(f, "zz_verif_prelude.go") {
				imports = goImports.FindString(string(ov[f]))
				// keep every import used
				imports += "\n" + regexp.MustCompile(`(?m)^var _ = .*$`).FindString(string(ov[f]))
				for _, l := range regexp.MustCompile(`(?m)^var _ = .*$`).FindAllString(string(ov[f]), -1)[1:] {
					imports += "\n" + l
				}
			}
		}
		sh := shapeOf(filepath.Join(repo, pd.dir), nil)
		for _, c := range cs {
			sh.adapt(c)
		}
		if pd.key == "root" {
			acs, err := w.bindActions(ov)
			if err != nil {
				return nil, err
			}
			cs = append(cs, acs...)
		}
		w.clist = append(w.clist, cs...)
		if len(cs) > 0 {
			name := "main"
			if pd.key == "root" {
				name = "asn1go"
			} else if pd.key == "utils" {
				name = "utils"
			}
			pkgName, pkgImports, dir, key := name, imports, pd.dir, pd.key
			regen = append(regen, func() {
				src := clauseSource(cs, pkgName, pkgImports)
				ov[filepath.Join(repo, dir, "zz_verif_clauses.go")] = []byte(src)
				os.WriteFile(filepath.Join(tmp, "clauses_"+key+".go"), []byte(src), 0644)
			})
		}
	}
	for _, pd := range pkgDirs {
		if err := loopTails(filepath.Join(repo, pd.dir), w.clist, ov); err != nil {
			return nil, err
		}
	}
	w.overlay = ov
	cfg := &packages.Config{
		Mode:    packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     repo,
		Env:     goEnv(tmp),
		Overlay: ov,
	}
	var pats []string
	for _, pd := range pkgDirs {
		pats = append(pats, "./"+pd.dir)
	}
	var ps []*packages.Package
	for round := 0; ; round++ {
		for _, r := range regen {
			r()
		}
		ps, err = packages.Load(cfg, pats...)
		if err != nil {
			return nil, err
		}
		again, err := w.leaveOut(ps, ov)
		if err != nil {
			return nil, err
		}
		if !again {
			break
		}
		if round > 20 {
			return nil, fmt.Errorf("the contracts do not fit the program")
		}
	}
	prog, _ := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	w.prog = prog
	w.fset = prog.Fset
	for _, p := range ps {
		for _, pd := range pkgDirs {
			if p.PkgPath == pd.path {
				w.ppkgs[pd.key] = p
				w.pkgs[pd.key] = prog.Package(p.Types)
			}
		}
	}
	all := ssautil.AllFunctions(prog)
	for fn := range all {
		if fn.Pkg != nil && inProgram(fn.Pkg.Pkg) {
			w.allFns[fn] = true
		}
	}
	for key, sp := range w.pkgs {
		for fn := range all {
			if fn.Pkg == sp && fn.Synthetic == "" {
				w.fns[key+":"+fn.RelString(sp.Pkg)] = fn
			}
		}
	}
	for _, c := range w.clist {
		if c.unfit != "" {
			w.missing = append(w.missing, missingContract{c, "does not fit the program: " + c.unfit})
			continue
		}
		for _, cl := range c.Clauses {
			cl.fn = w.pkgs[c.Pkg].Func(cl.GoName)
			if cl.fn == nil {
				return nil, fmt.Errorf("clause %s of %s not built", cl.Label, c.Name)
			}
		}
		if c.action != nil {
			c.fn = w.pkgs["root"].Func(c.action.goName)
			if c.fn != nil {
				w.contracts[c.fn] = c
			}
			continue
		}
		fn := w.fns[c.Pkg+":"+c.Name]
		if fn == nil {
			w.missing = append(w.missing, missingContract{c, "no such function"})
			continue
		}
		if len(fn.Params) != len(c.Params) {
			w.missing = append(w.missing, missingContract{c, "parameters changed"})
			continue
		}
		ok := true
		for _, cl := range c.Clauses {
			for i, p := range fn.Params {
				if i < cl.fn.Signature.Params().Len() && !types.Identical(p.Type(), cl.fn.Signature.Params().At(i).Type()) {
					ok = false
				}
			}
		}
		if !ok {
			w.missing = append(w.missing, missingContract{c, "parameter types changed"})
			continue
		}
		c.fn = fn
		if c.Lemma {
			w.lemmas[c.Name] = c
		}
		w.contracts[fn] = c
	}
	for _, sp := range w.pkgs {
		for _, m := range sp.Members {
			t, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
				for _, name := range []string{"String", "Error", "Format", "GoString"} {
					if types.NewMethodSet(tt).Lookup(sp.Pkg, name) != nil {
						formatted["i:"+dynName(tt)] = true
					}
				}
			}
		}
	}
	w.nonnilElem["asn1go.Assignment"] = true
	w.nonnilElem["error"] = true
	w.findRecursiveSpecs()
	return w, nil
}

func (w *World) close() { os.RemoveAll(w.tmp) }

func (w *World) isSpecFile(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.Pos().IsValid() && strings.HasPrefix(filepath.Base(w.fset.Position(fn.Pos()).Filename), "zz_verif_")
}

// findRecursiveSpecs marks spec functions on call cycles; they become uninterpreted functions with unfolding axioms.
func (w *World) findRecursiveSpecs() {
	w.specRec = map[*ssa.Function]bool{}
	calls := map[*ssa.Function][]*ssa.Function{}
	for _, fn := range w.fns {
		if !w.isSpecFile(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if f := c.Common().StaticCallee(); f != nil && w.isSpecFile(f) {
						calls[fn] = append(calls[fn], f)
					}
				}
			}
		}
	}
	for fn := range calls {
		seen := map[*ssa.Function]bool{}
		var dfs func(f *ssa.Function) bool
		dfs = func(f *ssa.Function) bool {
			for _, g := range calls[f] {
				if g == fn {
					return true
				}
				if !seen[g] {
					seen[g] = true
					if dfs(g) {
						return true
					}
				}
			}
			return false
		}
		if dfs(fn) {
			w.specRec[fn] = true
		}
	}
}

// implementers of an in-program interface among the program's concrete types (value receivers).
func (w *World) implementers(t types.Type) []types.Type {
	key := t.String()
	w.mu.Lock()
	r, ok := w.implMemo[key]
	w.mu.Unlock()
	if ok {
		return r
	}
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []types.Type
	named, _ := types.Unalias(t).(*types.Named)
	if named != nil && inProgram(named.Obj().Pkg()) && it.NumMethods() > 0 {
		scope := named.Obj().Pkg().Scope()
		for _, n := range scope.Names() {
			tn, ok := scope.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() || strings.HasPrefix(n, "zz") {
				continue
			}
			ct := tn.Type()
			if _, isI := ct.Underlying().(*types.Interface); isI {
				continue
			}
			if types.Implements(ct, it) {
				out = append(out, ct)
			} else if types.Implements(types.NewPointer(ct), it) {
				out = append(out, types.NewPointer(ct))
			}
		}
	}
	w.mu.Lock()
	w.implMemo[key] = out
	w.mu.Unlock()
	return out
}

func (w *World) shortPos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	pos := w.fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(pos.Filename, w.repo+"/"), pos.Line)
}

func runCmd(dir string, env []string, name string, args ...string) (string, error) {
	c := exec.Command(name, args...)
	c.Dir = dir
	c.Env = env
	out, err := c.CombinedOutput()
	return string(out), err
}

func jsonStr(v interface{}) string {
	b, _ := json.Marshal(v)
	return string(b)
}

var _ = ast.NewIdent
