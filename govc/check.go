package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// propInfo says how a property is decided.
type propInfo struct {
	level    string
	packages []string // packages with a replay harness
	bins     bool     // the harness runs the built commands
	static   []string // additional whole-program obligations
	bounded  []string // what is only checked with a bound
}

var props = map[string]*propInfo{
	"C01": {level: "proof", packages: []string{"root"}},
	"C02": {level: "proof", packages: []string{"root"}},
	"C03": {level: "proof", packages: []string{"root"}, static: []string{"tables"}},
	"C04": {level: "proof", packages: []string{"root"}},
	"C05": {level: "proof", packages: []string{"root"}, static: []string{"lists"}},
	"C06": {level: "proof", packages: []string{"root"}, static: []string{"lists"}},
	"C07": {level: "proof", packages: []string{"root"}, static: []string{"lists"}},
	"C08": {level: "proof", packages: []string{"root"}, static: []string{"lists"}},
	"C09": {level: "proof", packages: []string{"root"}, static: []string{"grammar"}},
	"C10": {level: "proof", packages: []string{"root"}},
	"C11": {level: "proof", packages: []string{"root"}},
	"C12": {level: "proof", packages: []string{"root"}},
	"C13": {level: "proof", packages: []string{"root"}},
	"C14": {level: "proof", packages: []string{"root"}},
	"C15": {level: "proof", packages: []string{"root"}},
	"C16": {level: "proof", packages: []string{"root"}},
	"C17": {level: "proof", packages: []string{"root"}, static: []string{"state"}},
	"C18": {level: "proof", packages: []string{"asn1go"}, bins: true},
	"C19": {level: "proof", packages: []string{"utils"}, bins: true},
	"C20": {level: "proof", packages: []string{"root"}},
}

type violation struct {
	Property string `json:"property"`
	Case     string `json:"case"`
	Input    string `json:"input"`
	What     string `json:"what"`
}

type harnessReport struct {
	Evaluations int         `json:"evaluations"`
	Distinct    int         `json:"distinct"`
	Rule        string      `json:"rule"`
	Samples     []string    `json:"samples"`
	Violations  []violation `json:"violations"`
	Note        string      `json:"note"`
	Error       string      `json:"-"`
	Seconds     float64     `json:"seconds"`
}

func cmdCheck(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	prop := fs.String("p", "", "property")
	tier := fs.String("tier", os.Getenv("VERIF_TIER"), "")
	noHarness := fs.Bool("noharness", false, "")
	noProof := fs.Bool("noproof", false, "")
	fs.Parse(args)
	if *tier == "" {
		*tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if seed == 0 {
		seed = 1
	}
	info := props[*prop]
	if info == nil {
		fmt.Println("unknown property", *prop)
		os.Exit(2)
	}
	start := time.Now()
	ck := &checker{repo: *repo, verif: *verif, prop: *prop, tier: *tier, seed: seed, info: info}
	// never end without an answer
	done := make(chan bool)
	go func() {
		defer close(done)
		ck.run(*noHarness, *noProof)
	}()
	limit := 800 * time.Second
	if *tier == "thorough" {
		limit = 3 * time.Hour
	}
	select {
	case <-done:
	case <-time.After(limit):
		ck.failed = append(ck.failed, &Obl{Name: "the check ends in time", Kind: "timeout", Output: "no answer after " + limit.String()})
	}
	os.Exit(ck.finish(start))
}

type checker struct {
	repo, verif, prop, tier string
	seed                    int
	info                    *propInfo
	w                       *World
	results                 []*FnResult
	failed                  []*Obl
	obligations, discharged int
	reports                 map[string]*harnessReport
	loadErr                 string
	note                    []string
}

func (ck *checker) run(noHarness, noProof bool) {
	ck.reports = map[string]*harnessReport{}
	w, err := loadWorld(ck.repo, ck.verif)
	if err != nil {
		ck.loadErr = err.Error()
		ck.failed = append(ck.failed, &Obl{Name: "the program and its contracts load", Kind: "load", Output: err.Error()})
	}
	ck.w = w
	hd := make(chan bool)
	go func() {
		defer close(hd)
		if noHarness {
			return
		}
		for _, p := range ck.info.packages {
			ck.reports[p] = ck.harness(p)
		}
	}()
	if w != nil && !noProof {
		w.thorough = ck.tier == "thorough"
		ck.proofs()
	}
	<-hd
}

func hasProp(ps []string, p string) bool {
	for _, x := range ps {
		if x == p {
			return true
		}
	}
	return false
}

func (c *Contract) mentions(p string) bool {
	if hasProp(c.Props, p) {
		return true
	}
	for _, cl := range c.Clauses {
		if hasProp(cl.Props, p) {
			return true
		}
	}
	return false
}

func (ck *checker) proofs() {
	w := ck.w
	timeout := 6 * time.Second
	if ck.tier == "thorough" {
		timeout = 30 * time.Second
	}
	for _, m := range w.missing {
		if m.c.mentions(ck.prop) {
			ck.note = append(ck.note, "contract without its function: "+m.c.Name+" ("+m.why+")")
			if m.c.action != nil || exportedName(m.c.Name) {
				ck.obligations++
				ck.failed = append(ck.failed, &Obl{Fn: m.c.Name, Name: "the contract applies", Kind: "contract", Output: m.why})
			}
		}
	}
	for _, c := range w.clist {
		if c.fn == nil || !c.mentions(ck.prop) {
			continue
		}
		r := w.verify(c, timeout, func(o *Obl) bool { return len(o.Props) == 0 || hasProp(o.Props, ck.prop) })
		ck.results = append(ck.results, r)
		for _, o := range r.Obls {
			ck.obligations++
			if o.Result == "unsat" {
				ck.discharged++
			} else {
				ck.failed = append(ck.failed, o)
			}
		}
	}
	for _, s := range ck.info.static {
		for _, o := range w.staticObligations(s) {
			ck.obligations++
			if o.Static == "ok" {
				o.Result = "unsat"
				ck.discharged++
				countBy("exhaustive enumeration")
			} else {
				o.Result = "failed"
				o.Output = o.Static
				ck.failed = append(ck.failed, o)
			}
			ck.results = append(ck.results, &FnResult{Name: o.Fn, Obls: []*Obl{o}})
		}
	}
	if ck.obligations == 0 && len(ck.info.static) == 0 {
		ck.failed = append(ck.failed, &Obl{Name: "there is something to prove", Kind: "vacuity", Output: "no contract of this property matches a function any more"})
	}
}

// harness runs the property's bounded replay in one package of the program.
func (ck *checker) harness(pkg string) *harnessReport {
	t0 := time.Now()
	rep := &harnessReport{}
	defer func() { rep.Seconds = time.Since(t0).Seconds() }()
	tmp, err := os.MkdirTemp("", "govch")
	if err != nil {
		rep.Error = err.Error()
		return rep
	}
	defer os.RemoveAll(tmp)
	copyFile(filepath.Join(ck.repo, "go.mod"), filepath.Join(tmp, "repo.mod"))
	copyFile(filepath.Join(ck.repo, "go.sum"), filepath.Join(tmp, "repo.sum"))
	rp := map[string]string{}
	put := func(dst string, content []byte) {
		f := filepath.Join(tmp, fmt.Sprintf("ov%d_%s", len(rp), filepath.Base(dst)))
		os.WriteFile(f, content, 0644)
		rp[dst] = f
	}
	ov := specOverlay(ck.repo, ck.verif)
	if y, err := regeneratedY(ck.repo, ck.verif, tmp); err == nil && y != nil {
		ov[filepath.Join(ck.repo, "y.go")] = y
	}
	for k, v := range ov {
		put(k, v)
	}
	dir := ""
	for _, pd := range pkgDirs {
		files, _ := filepath.Glob(filepath.Join(ck.verif, "harness", pd.key, "*_test.go"))
		if pd.key == pkg {
			dir = pd.dir
			for _, f := range files {
				b, _ := os.ReadFile(f)
				put(filepath.Join(ck.repo, pd.dir, "zz_verif_"+filepath.Base(f)), renameIn(b, renames(ck.repo, ck.verif)[pd.key]))
			}
		}
	}
	ovf := filepath.Join(tmp, "overlay.json")
	os.WriteFile(ovf, []byte(jsonStr(map[string]interface{}{"Replace": rp})), 0644)
	env := append(goEnv(tmp), "VERIF_PROP="+ck.prop, "VERIF_TIER="+ck.tier, fmt.Sprintf("VERIF_SEED=%d", ck.seed),
		"VERIF_OUT="+filepath.Join(tmp, "out.json"), "VERIF_CUR="+filepath.Join(tmp, "cur.json"), "VERIF_SCRATCH="+tmp,
		"VERIF_GRAMMAR="+filepath.Join(ck.verif, "spec", "grammar.txt"), "VERIF_DICT="+filepath.Join(tmp, "dict.json"),
		"VERIF_GRAMMAR_NOW="+filepath.Join(tmp, "grammar.txt"))
	if src, err := os.ReadFile(filepath.Join(ck.repo, "asn1.y")); err == nil {
		if g, err := parseYacc(string(src)); err == nil {
			var sb strings.Builder
			for _, p := range g.prods[1:] {
				sb.WriteString(p.lhs + " : " + strings.Join(p.rhs, " ") + "\n")
			}
			os.WriteFile(filepath.Join(tmp, "grammar.txt"), []byte(sb.String()), 0644)
		}
	}
	os.WriteFile(filepath.Join(tmp, "dict.json"), []byte(jsonStr(newFirst(dictionary(ck.repo), knownDictionary(ck.verif)))), 0644)
	if ck.info.bins {
		for _, b := range []string{"asn1go", "ws2bin"} {
			bin := filepath.Join(tmp, b)
			plain := map[string]string{}
			if f, ok := rp[filepath.Join(ck.repo, "y.go")]; ok {
				plain[filepath.Join(ck.repo, "y.go")] = f
			}
			pf := filepath.Join(tmp, "plain.json")
			os.WriteFile(pf, []byte(jsonStr(map[string]interface{}{"Replace": plain})), 0644)
			if out, err := runCmd(ck.repo, env, "go", "build", "-overlay="+pf, "-o", bin, "./cmd/"+b); err != nil {
				rep.Error = "building " + b + ": " + out
				return rep
			}
			env = append(env, "VERIF_BIN_"+strings.ToUpper(b)+"="+bin)
		}
	}
	limit := "300s"
	if ck.tier == "thorough" {
		limit = "3h"
	}
	bin := filepath.Join(tmp, "harness.test")
	for round := 0; ; round++ {
		out, err := runCmd(ck.repo, env, "go", "test", "-c", "-vet=off", "-gcflags=-e", "-overlay="+ovf, "-o", bin, "./"+dir)
		if err == nil {
			break
		}
		// what does not fit the program is left out
		again := false
		seen := map[string]bool{}
		for _, m := range rePos.FindAllStringSubmatch(out, -1) {
			if seen[m[1]+":"+m[2]] {
				continue
			}
			seen[m[1]+":"+m[2]] = true
			for dst, f := range rp {
				if filepath.Base(dst) != m[1] && filepath.Base(f) != m[1] || !strings.HasPrefix(filepath.Base(dst), "zz_verif_") {
					continue
				}
				line, _ := strconv.Atoi(m[2])
				b, _ := os.ReadFile(f)
				if next, _, ok := withoutDecl(b, line); ok {
					os.WriteFile(f, next, 0644)
					again = true
				}
			}
		}
		if !again || round > 12 {
			rep.Error = "the replay harness does not compile: " + out
			return rep
		}
	}
	c := exec.Command(bin, "-test.run=^TestVerif$", "-test.timeout="+limit)
	c.Dir = tmp
	c.Env = env
	ob, err := c.CombinedOutput()
	b, rerr := os.ReadFile(filepath.Join(tmp, "out.json"))
	if rerr == nil {
		if e := json.Unmarshal(b, rep); e == nil {
			return rep
		}
	}
	// the run died: the case under way is the failing one
	cur, _ := os.ReadFile(filepath.Join(tmp, "cur.json"))
	cur = []byte(strings.TrimRight(string(cur), "\x00 \n"))
	txt := string(ob)
	if len(cur) > 0 && regexp.MustCompile(`(?m)^(fatal error|panic|runtime:|SIG)`).MatchString(txt) {
		if len(txt) > 4000 {
			txt = txt[:4000]
		}
		rep.Violations = append(rep.Violations, violation{ck.prop, "crash", string(cur), "the program dies: " + txt})
		return rep
	}
	rep.Error = fmt.Sprintf("harness gave no report: %v %s", err, txt)
	return rep
}

func readKnown(verif, prop string) []string {
	f, err := os.Open(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []string
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if strings.HasPrefix(l, "known: property="+prop+" ") {
			out = append(out, strings.TrimPrefix(l, "known: property="+prop+" "))
		}
	}
	return out
}

func (ck *checker) finish(start time.Time) int {
	if ck.w != nil {
		defer ck.w.close()
	}
	rdir := filepath.Join(ck.verif, "evidence", "replay")
	os.MkdirAll(rdir, 0755)
	var viol []violation
	herr := ""
	for _, r := range ck.reports {
		viol = append(viol, r.Violations...)
		if r.Error != "" {
			herr += r.Error + "\n"
		}
	}
	known := readKnown(ck.verif, ck.prop)
	var left []violation
	for _, v := range viol {
		listed := false
		for _, k := range known {
			if k == v.Case {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", ck.prop, v.Case)
				listed = true
			}
		}
		if !listed {
			left = append(left, v)
		}
	}
	code := 0
	for _, o := range ck.failed {
		fmt.Printf("undischarged: %s: [%s] %s %s: %s %s\n", o.Fn, o.Kind, o.Name, o.Where, o.Result, firstLine(o.Output))
	}
	for _, n := range ck.note {
		fmt.Println("note:", n)
	}
	if herr != "" {
		fmt.Println("harness:", herr)
	}
	switch {
	case len(left) > 0:
		code = 1
		p := filepath.Join(rdir, ck.prop+".json")
		os.WriteFile(p, []byte(jsonIndent(map[string]interface{}{"property": ck.prop, "seed": ck.seed, "tier": ck.tier, "violations": left,
			"failed_obligations": oblList(ck.failed), "how": "bash /verif/check.sh " + ck.prop + " with the same VERIF_SEED and VERIF_TIER evaluates the input again on the real code"})), 0644)
		fmt.Printf("input: %s\nwhat: %s\n", left[0].Input, left[0].What)
		fmt.Printf("VIOLATION property=%s replay=%s\n", ck.prop, p)
	case len(ck.failed) > 0:
		code = 1
		p := filepath.Join(rdir, ck.prop+".json")
		os.WriteFile(p, []byte(jsonIndent(map[string]interface{}{"property": ck.prop, "failed_obligations": oblList(ck.failed), "harness_error": herr,
			"note": "these obligations are discharged on the unchanged tree; no failing input was found among the inputs replayed on the real code"})), 0644)
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", ck.prop, p)
	case herr != "" && len(ck.info.packages) > 0:
		// all obligations hold; the replay is only a complement
		fmt.Println("note: the replay harness could not run, the proof alone decides")
	}
	ck.evidence(start, code, left)
	if code == 0 {
		fmt.Printf("property %s holds: %d of %d obligations discharged\n", ck.prop, ck.discharged, ck.obligations)
	}
	return code
}

func oblList(os []*Obl) (out []map[string]string) {
	for i, o := range os {
		if i >= 50 {
			break
		}
		m := map[string]string{"function": o.Fn, "obligation": o.Name, "kind": o.Kind, "where": o.Where, "result": o.Result, "verifier_output": trunc(o.Output, 4000)}
		if o.Goal != nil {
			m["goal"] = trunc(o.Goal.String(), 3000)
		}
		var pc []string
		for _, p := range o.PC {
			pc = append(pc, p.String())
		}
		m["path"] = trunc(strings.Join(pc, "\n"), 4000)
		out = append(out, m)
	}
	return
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (ck *checker) evidence(start time.Time, code int, left []violation) {
	cov := map[string]interface{}{}
	var fns, trusted, bodies []string
	var maxq int64
	seen := map[string]bool{}
	for _, r := range ck.results {
		n := 0
		for _, o := range r.Obls {
			if o.Result == "unsat" {
				n++
			}
			if o.Millis > maxq {
				maxq = o.Millis
			}
		}
		if r.Trusted != "" {
			trusted = append(trusted, r.Name+": "+r.Trusted)
			continue
		}
		if !seen[r.Name] {
			seen[r.Name] = true
			fns = append(fns, fmt.Sprintf("%s (%d/%d obligations)", r.Name, n, len(r.Obls)))
		}
	}
	by := map[string]int64{}
	stats.byName.Range(func(k, v interface{}) bool {
		by[k.(string)] = atomic.LoadInt64(v.(*int64))
		return true
	})
	base := []string{"govc: the condition generator in /verif/govc (own code) over golang.org/x/tools/go/ssa", "z3 4.8.12 and z3-new", "the Go compiler and standard library"}
	var as []string
	if ck.w != nil {
		for a := range ck.w.usedAssumptions {
			as = append(as, a)
		}
		var ex []string
		for e := range ck.w.externals {
			ex = append(ex, e)
		}
		sort.Strings(ex)
		if len(ex) > 0 {
			base = append(base, "assumed behaviour of external functions: "+strings.Join(ex, ", "))
		}
		inl := map[string]bool{}
		for _, m := range ck.w.inlined {
			for f := range m {
				inl[f] = true
			}
		}
		for f := range inl {
			bodies = append(bodies, f)
		}
		sort.Strings(bodies)
	}
	base = append(base, trusted...)
	sort.Strings(as)
	for _, b := range ck.info.bounded {
		as = append(as, "bounded, not proved: "+b)
	}
	cov["obligations"] = ck.obligations
	cov["discharged"] = ck.discharged
	cov["checker_cmd"] = "bash /verif/check.sh " + ck.prop
	cov["trusted_base"] = base
	cov["functions_under_contract"] = fns
	cov["bodies_verified_inline"] = bodies
	cov["discharged_by"] = by
	cov["solver_queries"] = stats.queries
	cov["solver_seconds"] = float64(stats.nanos) / 1e9
	cov["longest_obligation_ms"] = maxq
	if len(ck.note) > 0 {
		cov["notes"] = ck.note
	}
	ev, dn := 0, 0
	var rules, samples []string
	for _, p := range ck.info.packages {
		if r := ck.reports[p]; r != nil {
			ev += r.Evaluations
			dn += r.Distinct
			if r.Rule != "" {
				rules = append(rules, r.Rule)
			}
			for i, s := range r.Samples {
				if i < 5 {
					samples = append(samples, trunc(s, 600))
				}
			}
			if r.Error != "" {
				cov["replay_error"] = trunc(r.Error, 1000)
			}
			cov["replay_seconds_"+p] = r.Seconds
		}
	}
	if len(ck.info.packages) > 0 {
		cov["evaluations"] = ev
		cov["distinct_nontrivial"] = dn
		cov["rule"] = "replay on the real code (bounded complement to the proof): " + strings.Join(rules, "; ")
		cov["samples"] = samples
	}
	e := map[string]interface{}{"property": ck.prop, "tier": ck.tier, "seed": ck.seed, "level": ck.info.level, "coverage": cov,
		"assumptions": as, "wall_s": time.Since(start).Seconds(), "violations": len(left)}
	if code != 0 && len(left) == 0 {
		e["violations"] = len(ck.failed)
	}
	os.MkdirAll(filepath.Join(ck.verif, "evidence"), 0755)
	os.WriteFile(filepath.Join(ck.verif, "evidence", ck.prop+".json"), []byte(jsonIndent(e)), 0644)
}

func jsonIndent(v interface{}) string {
	b, _ := json.MarshalIndent(v, "", " ")
	return string(b) + "\n"
}

// exportedName: the function is part of the package's interface, or the command itself.
func exportedName(n string) bool {
	if n == "main" {
		return true
	}
	if r := strings.TrimLeft(n, "(*"); r != n && r != "" && (r[0] < 'A' || r[0] > 'Z') {
		return false // a method of a type which is not exported
	}
	n = n[strings.LastIndexByte(n, '.')+1:]
	return n != "" && n[0] >= 'A' && n[0] <= 'Z'
}

var (
	reDictText = regexp.MustCompile(`"(?:[^"\\\n]|\\.)*"`)
	reDictInt  = regexp.MustCompile(`\b\d{1,18}\b`)
	reDictWord = regexp.MustCompile(`[A-Za-z0-9_-]+`)
)

// dictionary lists the numbers and words in the text of the program (not of its tables), for the replays to make inputs of.
func dictionary(repo string) map[string]interface{} {
	ints, words := map[int]bool{}, map[string]bool{}
	for _, pd := range pkgDirs {
		files, _ := filepath.Glob(filepath.Join(repo, pd.dir, "*.go"))
		if pd.dir == "" || pd.dir == "." {
			files = append(files, filepath.Join(repo, "asn1.y"))
		}
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") || filepath.Base(f) == "y.go" {
				continue
			}
			b, _ := os.ReadFile(f)
			for _, t := range reDictText.FindAll(b, -1) {
				if len(t) < 40 {
					for _, w := range reDictWord.FindAllString(string(t), -1) {
						words[w] = true
					}
				}
			}
			for _, t := range reDictInt.FindAllString(string(reDictText.ReplaceAll(b, nil)), -1) {
				if n, err := strconv.Atoi(t); err == nil {
					ints[n] = true
				}
			}
		}
	}
	var il []int
	var wl []string
	for n := range ints {
		il = append(il, n)
	}
	for w := range words {
		wl = append(wl, w)
	}
	sort.Ints(il)
	sort.Strings(wl)
	return map[string]interface{}{"Ints": il, "Words": wl}
}

// newFirst repeats what the specified code does not have so that it makes up half of the dictionary.
func newFirst(now, before map[string]interface{}) map[string]interface{} {
	oldInts, oldWords := map[int]bool{}, map[string]bool{}
	for _, n := range before["Ints"].([]int) {
		oldInts[n] = true
	}
	for _, w := range before["Words"].([]string) {
		oldWords[w] = true
	}
	var ni []int
	var nw []string
	il, wl := now["Ints"].([]int), now["Words"].([]string)
	for _, n := range il {
		if !oldInts[n] {
			ni = append(ni, n)
		}
	}
	for _, w := range wl {
		if !oldWords[w] {
			nw = append(nw, w)
		}
	}
	for k := len(il); len(ni) > 0 && k > 0; k -= len(ni) {
		il = append(il, ni...)
	}
	for k := len(wl); len(nw) > 0 && k > 0; k -= len(nw) {
		wl = append(wl, nw...)
	}
	return map[string]interface{}{"Ints": il, "Words": wl}
}

// knownDictionary is the dictionary of the code that was specified.
func knownDictionary(verif string) map[string]interface{} {
	var d struct {
		Ints  []int
		Words []string
	}
	if b, err := os.ReadFile(filepath.Join(verif, "spec", "dict.json")); err == nil {
		json.Unmarshal(b, &d)
	}
	return map[string]interface{}{"Ints": d.Ints, "Words": d.Words}
}
