package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

func q(s string) string { return "|" + s + "|" }

func smtStr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"':
			b.WriteString(`""`)
		case c < 32 || c > 126 || c == '\\':
			fmt.Fprintf(&b, `\u{%x}`, c)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func sortName(s string) string { return sortNameA(s, nil) }

// sortNameA prints a sort; sequences of the element sorts in abs are uninterpreted.
func sortNameA(s string, abs map[string]bool) string {
	if isSeq(s) {
		if abs[seqElem(s)] {
			return q("Seq!" + s)
		}
		return "(Seq " + sortNameA(seqElem(s), abs) + ")"
	}
	switch s {
	case sBool, sInt, sStr, sV, sF64:
		return s
	}
	return q(s)
}

// script prints the conjunction of asserts as an SMT-LIB script.
func script(asserts []*Term, getValues []*Term, abs map[string]bool) (string, error) {
	sortName := func(s string) string { return sortNameA(s, abs) }
	var out strings.Builder
	usedSorts := map[string]bool{}
	ctors := map[string]bool{} // dynamic types used
	consts := map[string]string{}
	ufs := map[string][]string{} // name -> arg sorts + result
	refs := map[*Term]int{}
	var bad error
	var visit func(t *Term)
	visit = func(t *Term) {
		refs[t]++
		if refs[t] > 1 {
			return
		}
		usedSorts[t.Sort] = true
		switch {
		case strings.HasPrefix(t.Op, "i:") || strings.HasPrefix(t.Op, "u:"):
			ctors[t.Op[2:]] = true
		case t.Op == "is" && strings.HasPrefix(t.S, "i:"):
			ctors[t.S[2:]] = true
		case t.Op == "const":
			consts[t.S] = t.Sort
		case strings.HasPrefix(t.Op, "uf:"):
			sig := []string{}
			for _, a := range t.Args {
				sig = append(sig, a.Sort)
			}
			sig = append(sig, t.Sort)
			if old, ok := ufs[t.Op[3:]]; ok && strings.Join(old, " ") != strings.Join(sig, " ") {
				bad = fmt.Errorf("function %s used at two signatures: %v / %v", t.Op[3:], old, sig)
			}
			ufs[t.Op[3:]] = sig
		case t.Op == "loc" || t.Op == "elemptr" || t.Op == "pathptr" || t.Op == "tuple" || strings.HasPrefix(t.Op, "fn:") || t.Op == "bound":
			bad = fmt.Errorf("unresolved executor value %v", t)
		}
		for _, a := range t.Args {
			visit(a)
		}
	}
	for _, a := range asserts {
		visit(a)
	}
	for _, a := range getValues {
		visit(a)
	}
	if bad != nil {
		return "", bad
	}
	// close sorts
	work := []string{}
	for s := range usedSorts {
		work = append(work, s)
	}
	for c := range ctors {
		tyMu.Lock()
		ps := ifaceSort[c]
		tyMu.Unlock()
		work = append(work, ps)
	}
	all := map[string]bool{}
	for len(work) > 0 {
		s := work[0]
		work = work[1:]
		if all[s] {
			continue
		}
		all[s] = true
		switch {
		case isSeq(s):
			work = append(work, seqElem(s))
		case strings.HasPrefix(s, "P_"):
			work = append(work, ptrElemSort(s))
		case strings.HasPrefix(s, "S_"):
			if info := structInfo(s); !info.Opaque {
				for _, f := range info.Fields {
					work = append(work, f.Sort)
				}
			}
		}
	}
	var dts, simple []string
	for s := range all {
		switch {
		case s == sV || strings.HasPrefix(s, "P_") || strings.HasPrefix(s, "S_") && !structInfo(s).Opaque:
			dts = append(dts, s)
		case s == sF64 || strings.HasPrefix(s, "O_") || strings.HasPrefix(s, "S_"):
			simple = append(simple, s)
		}
	}
	for s := range all {
		if isSeq(s) && abs[seqElem(s)] {
			simple = append(simple, s)
		}
	}
	sort.Strings(dts)
	sort.Strings(simple)
	for _, s := range simple {
		fmt.Fprintf(&out, "(declare-sort %s 0)\n", sortName(s))
	}
	if len(dts) > 0 {
		out.WriteString("(declare-datatypes (")
		for _, s := range dts {
			fmt.Fprintf(&out, "(%s 0) ", sortName(s))
		}
		out.WriteString(") (\n")
		for _, s := range dts {
			switch {
			case s == sV:
				out.WriteString(" ((nilV) (otherV (otherV_id Int))")
				var cs []string
				for c := range ctors {
					cs = append(cs, c)
				}
				sort.Strings(cs)
				for _, c := range cs {
					tyMu.Lock()
					ps := ifaceSort[c]
					tyMu.Unlock()
					fmt.Fprintf(&out, " (%s (%s %s))", q("i:"+c), q("u:"+c), sortName(ps))
				}
				out.WriteString(")\n")
			case strings.HasPrefix(s, "P_"):
				fmt.Fprintf(&out, " ((%s) (%s (%s %s)))\n", q("nilp:"+s), q("p:"+s), q("deref:"+s), sortName(ptrElemSort(s)))
			default:
				info := structInfo(s)
				fmt.Fprintf(&out, " ((%s", q("mk:"+s))
				for i, f := range info.Fields {
					fmt.Fprintf(&out, " (%s %s)", q(fmt.Sprintf("sel:%s:%d", s, i)), sortName(f.Sort))
				}
				out.WriteString("))\n")
			}
		}
		out.WriteString("))\n")
	}
	for _, s := range simple {
		if isSeq(s) {
			n := sortName(s)
			fmt.Fprintf(&out, "(declare-fun %s (%s) Int)\n(declare-fun %s (%s Int) %s)\n(declare-fun %s (%s Int Int) %s)\n(declare-const %s %s)\n",
				q("len!"+s), n, q("nth!"+s), n, sortName(seqElem(s)), q("ext!"+s), n, n, q("empty!"+s), n)
		}
	}
	var names []string
	for c := range consts {
		names = append(names, c)
	}
	sort.Strings(names)
	for _, c := range names {
		fmt.Fprintf(&out, "(declare-const %s %s)\n", q(c), sortName(consts[c]))
	}
	names = names[:0]
	for c := range ufs {
		names = append(names, c)
	}
	sort.Strings(names)
	for _, c := range names {
		sig := ufs[c]
		fmt.Fprintf(&out, "(declare-fun %s (", q("uf:"+c))
		for _, a := range sig[:len(sig)-1] {
			out.WriteString(sortName(a) + " ")
		}
		fmt.Fprintf(&out, ") %s)\n", sortName(sig[len(sig)-1]))
	}
	named := map[*Term]string{}
	var pr func(t *Term) string
	head := func(t *Term) string {
		switch {
		case t.Op == "seq.len" && abs[seqElem(t.Args[0].Sort)]:
			return q("len!" + t.Args[0].Sort)
		case t.Op == "seq.nth" && abs[seqElem(t.Args[0].Sort)]:
			return q("nth!" + t.Args[0].Sort)
		case t.Op == "seq.extract" && abs[seqElem(t.Sort)]:
			return q("ext!" + t.Sort)
		case t.Op == "is":
			c := t.S
			if c == "nilp" {
				c = "nilp:" + t.Args[0].Sort
			}
			if c == "nilV" {
				return "(_ is nilV)"
			}
			return "(_ is " + q(c) + ")"
		case strings.HasPrefix(t.Op, "sel:"):
			return q(fmt.Sprintf("%s:%d", t.Op, t.I))
		case strings.Contains(t.Op, ":"):
			return q(t.Op)
		}
		return t.Op
	}
	pr = func(t *Term) string {
		if n, ok := named[t]; ok {
			return n
		}
		var s string
		switch {
		case t.Op == "int":
			if t.I < 0 {
				s = fmt.Sprintf("(- %d)", -t.I)
			} else {
				s = fmt.Sprint(t.I)
			}
			return s
		case t.Op == "str":
			return smtStr(t.S)
		case t.Op == "const":
			return q(t.S)
		case t.Op == "nilV" || t.Op == "true" || t.Op == "false":
			return t.Op
		case t.Op == "nilp":
			return q("nilp:" + t.Sort)
		case t.Op == "seq.empty" && abs[seqElem(t.Sort)]:
			return q("empty!" + t.Sort)
		case t.Op == "seq.empty":
			return "(as seq.empty " + sortName(t.Sort) + ")"
		case len(t.Args) == 0:
			return head(t)
		default:
			var b strings.Builder
			b.WriteString("(" + head(t))
			for _, a := range t.Args {
				b.WriteByte(' ')
				b.WriteString(pr(a))
			}
			b.WriteByte(')')
			s = b.String()
		}
		if refs[t] > 1 && len(s) > 24 {
			n := fmt.Sprintf("d!%d", t.ID)
			fmt.Fprintf(&out, "(define-fun %s () %s %s)\n", n, sortName(t.Sort), s)
			named[t] = n
			return n
		}
		return s
	}
	for _, a := range asserts {
		s := pr(a)
		fmt.Fprintf(&out, "(assert %s)\n", s)
	}
	out.WriteString("(check-sat)\n")
	if len(getValues) > 0 {
		out.WriteString("(get-value (")
		for _, v := range getValues {
			out.WriteString(pr(v) + " ")
		}
		out.WriteString("))\n")
	}
	return out.String(), nil
}

type solverStats struct {
	queries int64
	nanos   int64
	byName  sync.Map
}

var stats solverStats

func countBy(name string) {
	v, _ := stats.byName.LoadOrStore(name, new(int64))
	atomic.AddInt64(v.(*int64), 1)
}

// runSolver returns "unsat", "sat", "unknown" or an error text.
func runSolver(bin string, src string, timeout time.Duration) (string, string) {
	return runSolverCtx(context.Background(), bin, src, timeout)
}

func runSolverCtx(ctx context.Context, bin string, src string, timeout time.Duration, settings ...string) (string, string) {
	start := time.Now()
	ctx, cancel := context.WithTimeout(ctx, timeout+2*time.Second)
	defer cancel()
	if ctx.Err() != nil {
		return "unknown", ""
	}
	cmd := exec.CommandContext(ctx, bin, append([]string{"-in", fmt.Sprintf("-T:%d", int(timeout.Seconds()+0.999))}, settings...)...)
	cmd.Stdin = strings.NewReader(src)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	atomic.AddInt64(&stats.queries, 1)
	atomic.AddInt64(&stats.nanos, int64(time.Since(start)))
	if d := os.Getenv("GOVC_SLOW"); d != "" && time.Since(start) > 900*time.Millisecond {
		os.WriteFile(fmt.Sprintf("%s/q%d.smt2", d, atomic.LoadInt64(&stats.queries)), []byte(src), 0644)
	}
	s := out.String()
	first := strings.TrimSpace(strings.SplitN(s, "\n", 2)[0])
	switch first {
	case "unsat", "sat", "unknown":
	case "timeout":
		first = "unknown"
	default:
		if os.Getenv("GOVC_DEBUG") != "" {
			os.WriteFile("/tmp/govc_bad.smt2", []byte(src), 0644)
		}
		first = "error: " + first
	}
	return first, s
}

var solverSem = make(chan struct{}, 8)

// prove checks that the asserts are contradictory.
func prove(asserts []*Term, timeout time.Duration) (string, string) {
	for _, a := range asserts {
		if a == tFalse {
			countBy("simplifier")
			return "unsat", ""
		}
	}
	abs, more := abstractSeqs(asserts)
	if len(more) > 0 {
		asserts = append(append([]*Term{}, asserts...), more...)
	}
	src, err := script(asserts, nil, abs)
	if err != nil {
		return "error: " + err.Error(), ""
	}
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	r, out := runSolver("z3", src, timeout)
	if r == "unsat" {
		countBy("z3 4.8.12")
		return r, out
	}
	if timeout <= quickTimeout {
		return r, out
	}
	if r == "unknown" || strings.HasPrefix(r, "error") {
		r2, out2 := runSolver("z3-new", src, timeout)
		if r2 == "unsat" {
			countBy("z3 5.3.2")
			return r2, out2
		}
		if r2 == "sat" || strings.HasPrefix(r, "error") && !strings.HasPrefix(r2, "error") {
			return r2, out2
		}
	}
	return r, out
}

// proveAgain gives the asserts, as they are and propagated, to the newer release with several settings at once; its own "sat"
// ends the attempt. The older release is incomplete for concatenated sequences: its "sat" there is not a model.
func proveAgain(asserts, propagated []*Term, timeout time.Duration) (string, string) {
	type answer struct{ r, out string }
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan answer, 8)
	n := 0
	for _, as := range [][]*Term{propagated, asserts} {
		src, err := script(as, nil, nil)
		if err != nil {
			return "error: " + err.Error(), ""
		}
		for _, o := range [][]string{nil, {"smt.arith.solver=2"}, {"tactic.default_tactic=smt"}} {
			n++
			go func() {
				solverSem <- struct{}{}
				defer func() { <-solverSem }()
				r, out := runSolverCtx(ctx, "z3-new", src, timeout, o...)
				ch <- answer{r, out}
			}()
		}
	}
	last := answer{"unknown", ""}
	for ; n > 0; n-- {
		a := <-ch
		if a.r == "unsat" {
			countBy("z3 5.3.2")
			return a.r, a.out
		}
		if a.r == "sat" {
			return a.r, a.out
		}
		last = a
	}
	return last.r, last.out
}

func concatenates(asserts []*Term) bool {
	found := false
	walk(func(t *Term) bool {
		if t.Op == "seq.++" || t.Op == "str.++" {
			found = true
		}
		return !found
	}, asserts...)
	return found
}

// abstractSeqs finds the element sorts whose sequences are only indexed, measured and sliced: the solver then gets them as
// uninterpreted values with the facts about these operations, which is weaker than its own theory and much faster.
func abstractSeqs(asserts []*Term) (map[string]bool, []*Term) {
	abs := map[string]bool{}
	not := map[string]bool{}
	var seqs []*Term
	walk(func(t *Term) bool {
		if isSeq(t.Sort) {
			e := seqElem(t.Sort)
			abs[e] = true
			seqs = append(seqs, t)
			switch {
			case t.Op == "seq.unit" || t.Op == "seq.++":
				not[e] = true
			case strings.HasPrefix(t.Op, "seq.") && t.Op != "seq.extract" && t.Op != "seq.nth" && t.Op != "seq.empty":
				not[e] = true
			}
		} else if strings.HasPrefix(t.Op, "seq.") && t.Op != "seq.len" && t.Op != "seq.nth" {
			for _, a := range t.Args {
				if isSeq(a.Sort) {
					not[seqElem(a.Sort)] = true
				}
			}
		}
		return true
	}, asserts...)
	for e := range not {
		delete(abs, e)
	}
	if len(abs) == 0 {
		return nil, nil
	}
	var out []*Term
	seen := map[*Term]bool{}
	lenOf := func(t *Term) *Term { return raw("seq.len", sInt, 0, "", t) }
	add := func(t *Term) {
		if t != tTrue && !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	inside := func(t *Term) *Term { // the slice lies in the sequence
		return mkAnd(mkLe(mkInt(0), t.Args[1]), mkLe(mkInt(0), t.Args[2]), mkLe(mkAdd(t.Args[1], t.Args[2]), lenOf(t.Args[0])))
	}
	for _, t := range seqs {
		if seen[t] || !abs[seqElem(t.Sort)] {
			continue
		}
		seen[t] = true
		l := lenOf(t)
		if t.Op == "seq.empty" {
			add(raw("=", sBool, 0, "", l, mkInt(0)))
			continue
		}
		add(mkLe(mkInt(0), l))
		add(mkImplies(mkLe(l, mkInt(0)), raw("=", sBool, 0, "", t, mkEmpty(t.Sort))))
		if t.Op == "seq.extract" {
			add(mkImplies(inside(t), raw("=", sBool, 0, "", l, t.Args[2])))
		}
	}
	walk(func(t *Term) bool {
		if t.Op == "seq.nth" && t.Args[0].Op == "seq.extract" && abs[seqElem(t.Args[0].Sort)] && !seen[t] {
			seen[t] = true
			e, i := t.Args[0], t.Args[1]
			g := mkAnd(inside(e), mkLe(mkInt(0), i), mkLt(i, e.Args[2]))
			add(mkImplies(g, mkEq(t, raw("seq.nth", t.Sort, 0, "", e.Args[0], mkAdd(e.Args[1], i)))))
		}
		return true
	}, asserts...)
	return abs, out
}
