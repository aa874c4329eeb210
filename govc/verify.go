package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- constructors for the prelude's abstract functions

func mkHas(l, m *Term) *Term {
	switch l.Op {
	case "seq.empty":
		return tFalse
	case "seq.unit":
		return mkEq(l.Args[0], m)
	case "seq.++":
		var ors []*Term
		for _, a := range l.Args {
			ors = append(ors, mkHas(a, m))
		}
		return mkOr(ors...)
	case "ite":
		return mkIte(l.Args[0], mkHas(l.Args[1], m), mkHas(l.Args[2], m))
	}
	return mkUF("has", sBool, l, m)
}

func mkNodup(l *Term) *Term {
	switch l.Op {
	case "seq.empty", "seq.unit":
		return tTrue
	case "seq.++":
		last := l.Args[len(l.Args)-1]
		if last.Op == "seq.unit" {
			init := mkConcat(l.Sort, l.Args[:len(l.Args)-1]...)
			return mkAnd(mkNodup(init), mkNot(mkHas(init, last.Args[0])))
		}
	case "ite":
		return mkIte(l.Args[0], mkNodup(l.Args[1]), mkNodup(l.Args[2]))
	}
	return mkUF("nodup", sBool, l)
}

// mkSize is a structural size: positive for constructed values, additive over parts.
func mkSize(t *Term) *Term {
	switch {
	case t.Sort == sInt || t.Sort == sBool || t.Sort == sStr || t.Sort == sF64 || strings.HasPrefix(t.Sort, "O_"):
		return mkInt(0)
	case t.Op == "nilV" || t.Op == "nilp" || t.Op == "seq.empty":
		return mkInt(0)
	case strings.HasPrefix(t.Op, "mk:") || strings.HasPrefix(t.Op, "i:") || strings.HasPrefix(t.Op, "p:"):
		s := []*Term{mkInt(1)}
		for _, a := range t.Args {
			s = append(s, mkSize(a))
		}
		return mkAdd(s...)
	case t.Op == "seq.unit":
		return mkAdd(mkInt(1), mkSize(t.Args[0]))
	case t.Op == "seq.++":
		var s []*Term
		for _, a := range t.Args {
			s = append(s, mkSize(a))
		}
		return mkAdd(s...)
	case t.Op == "ite":
		return mkIte(t.Args[0], mkSize(t.Args[1]), mkSize(t.Args[2]))
	}
	return mkUF("sz_"+sanitize(strings.NewReplacer("(", "", ")", "").Replace(t.Sort)), sInt, t)
}

func sizeAxioms(t *Term) []*Term {
	// t = sz(v), v opaque
	v := t.Args[0]
	out := []*Term{mkLe(mkInt(0), t)}
	if info := structInfo(v.Sort); info != nil && !info.Opaque {
		sum := []*Term{mkInt(1)}
		for i, f := range info.Fields {
			sum = append(sum, mkSize(mkSel(info.Sort, i, f.Sort, v)))
		}
		out = append(out, mkEq(t, mkAdd(sum...)))
	}
	switch {
	case strings.HasPrefix(v.Op, "u:"):
		p := v.Args[0]
		out = append(out, mkImplies(mkIs("i:"+v.Op[2:], p), mkEq(mkSize(p), mkAdd(mkInt(1), t))))
	case strings.HasPrefix(v.Op, "sel:"):
		out = append(out, mkLe(mkAdd(mkInt(1), t), mkSize(v.Args[0])))
	case strings.HasPrefix(v.Op, "deref:"):
		out = append(out, mkImplies(mkNot(mkIs("nilp", v.Args[0])), mkEq(mkSize(v.Args[0]), mkAdd(mkInt(1), t))))
	case v.Op == "seq.nth":
		out = append(out, mkImplies(mkAnd(mkLe(mkInt(0), v.Args[1]), mkLt(v.Args[1], mkSeqLen(v.Args[0]))),
			mkLe(mkAdd(mkInt(1), t), mkSize(v.Args[0]))))
	case v.Op == "seq.extract":
		out = append(out, mkLe(t, mkSize(v.Args[0])))
	}
	return out
}

// unfold is the body of a recursive specification function at the given arguments.
func (w *World) unfold(t *Term) *Term {
	w.mu.Lock()
	r, ok := w.unfoldMemo[t]
	fn := w.specByName[t.Op[3:]]
	w.mu.Unlock()
	if ok {
		return r
	}
	if fn == nil {
		return nil
	}
	x := newExec(w)
	x.silent = 1
	x.spec = 1
	x.fnName = fn.Name()
	st := &State{heap: map[int]*Obj{}, facts: newFacts(), writes: map[string]bool{}}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if a, ok := e.(abortErr); ok {
					w.assumption("INTERNAL: " + fn.Name() + " could not be unfolded: " + a.msg)
					r = nil
					return
				}
				panic(e)
			}
		}()
		outs := onlyRet(x.callFn(fn, t.Args, st, 0, false))
		if len(outs) == 1 {
			r = x.resolve(outs[0].st, outs[0].res[0])
		}
	}()
	w.mu.Lock()
	w.unfoldMemo[t] = r
	w.mu.Unlock()
	return r
}

// specEnsures are the proved postconditions of a recursive specification function at the given arguments.
func (w *World) specEnsures(t *Term) (out []*Term) {
	w.mu.Lock()
	fn := w.specByName[t.Op[3:]]
	w.mu.Unlock()
	c := w.contracts[fn]
	if fn == nil || c == nil || len(c.clauses("ensures")) == 0 {
		return nil
	}
	x := newExec(w)
	x.silent = 1
	x.spec = 1
	st := &State{heap: map[int]*Obj{}, facts: newFacts(), writes: map[string]bool{}}
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(abortErr); !ok {
				panic(e)
			}
		}
	}()
	pre := tTrue
	for _, cl := range c.clauses("requires") {
		pre = mkAnd(pre, x.evalSpec(cl.fn, t.Args, st))
	}
	for _, cl := range c.clauses("ensures") {
		a := append(append([]*Term{}, t.Args...), t)
		a = append(a, t.Args...)
		out = append(out, mkImplies(pre, x.evalSpec(cl.fn, a, st)))
	}
	return
}

// instances adds the axioms relevant to the asserts: unfoldings, size facts, quantifier instances.
func (w *World) instances(asserts []*Term, quants []*Quant, fuel int, noAx map[string]bool) []*Term {
	facts := newFacts()
	for _, a := range asserts {
		facts.add(a, true)
	}
	out := []*Term{}
	for _, a := range asserts {
		out = append(out, a)
	}
	done := map[*Term]bool{}
	hasUpto := w.fns["root:hasUpto"]
	add := func(t *Term) {
		t = facts.simp(t)
		if t == tTrue {
			return
		}
		out = append(out, t)
		facts.add(t, true)
	}
	// sf terms are unfolded breadth first, fuel levels deep
	level := map[*Term]int{}
	walk(func(t *Term) bool {
		if strings.HasPrefix(t.Op, "uf:sf:") {
			level[t] = 0
		}
		return true
	}, asserts...)
	var hasTerms, nthTerms []*Term
	lastTerms, catTerms := map[*Term]bool{}, map[*Term]*Term{}
	cursor := 0
	for round := 0; round < 40; round++ {
		var terms []*Term
		seen := map[*Term]bool{}
		start := cursor
		cursor = len(out)
		if start == cursor && round > 0 {
			break
		}
		walk(func(t *Term) bool {
			if t.Op == "seq.nth" && t.Sort == sStr && !seen[t] {
				seen[t] = true
				nthTerms = append(nthTerms, t)
			}
			if t.Op == "uf:lastbyte" && !seen[t] {
				lastTerms[t] = true
			}
			if t.Op == "str.++" && !seen[t] {
				seen[t] = true
				if l := mkLastByte(t); l.Op != "uf:lastbyte" {
					catTerms[t] = l
				}
			}
			if strings.HasPrefix(t.Op, "uf:") && !done[t] && !seen[t] {
				seen[t] = true
				terms = append(terms, t)
			}
			return true
		}, out[start:]...)
		sort.Slice(terms, func(i, j int) bool { return terms[i].ID < terms[j].ID })
		for _, t := range terms {
			switch {
			case strings.HasPrefix(t.Op, "uf:sf:"):
				if level[t] >= fuel {
					continue
				}
				done[t] = true
				b := w.unfold(t)
				if b == nil {
					continue
				}
				b = facts.simp(b)
				walk(func(u *Term) bool {
					if strings.HasPrefix(u.Op, "uf:sf:") && u != t {
						if _, ok := level[u]; !ok {
							level[u] = level[t] + 1
						}
					}
					return true
				}, b)
				add(mkEq(t, b))
				if !noAx[t.Op[3:]] {
					for _, e := range w.specEnsures(t) {
						add(e)
					}
				}
			case t.Op == "uf:has":
				done[t] = true
				hasTerms = append(hasTerms, t)
				if hasUpto != nil && seqElem(t.Args[0].Sort) == sStr {
					w.mu.Lock()
					w.specByName["sf:hasUpto"] = hasUpto
					w.mu.Unlock()
					u := mkUF("sf:hasUpto", sBool, t.Args[0], mkSeqLen(t.Args[0]), t.Args[1])
					add(mkEq(t, u))
				}
			case strings.HasPrefix(t.Op, "uf:sz_"):
				done[t] = true
				for _, a := range sizeAxioms(t) {
					add(a)
				}
			case t.Op == "uf:strofrune":
				done[t] = true
				r := t.Args[0]
				add(mkIte(mkAnd(mkLe(mkInt(0), r), mkLt(r, mkInt(128))),
					mkEq(t, raw("str.from_code", sStr, 0, "", r)),
					mkAnd(mkLe(mkInt(2), mkStrLen(t)), mkLe(mkInt(128), raw("str.to_code", sInt, 0, "", raw("str.at", sStr, 0, "", t, mkInt(0)))))))
			case t.Op == "uf:lastofrune":
				done[t] = true
				r := t.Args[0]
				add(mkIte(mkAnd(mkLe(mkInt(0), r), mkLt(r, mkInt(128))), mkEq(t, r), mkLe(mkInt(128), t)))
			case strings.HasPrefix(t.Op, "uf:mapok_"), strings.HasPrefix(t.Op, "uf:mapval_"):
				done[t] = true
				for _, a := range bigMapFacts(t, fuel >= 3) {
					add(a)
				}
			case t.Op == "uf:errtext":
				done[t] = true
				registerErr()
				add(mkImplies(mkIs("i:error", t.Args[0]), mkEq(t, mkUnbox("error", sStr, t.Args[0]))))
			case t.Op == "uf:rdchar":
				done[t] = true
				add(peekCharFact(t))
			case t.Op == "uf:rdneed":
				done[t] = true
				add(peekNeedFact(t))
			case t.Op == "uf:peekbyte":
				done[t] = true
				add(peekByteFact(t.Args[0], t.Args[1], t.Args[2], t))
			case t.Op == "uf:strofbyte":
				done[t] = true
				add(mkImplies(mkAnd(mkLe(mkInt(0), t.Args[0]), mkLe(t.Args[0], mkInt(255))), mkEq(t, raw("str.from_code", sStr, 0, "", t.Args[0]))))
			case t.Op == "uf:strof_uint8":
				done[t] = true
				add(mkEq(mkStrLen(t), mkSeqLen(t.Args[0])))
			case asciiClass[t.Op] != nil:
				done[t] = true
				add(asciiFact(t))
			case t.Op == "uf:itoa":
				done[t] = true
				add(mkLe(mkInt(1), mkStrLen(t)))
			}
		}
		// the last byte of a concatenation
		for l := range lastTerms {
			for c, b := range catTerms {
				k := mkImplies(mkEq(l.Args[0], c), mkEq(l, b))
				if !done[k] {
					done[k] = true
					add(k)
				}
			}
		}
		// an element is had
		for _, h := range hasTerms {
			for _, n := range nthTerms {
				if n.Args[0] == h.Args[0] {
					add(mkImplies(mkAnd(mkLe(mkInt(0), n.Args[1]), mkLt(n.Args[1], mkSeqLen(n.Args[0])), mkEq(n, h.Args[1])), h))
				}
			}
		}
		if round < 3 {
			for _, qn := range quants {
				for _, inst := range w.instantiate(qn, out) {
					if !done[inst] {
						done[inst] = true
						add(inst)
					}
				}
			}
		}
	}
	return out[len(asserts):]
}

// instantiate tries the terms of the right sort that occur in argument position of has(), hasUpto() and nth().
func (w *World) instantiate(qn *Quant, asserts []*Term) []*Term {
	cands := map[string][]*Term{}
	seen := map[*Term]bool{}
	addc := func(t *Term) {
		if !seen[t] {
			seen[t] = true
			cands[t.Sort] = append(cands[t.Sort], t)
		}
	}
	walk(func(t *Term) bool {
		switch {
		case t.Op == "uf:has":
			addc(t.Args[1])
		case t.Op == "seq.nth":
			addc(t.Args[1])
		case strings.HasPrefix(t.Op, "uf:sf:"):
			for _, a := range t.Args {
				if a.Sort == sStr || a.Sort == sInt {
					addc(a)
				}
			}
		case t.Op == "const" && strings.HasPrefix(t.S, "sk!"):
			addc(t)
		}
		return true
	}, asserts...)
	var out []*Term
	var rec func(i int, m map[*Term]*Term)
	rec = func(i int, m map[*Term]*Term) {
		if len(out) > 200 {
			return
		}
		if i == len(qn.vars) {
			out = append(out, subst(qn.body, m))
			return
		}
		cs := cands[qn.vars[i].Sort]
		if len(cs) > 24 {
			cs = cs[:24]
		}
		for _, c := range cs {
			if c == qn.vars[i] || strings.HasPrefix(c.S, "qv!") {
				continue
			}
			m2 := map[*Term]*Term{}
			for k, v := range m {
				m2[k] = v
			}
			m2[qn.vars[i]] = c
			rec(i+1, m2)
		}
	}
	rec(0, map[*Term]*Term{})
	return out
}

// discharge tries to prove an obligation, unfolding definitions further when needed.
func (w *World) discharge(o *Obl, timeout time.Duration) {
	if o.Static != "" {
		if o.Static == "ok" {
			o.Result = "unsat"
		} else {
			o.Result = "failed"
			o.Output = o.Static
		}
		return
	}
	start := time.Now()
	defer func() { o.Millis = time.Since(start).Milliseconds() }()
	if o.Goal == tFalse && o.Output != "" && len(o.PC) == 0 {
		o.Result = "failed"
		return
	}
	base := append([]*Term{}, o.PC...)
	base = append(base, o.Extra...)
	base = append(base, mkNot(o.Goal))
	maxFuel := 3
	if w.thorough {
		maxFuel = 4
	}
	if o.Kind == "candidate" { // most candidates are wrong: do not spend much on them
		maxFuel = 2
		if !containsUF(o.Goal) {
			maxFuel = 1
		}
	}
	reason := o.Output
	last := -1
	var lastAs, lastProp []*Term
	first := 0
	if o.Kind == "candidate" && maxFuel == 2 {
		first = 1
	}
	for fuel := first; fuel <= maxFuel; fuel++ {
		as := base
		if fuel > 0 || len(o.Quants) > 0 {
			as = append(append([]*Term{}, base...), w.instances(base, o.Quants, fuel, o.NoAx)...)
		}
		if hasLocal(as) {
			as = dropLocal(as)
		}
		if len(as) == last { // nothing more to unfold
			break
		}
		last = len(as)
		if o.Kind != "candidate" && atomic.LoadInt64(&w.hard) > 16 { // that many are open already: the answer will not change
			timeout = min(timeout, 2*time.Second)
		}
		prop := as
		if o.Kind != "candidate" {
			if prop = propagate(as); len(prop) == 1 && prop[0] == tFalse {
				o.Result, o.Fuel = "unsat", fuel
				countBy("simplifier")
				return
			}
		}
		r, out := prove(prop, timeout)
		o.Result, o.Output = r, out
		o.Fuel = fuel
		if r == "unsat" {
			return
		}
		lastAs, lastProp = as, prop
	}
	if o.Kind != "candidate" && lastAs != nil && atomic.AddInt64(&w.hard, 1) <= 16 && concatenates(lastAs) {
		if r, out := proveAgain(lastAs, lastProp, min(timeout, 10*time.Second)); r == "unsat" {
			o.Result, o.Output = r, out
			return
		}
	}
	if reason != "" {
		o.Output = reason
	}
}

func containsUF(t *Term) bool {
	found := false
	walk(func(t *Term) bool {
		found = found || strings.HasPrefix(t.Op, "uf:")
		return !found
	}, t)
	return found
}

func isLocal(t *Term) bool {
	bad := false
	walk(func(t *Term) bool {
		if t.Op == "loc" || t.Op == "elemptr" || t.Op == "elempath" || t.Op == "pathptr" || t.Op == "tuple" || strings.HasPrefix(t.Op, "fn:") || t.Op == "range" {
			bad = true
		}
		return !bad
	}, t)
	return bad
}

func hasLocal(as []*Term) bool {
	for _, a := range as {
		if isLocal(a) {
			return true
		}
	}
	return false
}

// dropLocal removes assumptions about addresses, which the solver does not know; the negated goal is always last of base
// and never contains addresses unless the goal does, in which case it cannot be proved.
func dropLocal(as []*Term) []*Term {
	var out []*Term
	for _, a := range as {
		if !isLocal(a) {
			out = append(out, a)
		}
	}
	return out
}

// ---- verifying one function

type FnResult struct {
	Name    string
	Pos     string
	Obls    []*Obl
	Paths   int
	Err     string
	Lemma   bool
	Trusted string
	Vacuous bool
}

// verify proves one contract; mine selects the obligations that count. What fails is tried again with more time.
func (w *World) verify(c *Contract, timeout time.Duration, mine func(o *Obl) bool) *FnResult {
	var res *FnResult
	for try := 0; try < 2; try++ {
		w.patient = try > 0
		atomic.StoreInt64(&w.hard, 0)
		if w.first {
			atomic.StoreInt64(&w.hard, 13)
		}
		res = w.verifyContract(c)
		var obls []*Obl
		for _, o := range res.Obls {
			if mine == nil || mine(o) {
				obls = append(obls, o)
			}
		}
		res.Obls = obls
		w.dischargeAll(obls, timeout)
		bad, loops := 0, false
		for _, o := range obls {
			if o.Result != "unsat" {
				bad++
			}
			loops = loops || o.Kind == "invariant" || o.Kind == "termination"
		}
		if bad == 0 || c.Trusted != "" || w.first {
			break
		}
		if !loops { // nothing was inferred: only the solver can do better
			var again []*Obl
			for _, o := range obls {
				if o.Result != "unsat" && o.Static == "" && !(o.Goal == tFalse && len(o.PC) == 0) {
					again = append(again, o)
				}
			}
			if len(again) <= 24 {
				w.dischargeAll(again, 3*timeout)
			}
			break
		}
		timeout *= 2
	}
	w.patient = false
	return res
}

func (w *World) verifyContract(c *Contract) (res *FnResult) {
	res = &FnResult{Name: c.Pkg + ":" + c.Name, Lemma: c.Lemma, Trusted: c.Trusted}
	if c.Trusted != "" {
		return
	}
	x := newExec(w)
	x.contract = c
	x.fn = c.fn
	x.fnName = c.Name
	x.props = c.Props
	res.Pos = w.shortPos(c.fn.Pos())
	defer func() {
		if e := recover(); e != nil {
			if a, ok := e.(abortErr); ok {
				res.Err = a.msg
				x.obls = append(x.obls, &Obl{Fn: c.Name, Name: "verification of the body", Kind: "unsupported", Goal: tFalse, Static: a.msg, Props: c.Props})
				res.Obls = x.obls
				return
			}
			panic(e)
		}
	}()
	st := &State{heap: map[int]*Obj{}, facts: newFacts(), writes: map[string]bool{}}
	x.traceObj(st)
	var args []*Term
	for _, p := range c.fn.Params {
		args = append(args, x.symParam(p.Name(), p.Type(), st))
	}
	x.params = args
	for _, cl := range c.clauses("requires") {
		st.assume(x.evalSpec(cl.fn, args, st))
	}
	x.oldArgs = x.freeze(st, args)
	x.measure0 = x.measureOf(c, args, st)
	mods := x.modLocs(c, args, st)
	modKeys := map[string]bool{}
	for _, m := range mods {
		modKeys[fmt.Sprintf("%d/%s", m.I, m.S)] = true
	}
	x.entry = st.clone()
	x.oldTrace = st.heap[x.traceObj(st)].cell.term
	x.callStack = []*ssa.Function{c.fn}
	entryPC := append([]*Term{}, st.pc...)
	for _, cl := range c.clauses("uses") {
		if len(cl.Pats) > 0 { // at loops
			continue
		}
		x.silent++
		outs := x.callFn(cl.fn, args, st, 0, false)
		x.silent--
		if len(outs) == 1 {
			st = outs[0].st
		}
	}
	st.writes = map[string]bool{}
	outs := x.callFn(c.fn, args, st, 0, true)
	if os.Getenv("GOVC_PATHS") != "" {
		for _, o := range outs {
			fmt.Fprintln(os.Stderr, "path", o.kind, o.note, cellTerm(o.st.heap[1].cell))
			for _, p := range o.st.pc {
				fmt.Fprintln(os.Stderr, "   ", p)
			}
		}
	}
	rets := 0
	for _, o := range outs {
		switch o.kind {
		case "ret":
			rets++
			x.checkPost(c, args, o, modKeys)
		case "panic":
			ps := c.clauses("panics")
			if len(ps) == 0 {
				x.emit(o.st, "panic", "no panic", c.Props, o.note, tFalse)
			}
			for _, cl := range ps {
				g := x.evalSpec(cl.fn, append(append([]*Term{}, args...), x.oldArgs...), o.st)
				x.emit(o.st, "panics", cl.Label, cl.Props, o.note, g)
			}
		case "exit":
			if os.Getenv("GOVC_PATHS") != "" {
				fmt.Fprintln(os.Stderr, "paths so far", x.paths)
			}
			rets++
			for _, cl := range c.clauses("exits") {
				a := append(append([]*Term{}, args...), x.oldArgs...)
				var alts []*Term
				for _, wit := range x.witnesses(o.st, cl, len(a)) {
					alts = append(alts, x.evalSpec(cl.fn, append(append([]*Term{}, a...), wit...), o.st))
				}
				x.emit(o.st, "exits", cl.Label, cl.Props, o.note, mkOr(alts...))
			}
			if len(c.clauses("exits")) == 0 {
				x.emit(o.st, "exit", "no exit", c.Props, o.note, tFalse)
			}
		}
	}
	res.Paths = len(outs)
	if w.specRec[c.fn] {
		no := map[string]bool{}
		for f := range w.specRec {
			if f == c.fn || w.sameSCC(f, c.fn) {
				no["sf:"+f.Name()] = true
			}
		}
		for _, o := range x.obls {
			o.NoAx = no
		}
	}
	res.Obls = x.obls
	// vacuity: the precondition must be satisfiable and some path must end
	if rets == 0 && len(c.clauses("panics")) == 0 {
		x.obls = append(x.obls, &Obl{Fn: c.Name, Name: "some execution ends", Kind: "cover", Static: "no execution of the function reaches its end", Props: c.Props})
		res.Obls = x.obls
	}
	if len(entryPC) > 0 {
		r, _ := prove(dropLocal(entryPC), 2*time.Second)
		if r == "unsat" {
			res.Vacuous = true
			res.Obls = append(res.Obls, &Obl{Fn: c.Name, Name: "precondition is satisfiable", Kind: "cover", Static: "the precondition is contradictory", Props: c.Props})
		}
	}
	if rets > 0 {
		alive := false
		for i := len(outs) - 1; i >= 0; i-- {
			o := outs[i]
			if o.kind != "ret" {
				continue
			}
			r, _ := prove(dropLocal(o.st.pc), 2*time.Second)
			if r != "unsat" {
				alive = true
				break
			}
		}
		ob := &Obl{Fn: c.Name, Name: "some path to a return is feasible", Kind: "cover", Static: "ok", Props: c.Props}
		if !alive {
			ob.Static = "every path to a return has contradictory conditions"
		}
		res.Obls = append(res.Obls, ob)
	}
	return
}

func (x *Exec) symParam(name string, t types.Type, st *State) *Term {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		_, isStruct := p.Elem().Underlying().(*types.Struct)
		_, isBasic := p.Elem().Underlying().(*types.Basic)
		inProg := true
		if n, ok := types.Unalias(p.Elem()).(*types.Named); ok && !inProgram(n.Obj().Pkg()) {
			inProg = x.w.ghostType(p.Elem()) != nil
		}
		if (isStruct || isBasic) && inProg {
			id := x.newObj(st, p.Elem(), x.symCell(name, p.Elem(), st), true)
			if x.w.isGhostReader(st.heap[id].typ) {
				x.readerFacts(st, id)
			}
			x.w.assumption("pointer parameters and receivers are non-nil and do not alias each other")
			return x.loc(id, "", t)
		}
	}
	c := x.symCell(name, t, st)
	for id, o := range st.heap { // readers owned by parameters
		if x.w.isGhostReader(o.typ) {
			x.readerFacts(st, id)
		}
	}
	return cellTerm(c)
}

func (x *Exec) checkPost(c *Contract, args []*Term, o Outcome, modKeys map[string]bool) {
	st := o.st
	for _, cl := range c.clauses("ensures") {
		a := append(append(append([]*Term{}, args...), o.res...), x.oldArgs...)
		var alts []*Term
		for _, wit := range x.witnesses(st, cl, len(a)) {
			b := append(append([]*Term{}, a...), wit...)
			for range cl.Foralls {
				b = append(b, fresh("sk", sortOf(cl.fn.Params[len(b)].Type())))
			}
			alts = append(alts, x.evalSpec(cl.fn, b, st))
		}
		g := mkOr(alts...)
		props := cl.Props
		if len(props) == 0 {
			props = c.Props
		}
		x.emit(st, "ensures", cl.Label, props, x.w.shortPos(c.fn.Pos()), g)
	}
	for _, cl := range c.clauses("panics") {
		g := x.evalSpec(cl.fn, append(append([]*Term{}, args...), x.oldArgs...), st)
		x.emit(st, "panics", cl.Label+" (otherwise no return)", cl.Props, x.w.shortPos(c.fn.Pos()), mkNot(g))
	}
	var keys []string
	for k := range st.writes {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if !covered(modKeys, k) {
			id := 0
			fmt.Sscanf(k, "%d", &id)
			if obj := st.heap[id]; obj != nil && (obj.pre || id == 1) {
				x.emitFailP(st, "frame", "changes nothing but what it may", c.Props, "", fmt.Sprintf("writes to %s of an object that existed before the call (%v)", k, obj.typ))
			}
		}
	}
}

// witnesses are the values to try for the existential variables of a clause: the contents of the objects at hand.
func (x *Exec) witnesses(st *State, cl *Clause, at int) [][]*Term {
	out := [][]*Term{nil}
	for i := range cl.Exists {
		want := cl.fn.Params[at+i].Type()
		var vals []*Term
		seen := map[*Term]bool{}
		var look func(c *Cell)
		look = func(c *Cell) {
			if types.Identical(c.typ, want) {
				t := x.resolve(st, cellTerm(c))
				if !seen[t] {
					seen[t] = true
					vals = append(vals, t)
				}
				return
			}
			for _, s := range c.sub {
				look(s)
			}
		}
		var ids []int
		for id := range st.heap {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		for _, id := range ids {
			look(st.heap[id].cell)
		}
		vals = append(vals, zeroTerm(want))
		var known []*Term // what callees chose, as far as effects depend on it
		for _, e := range x.exConsts {
			if types.Identical(e.typ, want) && !seen[e.t] && containsTerm(cellTerm(st.heap[x.traceObj(st)].cell), e.t) {
				known = append(known, e.t)
			}
		}
		if known != nil {
			vals = known
		}
		var next [][]*Term
		for _, o := range out {
			for _, v := range vals {
				next = append(next, append(append([]*Term{}, o...), v))
			}
		}
		out = next
	}
	return out
}

func (x *Exec) emitFailP(st *State, kind, name string, props []string, where, reason string) {
	n := len(x.obls)
	x.emitFail(st, kind, name, where, reason)
	for _, o := range x.obls[n:] {
		o.Props = props
	}
}

// dischargeAll proves obligations in parallel.
func (w *World) dischargeAll(obls []*Obl, timeout time.Duration) {
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for _, o := range obls {
		if o.Static != "" || o.Goal == tTrue {
			if o.Static == "" {
				o.Result = "unsat"
				countBy("simplifier")
			} else {
				w.discharge(o, timeout)
			}
			continue
		}
		wg.Add(1)
		sem <- struct{}{}
		go func(o *Obl) {
			defer wg.Done()
			defer func() { <-sem }()
			defer func() {
				if e := recover(); e != nil {
					o.Result = "failed"
					o.Output = fmt.Sprint(e)
				}
			}()
			w.discharge(o, timeout)
		}(o)
	}
	wg.Wait()
}

// sameSCC: f can call g and g can call f.
func (w *World) sameSCC(f, g *ssa.Function) bool {
	return w.reaches(f, g) && w.reaches(g, f)
}

func (w *World) reaches(f, g *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var dfs func(h *ssa.Function) bool
	dfs = func(h *ssa.Function) bool {
		for _, n := range w.callees(h) {
			if n == g {
				return true
			}
			if !seen[n] {
				seen[n] = true
				if dfs(n) {
					return true
				}
			}
		}
		return false
	}
	return dfs(f)
}

func (w *World) callees(f *ssa.Function) []*ssa.Function {
	w.mu.Lock()
	defer w.mu.Unlock()
	if c, ok := w.calleeMemo[f]; ok {
		return c
	}
	var out []*ssa.Function
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && g.Pkg != nil && inProgram(g.Pkg.Pkg) {
					out = append(out, g)
				}
			}
		}
	}
	w.calleeMemo[f] = out
	return out
}
