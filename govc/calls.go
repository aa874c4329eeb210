package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Quant is a universally quantified fact; vars are placeholders.
type Quant struct {
	vars []*Term
	body *Term
}

func retOut(st *State, fr *Frame, res ...*Term) []Outcome {
	return []Outcome{{kind: "ret", st: st, fr: fr, res: res}}
}

func (x *Exec) call(c *ssa.CallCommon, in *ssa.Call, st *State, fr *Frame) []Outcome {
	where := x.w.shortPos(c.Pos())
	if b, ok := c.Value.(*ssa.Builtin); ok && b.Name() == "len" {
		if a := fr.regs[c.Args[0]]; a != nil && a.Op == "arr" {
			return retOut(st, fr, a.Args[0])
		}
	}
	var args []*Term
	for _, a := range c.Args {
		args = append(args, x.val(fr, st, a))
	}
	if c.IsInvoke() {
		recv := x.val(fr, st, c.Value)
		return x.invoke(recv, c, args, st, fr, where)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(b, c, args, st, fr, where)
	}
	f := c.StaticCallee()
	if f == nil {
		v := x.val(fr, st, c.Value)
		if strings.HasPrefix(v.Op, "fn:") {
			if fn := x.w.closure(v.Op); fn != nil {
				return x.invokeFn(fn, append(args, v.Args...), c, st, fr, where)
			}
		}
		x.emitFail(st, "unsupported", "call of a function value", where, "call of an unknown function value")
		return retOut(st, fr, x.freshResults(c.Signature(), st)...)
	}
	if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		v := x.val(fr, st, mc)
		args = append(args, v.Args...)
	}
	return x.invokeFn(f, args, c, st, fr, where)
}

func (w *World) closure(op string) *ssa.Function {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.closures[op]
}

func (w *World) constMap(op string) *constGlobal {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.constMaps[op]
}

func (x *Exec) closureFn(f *ssa.Function) {
	x.w.mu.Lock()
	x.w.closures["fn:"+f.String()] = f
	x.w.mu.Unlock()
}

func (x *Exec) freshResults(sig *types.Signature, st *State) []*Term {
	var out []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, cellTerm(x.symCell("r", sig.Results().At(i).Type(), st)))
	}
	return out
}

func (x *Exec) inProg(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Pkg != nil && inProgram(f.Pkg.Pkg)
}

// invokeFn calls a known function: built-in meaning, contract, specification function, or its body.
func (x *Exec) invokeFn(f *ssa.Function, args []*Term, c *ssa.CallCommon, st *State, fr *Frame, where string) []Outcome {
	if !x.inProg(f) {
		if f.Synthetic != "" && f.Blocks != nil && f.Object() != nil && strings.Contains(f.Synthetic, "wrapper") {
			x.caller = fr
			return x.callFn(f, args, st, fr.depth+1, false)
		}
		if outs, ok := x.external(f, args, c, st, fr, where); ok {
			return outs
		}
		x.emitFail(st, "unsupported", "call of "+f.String(), where, "no contract for external function "+f.String())
		return retOut(st, fr, x.freshResults(f.Signature, st)...)
	}
	if x.w.isSpecFile(f) {
		if res, ok := x.specIntrinsic(f, args, st); ok {
			return retOut(st, fr, res...)
		}
		if l := x.w.contracts[f]; l != nil && l.Lemma {
			if x.spec > 0 {
				return retOut(st, fr)
			}
			return x.callContract(l, f, args, st, fr, where)
		}
		if x.w.specRec[f] {
			if con := x.w.contracts[f]; con != nil && x.spec == 0 && x.contract != nil && x.w.sameSCC(x.fn, f) {
				x.checkDecreases(con, f, args, st, where)
				r := x.specUF(f, args, st)
				for _, e := range x.w.specEnsures(r) { // induction hypothesis
					st.assume(e)
				}
				return retOut(st, fr, r)
			}
			return retOut(st, fr, x.specUF(f, args, st))
		}
		x.spec++
		defer func() { x.spec-- }()
		s := st.clone()
		x.caller = fr
		outs := x.callFn(f, args, s, fr.depth+1, false)
		outs = onlyRet(outs)
		if len(outs) != 1 {
			x.fail("specification function %s has %d results", f.Name(), len(outs))
		}
		// results may live in the cloned heap
		var res []*Term
		for _, r := range outs[0].res {
			res = append(res, x.resolve(outs[0].st, r))
		}
		return retOut(st, fr, res...)
	}
	if con := x.w.contracts[f]; con != nil && x.spec == 0 && !con.Inline {
		return x.callContract(con, f, args, st, fr, where)
	}
	if f.Blocks == nil {
		x.emitFail(st, "unsupported", "call of "+f.String(), where, "function has no body")
		return retOut(st, fr, x.freshResults(f.Signature, st)...)
	}
	n := 0
	for _, g := range x.callStack {
		if g == f {
			n++
		}
	}
	if n > 0 || len(x.callStack) > 60 {
		x.emitFail(st, "unsupported", "recursion through "+f.Name(), where, "recursive function "+f.Name()+" has no contract")
		return retOut(st, fr, x.freshResults(f.Signature, st)...)
	}
	x.callStack = append(x.callStack, f)
	defer func() { x.callStack = x.callStack[:len(x.callStack)-1] }()
	x.caller = fr
	outs := x.callFn(f, args, st, fr.depth+1, false)
	x.w.noteInlined(x.fnName, f)
	return outs
}

func onlyRet(outs []Outcome) (r []Outcome) {
	for _, o := range outs {
		if o.kind == "ret" {
			r = append(r, o)
		}
	}
	return
}

// specUF is the value of a recursive specification function: an uninterpreted function with unfolding axioms.
func (x *Exec) specUF(f *ssa.Function, args []*Term, st *State) *Term {
	var as []*Term
	for i, a := range args {
		a = x.resolve(st, a)
		want := sortOf(f.Params[i].Type())
		if a.Sort != want {
			x.fail("argument %d of %s has sort %s, want %s", i, f.Name(), a.Sort, want)
		}
		as = append(as, a)
	}
	name := "sf:" + f.Name()
	x.w.mu.Lock()
	x.w.specByName[name] = f
	x.w.mu.Unlock()
	return mkUF(name, sortOf(f.Signature.Results().At(0).Type()), as...)
}

// ownMethods tells whether the value of an interface is known to be of one of the program's types.
func ownMethods(recv *Term) bool {
	if !isCtor(recv.Op) || !strings.HasPrefix(recv.Op, "i:") {
		return false
	}
	tyMu.Lock()
	t := ifaceType[recv.Op[2:]]
	tyMu.Unlock()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && inProgram(n.Obj().Pkg())
}

func (x *Exec) invoke(recv *Term, c *ssa.CallCommon, args []*Term, st *State, fr *Frame, where string) []Outcome {
	m := c.Method
	full := typeName(types.Unalias(c.Value.Type())) + "." + m.Name()
	if m.Name() == "Error" && m.Pkg() == nil {
		x.emit(st, "safety", "nil dereference", nil, where, mkNot(mkIs("nilV", recv)))
		st.assume(mkNot(mkIs("nilV", recv)))
		return retOut(st, fr, errText(recv))
	}
	if (full == "asn1go.yyLexer.Error" || full == "io.Writer.Write" || full == "io.Reader.Read") && !ownMethods(recv) {
		res := x.freshResults(c.Signature(), st)
		x.event(st, full, sigTypes(c.Value.Type(), c.Signature()), append(append([]*Term{recv}, args...), res...)...)
		return retOut(st, fr, res...)
	}
	impl := x.w.implementers(c.Value.Type())
	known := dynTypes(recv)
	if known != nil {
		impl = known
	}
	if len(impl) == 0 {
		x.emitFail(st, "unsupported", "call of "+full, where, "interface method of an unmodelled type: "+full)
		return retOut(st, fr, x.freshResults(c.Signature(), st)...)
	}
	nn := mkNot(mkIs("nilV", recv))
	x.emit(st, "safety", "nil dereference", nil, where, nn)
	st.assume(nn)
	if known == nil {
		x.closedWorld(st, recv, c.Value.Type())
	}
	var outs []Outcome
	var cases []types.Type
	for _, t := range impl {
		if st.facts.simp(mkIs("i:"+dynName(t), recv)) != tFalse {
			cases = append(cases, t)
		}
	}
	if x.spec > 0 {
		// join the results
		var acc []*Term
		for i := len(cases) - 1; i >= 0; i-- {
			t := cases[i]
			s := st.clone()
			s.assume(mkIs("i:"+dynName(t), recv))
			fn := x.w.prog.LookupMethod(t, m.Pkg(), m.Name())
			o := onlyRet(x.invokeFn(fn, append([]*Term{mkUnbox(dynName(t), sortOf(t), recv)}, args...), c, s, fr, where))
			if len(o) == 0 {
				continue
			}
			var rs []*Term
			for _, r := range o[0].res {
				rs = append(rs, x.resolve(o[0].st, r))
			}
			if acc == nil {
				acc = rs
			} else {
				for k := range acc {
					acc[k] = mkIte(mkIs("i:"+dynName(t), recv), rs[k], acc[k])
				}
			}
		}
		return retOut(st, fr, acc...)
	}
	for i, t := range cases {
		s, f := st, fr
		if i < len(cases)-1 {
			s, f = st.clone(), fr.clone()
		}
		s.assume(mkIs("i:"+dynName(t), recv))
		fn := x.w.prog.LookupMethod(t, m.Pkg(), m.Name())
		if fn == nil {
			x.fail("%s: no method %s on %v", where, m.Name(), t)
		}
		// several callers of the same frame: outcomes carry their own
		for _, o := range x.invokeFn(fn, append([]*Term{mkUnbox(dynName(t), sortOf(t), recv)}, args...), c, s, f, where) {
			o.fr = f
			outs = append(outs, o)
		}
	}
	// all paths returning the same value in the same state are one path
	return outs
}

// dynTypes are the types an interface value is known to be one of, nil if they are not known.
func dynTypes(v *Term) (out []types.Type) {
	if v.Op == "ite" {
		a, b := dynTypes(v.Args[1]), dynTypes(v.Args[2])
		if a == nil || b == nil {
			return nil
		}
		for _, t := range b {
			if !hasType(a, t) {
				a = append(a, t)
			}
		}
		return a
	}
	if v.Op == "nilV" {
		return []types.Type{}
	}
	if isCtor(v.Op) && strings.HasPrefix(v.Op, "i:") {
		tyMu.Lock()
		t := ifaceType[v.Op[2:]]
		tyMu.Unlock()
		if t != nil {
			return []types.Type{t}
		}
	}
	return nil
}

// sigTypes are the types of receiver, parameters and results.
func sigTypes(recv types.Type, sig *types.Signature) (ts []types.Type) {
	if recv != nil {
		ts = append(ts, recv)
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	for i := 0; i < sig.Results().Len(); i++ {
		ts = append(ts, sig.Results().At(i).Type())
	}
	return
}

// event adds an effect to the trace: its name, arguments and results.
func (x *Exec) event(st *State, name string, ts []types.Type, args ...*Term) {
	rs := []*Term{mkIface("string", mkStr(name))}
	registerPayload("string", sStr)
	for i, a := range args {
		a = x.resolve(st, a)
		if a.Sort != sV {
			if i < len(ts) {
				a = mkIface(dynName(ts[i]), a)
			} else {
				n := "ev_" + sanitize(strings.NewReplacer("(", "", ")", "").Replace(a.Sort))
				registerPayload(n, a.Sort)
				a = mkIface(n, a)
			}
		}
		rs = append(rs, a)
	}
	var parts []*Term
	for _, r := range rs {
		parts = append(parts, mkUnit(r))
	}
	g := x.traceObj(st)
	o := st.heap[g]
	n := *o
	n.cell = &Cell{typ: o.cell.typ, term: mkConcat(seqOf(sV), append([]*Term{o.cell.term}, parts...)...)}
	st.heap[g] = &n
	st.writes[fmt.Sprintf("%d/", g)] = true
}

func registerPayload(n, sort string) {
	tyMu.Lock()
	ifaceSort[n] = sort
	tyMu.Unlock()
}

// traceObj is the ghost list of effects outside of the program.
func (x *Exec) traceObj(st *State) int {
	const id = 1
	if st.heap[id] == nil {
		t := types.NewSlice(types.NewInterfaceType(nil, nil))
		st.heap[id] = &Obj{id: id, typ: t, cell: &Cell{typ: t, term: mkEmpty(seqOf(sV))}, pre: false}
	}
	return id
}

// ---- contracts at call sites

func (x *Exec) evalSpec(fn *ssa.Function, args []*Term, st *State) *Term {
	x.spec++
	defer func() { x.spec-- }()
	s := st.clone()
	outs := onlyRet(x.callFn(fn, args, s, 0, false))
	if len(outs) == 0 {
		return tTrue
	}
	r := outs[0].res[0]
	return x.resolve(outs[0].st, r)
}

// freeze copies the objects reachable from the arguments, for old().
func (x *Exec) freeze(st *State, args []*Term) []*Term {
	memo := map[int64]int{}
	var fz func(t *Term) *Term
	var fzCell func(c *Cell) *Cell
	fz = func(t *Term) *Term {
		if t.Op == "loc" {
			id, ok := memo[t.I]
			if !ok {
				o := st.heap[int(t.I)]
				if o == nil {
					return t
				}
				x.nextObj++
				id = x.nextObj
				memo[t.I] = id
				n := &Obj{id: id, typ: o.typ, pre: false}
				st.heap[id] = n
				n.cell = fzCell(o.cell)
			}
			return raw("loc", t.Sort, int64(id), t.S)
		}
		if len(t.Args) == 0 || !containsOp(t, "loc") {
			return t
		}
		as := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			as[i] = fz(a)
		}
		return rebuild(t, as)
	}
	fzCell = func(c *Cell) *Cell {
		if c.term != nil {
			if !containsOp(c.term, "loc") {
				return c
			}
			return &Cell{typ: c.typ, term: fz(c.term)}
		}
		n := &Cell{typ: c.typ}
		for _, s := range c.sub {
			n.sub = append(n.sub, fzCell(s))
		}
		return n
	}
	var out []*Term
	for _, a := range args {
		out = append(out, fz(a))
	}
	return out
}

// modLocs evaluates the modifies clauses to "id/path" keys.
func (x *Exec) modLocs(c *Contract, args []*Term, st *State) []*Term {
	var out []*Term
	for _, cl := range c.clauses("modifies") {
		x.spec++
		s := st.clone()
		o := onlyRet(x.callFn(cl.fn, args, s, 0, false))
		x.spec--
		if len(o) == 0 {
			continue
		}
		r := o[0].res[0]
		walk(func(t *Term) bool {
			if t.Op == "loc" && st.heap[int(t.I)] != nil {
				out = append(out, t)
				return false
			}
			return true
		}, r)
	}
	if c.Effects {
		out = append(out, raw("loc", "P_trace", int64(x.traceObj(st)), ""))
	}
	return out
}

func (x *Exec) havoc(st *State, l *Term) {
	o := st.heap[int(l.I)]
	path := splitPath(l.S)
	old := cellAt(o.cell, path)
	n := *o
	if x.w.isGhostReader(o.typ) && len(path) == 0 {
		c := expand(old)
		nc := &Cell{typ: c.typ, sub: append([]*Cell{}, c.sub...)}
		pos := fresh("pos", sInt)
		nc.sub[1] = &Cell{typ: c.sub[1].typ, term: pos}
		nc.sub[2] = &Cell{typ: c.sub[2].typ, term: fresh("unread", sBool)}
		n.cell = nc
		st.heap[int(l.I)] = &n
		st.assume(mkLe(cellTerm(c.sub[1]), mkAdd(pos, mkInt(1))))
		x.readerFacts(st, int(l.I))
		st.writes[fmt.Sprintf("%d/.1", l.I)] = true
		st.writes[fmt.Sprintf("%d/.2", l.I)] = true
		return
	}
	if l.I == 1 {
		n.cell = &Cell{typ: old.typ, term: fresh("trace", seqOf(sV))}
	} else {
		n.cell = cellSet(o.cell, path, x.symCell("mod", old.typ, st))
	}
	st.heap[int(l.I)] = &n
	st.writes[fmt.Sprintf("%d/%s", l.I, l.S)] = true
}

func (x *Exec) callContract(c *Contract, f *ssa.Function, args []*Term, st *State, fr *Frame, where string) []Outcome {
	// callees on the same call cycle must be called with a smaller measure
	if x.contract != nil && x.w.sameSCC(x.fn, f) && x.silent == 0 {
		x.checkDecreases(c, f, args, st, where)
	}
	for _, cl := range c.clauses("requires") {
		g := x.evalSpecN(cl, args, st)
		x.emit(st, "requires", cl.Label+" of "+c.Name, cl.Props, where, g)
		st.assume(g)
	}
	// constructor-like wrappers: pointers passed may be values
	old := x.freeze(st, args)
	defer func(t *Term) { x.oldTrace = t }(x.oldTrace)
	x.oldTrace = st.heap[x.traceObj(st)].cell.term
	preTrace := x.oldTrace
	mods := x.modLocs(c, args, st)
	for _, l := range mods {
		x.havoc(st, l)
	}
	sig := f.Signature
	var outs []Outcome
	if ps := c.clauses("panics"); len(ps) > 0 {
		for _, cl := range ps {
			g := x.evalSpec(cl.fn, append(append([]*Term{}, args...), old...), st)
			g = st.facts.simp(g)
			if g == tTrue {
				return []Outcome{{kind: "panic", st: st, fr: fr, note: where}}
			}
			if g != tFalse {
				s2 := st.clone()
				s2.assume(g)
				outs = append(outs, Outcome{kind: "panic", st: s2, fr: fr.clone(), note: where})
				st.assume(mkNot(g))
			}
		}
	}
	var res []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		v := fresh("res_"+f.Name(), sortOf(t))
		x.typeFacts(st, v, t)
		res = append(res, v)
	}
	// postconditions; a definition of a result replaces it
	if !c.Lemma || true {
		for _, cl := range c.clauses("ensures") {
			a := append(append(append([]*Term{}, args...), res...), old...)
			for range cl.Exists {
				t := cl.fn.Params[len(a)].Type()
				v := fresh("ex", sortOf(t))
				x.typeFacts(st, v, t)
				a = append(a, v)
				x.exConsts = append(x.exConsts, exConst{v, t})
			}
			if len(cl.Foralls) > 0 {
				var vars []*Term
				for i := range cl.Foralls {
					vars = append(vars, fresh("qv", sortOf(cl.fn.Params[len(a)+i].Type())))
				}
				body := x.resolve(st, x.evalSpec(cl.fn, append(a, vars...), st))
				st.quants = append(st.quants[:len(st.quants):len(st.quants)], &Quant{vars: vars, body: body})
				continue
			}
			g := x.evalSpec(cl.fn, a, st)
			g = st.facts.simp(g)
			for _, cj := range conjuncts(g) {
				done := false
				if cj.Op == "=" || (cj.Op == "is" && cj.S == "nilV") {
					for i, r := range res {
						var other *Term
						if cj.Op == "is" {
							if cj.Args[0] == r {
								other = tNilV
							}
						} else if cj.Args[0] == r {
							other = cj.Args[1]
						} else if cj.Args[1] == r {
							other = cj.Args[0]
						}
						if other != nil && !containsTerm(other, r) {
							m := map[*Term]*Term{r: other}
							res[i] = other
							for j := range res {
								res[j] = subst(res[j], m)
							}
							for k := range st.pc {
								_ = k
							}
							st.substPC(m)
							done = true
							break
						}
					}
				}
				if !done {
					st.assume(cj)
				}
			}
		}
	}
	x.w.noteCall(x.fnName, c)
	if c.Effects {
		return append(outs, x.knownEffects(args, st, fr, res, preTrace)...)
	}
	return append(outs, Outcome{kind: "ret", st: st, fr: fr, res: res})
}

// knownEffects splits the outcome of a call with effects by what its contract says the effects are, so that they are
// known in each case: a postcondition "guard or the trace is X" is the case in which the guard is false. What is printed
// to a buffer of the caller becomes its content.
func (x *Exec) knownEffects(args []*Term, st *State, fr *Frame, res []*Term, pre *Term) (outs []Outcome) {
	id := x.traceObj(st)
	tr := st.heap[id].cell.term
	type eff struct{ guard, trace *Term }
	var effs []eff
	for _, p := range st.pc {
		ds := []*Term{p}
		if p.Op == "or" {
			ds = p.Args
		}
		for i, d := range ds {
			if d.Op != "=" {
				continue
			}
			other := d.Args[0]
			if other == tr {
				other = d.Args[1]
			} else if d.Args[1] != tr {
				continue
			}
			if containsTerm(other, tr) {
				continue
			}
			effs = append(effs, eff{mkOr(append(append([]*Term{}, ds[:i]...), ds[i+1:]...)...), other})
			break
		}
	}
	for i, e := range effs {
		g := st.facts.simp(e.guard)
		if g == tTrue {
			continue
		}
		s, f := st.clone(), fr.clone()
		for _, d := range effs[:i] {
			s.assume(d.guard)
		}
		s.assume(mkNot(g))
		if s.dead() {
			continue
		}
		s.substPC(map[*Term]*Term{tr: e.trace})
		o := *s.heap[id]
		o.cell = &Cell{typ: o.cell.typ, term: e.trace}
		s.heap[id] = &o
		x.printed(s, args, e.trace, pre)
		outs = append(outs, Outcome{kind: "ret", st: s, fr: f, res: res})
		st.assume(e.guard)
		if g == tFalse {
			return
		}
	}
	if len(outs) > 0 {
		if r, _ := prove(dropLocal(st.pc), 2*time.Second); r == "unsat" { // these were all cases
			return
		}
	}
	x.printed(st, args, nil, nil)
	return append(outs, Outcome{kind: "ret", st: st, fr: fr, res: res})
}

// dead tells whether the conditions contradict each other by what the simplifier knows.
func (s *State) dead() bool {
	for _, p := range s.pc {
		if p == tFalse {
			return true
		}
	}
	return false
}

// printed gives the buffers passed to a call with effects the content that was printed to them: the new events of the
// trace, or, if they are not known, anything.
func (x *Exec) printed(st *State, args []*Term, trace, pre *Term) {
	for _, a := range args {
		if !strings.HasPrefix(a.Op, "i:") || a.Args[0].Op != "loc" {
			continue
		}
		l := a.Args[0]
		if x.w.ghostBufferLoc(st, l) == false {
			continue
		}
		w := x.resolve(st, a)
		var text *Term
		if trace == pre {
			text = mkStr("")
		} else if trace != nil && trace.Op == "seq.++" {
			ev := trace.Args
			if pre.Op == "seq.++" && len(ev) >= len(pre.Args) {
				ev = ev[len(pre.Args):]
			} else if pre.Op != "seq.empty" && len(ev) > 0 && ev[0] == pre {
				ev = ev[1:]
			}
			if len(ev) == 4 && ev[0] == mkUnit(mkIface("string", mkStr("print"))) && ev[1] == mkUnit(w) && ev[2].Op == "seq.unit" && ev[3].Op == "seq.unit" {
				full := mkUF("printedText", sStr, ev[2].Args[0])
				text = mkIte(mkIs("nilV", ev[3].Args[0]), full, fresh("partial", sStr))
			}
		}
		if text == nil {
			text = fresh("printed", sStr)
		}
		x.bufAppend(st, l, text)
	}
}

func (w *World) ghostBufferLoc(st *State, l *Term) bool {
	o := st.heap[int(l.I)]
	if o == nil {
		return false
	}
	c := cellAt(o.cell, splitPath(l.S))
	return w.isGhostBuffer(c.typ)
}

type exConst struct {
	t   *Term
	typ types.Type
}

func (x *Exec) evalSpecN(cl *Clause, args []*Term, st *State) *Term {
	return x.evalSpec(cl.fn, args, st)
}

func conjuncts(t *Term) []*Term {
	if t.Op == "and" {
		return t.Args
	}
	return []*Term{t}
}

func containsTerm(t, s *Term) bool {
	found := false
	walk(func(u *Term) bool {
		if u == s {
			found = true
		}
		return !found
	}, t)
	return found
}

// substPC replaces a fresh result symbol by its definition in the path condition and facts gathered since.
func (s *State) substPC(m map[*Term]*Term) {
	ch := false
	pc := make([]*Term, 0, len(s.pc))
	for _, t := range s.pc {
		n := subst(t, m)
		ch = ch || n != t
		if n != tTrue {
			pc = append(pc, n)
		}
	}
	if ch {
		s.pc = pc
		for _, t := range pc {
			s.facts.add(t, true)
		}
	}
	var qs []*Quant
	for _, q := range s.quants {
		qs = append(qs, &Quant{q.vars, subst(q.body, m)})
	}
	s.quants = qs
}

func (x *Exec) checkDecreases(c *Contract, f *ssa.Function, args []*Term, st *State, where string) {
	m1 := x.measureOf(c, args, st)
	if len(m1) == 0 || len(x.measure0) == 0 {
		x.emitFail(st, "termination", "recursion through "+f.Name()+" ends", where, "no measure given for the recursion through "+f.Name())
		return
	}
	m0 := x.measure0
	for len(m1) < len(m0) {
		m1 = append(m1, mkInt(0))
	}
	var alts []*Term
	var eqs []*Term
	for i := range m0 {
		alts = append(alts, mkAnd(append(append([]*Term{}, eqs...), mkLt(m1[i], m0[i]), mkLe(mkInt(0), m0[i]))...))
		eqs = append(eqs, mkEq(m1[i], m0[i]))
	}
	x.emit(st, "termination", "recursion through "+f.Name()+" ends", x.props, where, mkOr(alts...))
}

// measureOf is what the contract says falls with each recursive call, or else the size of the first parameter that has one.
func (x *Exec) measureOf(c *Contract, args []*Term, st *State) []*Term {
	if ds := c.clauses("decreases"); len(ds) > 0 {
		return x.evalMeasure(ds[0], args, st)
	}
	for _, a := range args {
		if s := a.Sort; s == sV || isSeq(s) || strings.HasPrefix(s, "S_") {
			return []*Term{mkSize(a)}
		}
	}
	return nil
}

func (x *Exec) evalMeasure(cl *Clause, args []*Term, st *State) []*Term {
	r := x.evalSpec(cl.fn, args, st)
	if r.Op == "seq.unit" {
		return []*Term{r.Args[0]}
	}
	var out []*Term
	for _, a := range r.Args {
		if a.Op == "seq.unit" {
			out = append(out, a.Args[0])
		}
	}
	return out
}

// ---- built-in functions

func (x *Exec) builtin(b *ssa.Builtin, c *ssa.CallCommon, args []*Term, st *State, fr *Frame, where string) []Outcome {
	switch b.Name() {
	case "len", "cap":
		v := args[0]
		switch {
		case v.Sort == sStr:
			return retOut(st, fr, mkStrLen(v))
		case isSeq(v.Sort):
			if b.Name() == "cap" {
				break
			}
			return retOut(st, fr, mkSeqLen(v))
		case v.Op == "loc":
			if at, ok := c.Args[0].Type().Underlying().(*types.Pointer); ok {
				if arr, ok := at.Elem().Underlying().(*types.Array); ok {
					return retOut(st, fr, mkInt(arr.Len()))
				}
			}
		}
		r := fresh("len", sInt)
		st.assume(mkLe(mkInt(0), r))
		return retOut(st, fr, r)
	case "append":
		s := args[0]
		if s.Op == "nilp" || !isSeq(s.Sort) {
			x.fail("%s: append to %s", where, s.Sort)
		}
		t := args[1]
		if t.Sort == sStr {
			t = bytesOf(t)
		}
		x.w.assumption("append never writes to memory another live slice can see (no aliased spare capacity)")
		return retOut(st, fr, mkConcat(s.Sort, s, t))
	case "copy", "print", "println", "delete", "close", "clear":
		x.emitFail(st, "unsupported", b.Name(), where, "builtin "+b.Name()+" is outside the modelled subset")
		return retOut(st, fr, x.freshResults(c.Signature(), st)...)
	case "ssa:wrapnilchk":
		return retOut(st, fr, args[0])
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			if b.Name() == "min" {
				r = mkIte(mkLe(r, a), r, a)
			} else {
				r = mkIte(mkLe(a, r), r, a)
			}
		}
		return retOut(st, fr, r)
	}
	x.fail("%s: unsupported builtin %s", where, b.Name())
	return nil
}

// ---- specification intrinsics (functions of the prelude)

func unboxAny(v *Term) *Term {
	if strings.HasPrefix(v.Op, "i:") {
		return v.Args[0]
	}
	return v
}

func (x *Exec) specIntrinsic(f *ssa.Function, args []*Term, st *State) ([]*Term, bool) {
	r := func(i int) *Term { return x.resolve(st, args[i]) }
	if strings.HasPrefix(f.Name(), "abstract") { // any function of the values of its arguments
		var as, out []*Term
		for i := range args {
			as = append(as, r(i))
		}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			t := f.Signature.Results().At(i).Type()
			u := mkUF(fmt.Sprintf("%s.%d", f.Name(), i), sortOf(t), as...)
			x.typeFacts(st, u, t)
			out = append(out, u)
		}
		return out, true
	}
	one := func(t *Term) ([]*Term, bool) { return []*Term{t}, true }
	switch f.Name() {
	case "eq":
		a, b := x.specFlat(r(0)), x.specFlat(r(1))
		if strings.HasPrefix(a.Op, "i:") && strings.HasPrefix(b.Op, "i:") && a.Op != b.Op {
			pa, pb := a.Args[0], b.Args[0]
			if pa.Sort == pb.Sort { // identical structure under different names
				return one(mkEq(pa, pb))
			}
		}
		return one(mkEq(a, b))
	case "size":
		return one(mkSize(unboxAny(r(0))))
	case "has":
		return one(mkHas(r(0), r(1)))
	case "nodup":
		return one(mkNodup(r(0)))
	case "printedText":
		return one(mkUF("printedText", sStr, r(0)))
	case "isNilPtr":
		return one(mkIs("nilp", unboxAny(r(0))))
	case "oldTrace":
		if x.oldTrace == nil {
			return one(mkEmpty(seqOf(sV)))
		}
		return one(x.oldTrace)
	case "trace":
		return one(st.heap[x.traceObj(st)].cell.term)
	case "rdIn", "rdPos", "rdUnread", "rdFail":
		i := map[string]int{"rdIn": 0, "rdPos": 1, "rdUnread": 2, "rdFail": 3}[f.Name()]
		if args[0].Op != "loc" {
			x.fail("reader is not a known object: %v", args[0])
		}
		o := st.heap[int(args[0].I)]
		return one(cellTerm(cellAt(o.cell, append(splitPath(args[0].S), i))))
	case "rdChar", "rdNeed":
		if args[0].Op != "loc" {
			x.fail("reader is not a known object: %v", args[0])
		}
		_, _, in, pos, _, _ := x.readerParts(st, args[0])
		if f.Name() == "rdChar" {
			return one(peekChar(in, pos, args[1]))
		}
		return one(peekNeed(in, mkAdd(pos, args[1])))
	case "assert":
		if x.spec == 0 {
			x.emit(st, "assert", "assert", nil, "", args[0])
			st.assume(args[0])
		}
		return nil, true
	}
	return nil, false
}

func (x *Exec) specFlat(t *Term) *Term { return t }

// ---- maps

type constGlobal struct {
	isMap   bool
	keys    []*Term
	vals    map[*Term]*Term
	term    *Term
	ok      bool
	why     string
	hash    string
	valType types.Type
}

var bigMaps sync.Map // content hash to *constGlobal

// bigMapFacts are what the content of a constant map says about a lookup.
func bigMapFacts(t *Term, all bool) (out []*Term) {
	hash := t.Op[strings.IndexByte(t.Op, '_')+1:]
	v, ok := bigMaps.Load(hash)
	if !ok {
		return nil
	}
	g, k := v.(*constGlobal), t.Args[0]
	present := mkUF("mapok_"+hash, sBool, k)
	if strings.HasPrefix(t.Op, "uf:mapval_") {
		seen := map[*Term]bool{}
		var alts []*Term
		for _, key := range g.keys {
			if v := g.vals[key]; !seen[v] {
				seen[v] = true
				alts = append(alts, mkEq(t, v))
			}
			if all {
				out = append(out, mkImplies(mkEq(k, key), mkEq(t, g.vals[key])))
			}
		}
		return append(out, mkImplies(present, mkOr(alts...)))
	}
	if all {
		var alts []*Term
		for _, key := range g.keys {
			alts = append(alts, mkEq(k, key))
		}
		out = append(out, mkEq(t, mkOr(alts...)))
	}
	return
}

func (x *Exec) mapLookup(m, k *Term, t types.Type) (*Term, *Term) {
	mt := t.Underlying().(*types.Map)
	if strings.HasPrefix(m.Op, "uf:constmap_") {
		g := x.w.constMap(m.Op)
		if v, ok := g.vals[k]; ok {
			return v, tTrue
		}
		if isLit(k.Op) {
			return zeroTerm(mt.Elem()), tFalse
		}
		if len(g.keys) <= 12 {
			v, ok := zeroTerm(mt.Elem()), tFalse
			for _, key := range g.keys {
				v = mkIte(mkEq(k, key), g.vals[key], v)
				ok = mkOr(mkEq(k, key), ok)
			}
			return v, ok
		}
		bigMaps.Store(g.hash, g)
		ok := mkUF("mapok_"+g.hash, sBool, k)
		return mkIte(ok, mkUF("mapval_"+g.hash, sortOf(mt.Elem()), k), zeroTerm(mt.Elem())), ok
	}
	ok := fresh("inmap", sBool)
	return mkIte(ok, fresh("mapval", sortOf(mt.Elem())), zeroTerm(mt.Elem())), ok
}

// globalLoc gives the address of a package variable: of its constant content if nothing assigns to it.
func (x *Exec) globalLoc(st *State, g *ssa.Global) *Term {
	if id, ok := x.globals[g]; ok {
		if _, live := st.heap[id]; live {
			return x.loc(id, "", g.Type())
		}
	}
	t := g.Type().Underlying().(*types.Pointer).Elem()
	var c *Cell
	cg := x.w.constGlobalOf(g, x)
	if cg.ok {
		c = &Cell{typ: t, term: cg.term}
	} else {
		c = x.symCell("global_"+g.Name(), t, st)
	}
	id, ok := x.globals[g]
	if !ok {
		x.nextObj++
		id = x.nextObj
		x.globals[g] = id
	}
	st.heap[id] = &Obj{id: id, typ: t, cell: c, pre: true}
	return x.loc(id, "", g.Type())
}

// constGlobalOf evaluates a package variable from the package's initialiser.
func (w *World) constGlobalOf(g *ssa.Global, x *Exec) *constGlobal {
	w.mu.Lock()
	cg, ok := w.globals[g]
	w.mu.Unlock()
	if ok {
		return cg
	}
	cg = &constGlobal{}
	w.mu.Lock()
	w.globals[g] = cg
	w.mu.Unlock()
	full := g.String()
	if !inProgram(g.Pkg.Pkg) {
		if full == "io.EOF" {
			registerPayload("io.EOF", sInt)
			cg.ok, cg.term = true, mkIface("io.EOF", mkInt(0))
		} else if sortOf(g.Type().Underlying().(*types.Pointer).Elem()) == sV && g.Pkg.Pkg.Path() != "os" {
			cg.ok, cg.term = true, mkUF("extglobal_"+full, sV)
		} else {
			cg.ok, cg.term = true, mkUF("extglobal_"+full, sortOf(g.Type().Underlying().(*types.Pointer).Elem()))
			w.assumption("package variable " + full + " is not reassigned")
		}
		return cg
	}
	// assigned outside of init?
	for key, sp := range w.pkgs {
		_ = key
		for _, m := range sp.Members {
			fn, ok := m.(*ssa.Function)
			if !ok || fn.Name() == "init" {
				continue
			}
			_ = fn
		}
	}
	for fn := range w.allFns {
		if fn.Name() == "init" && fn.Synthetic != "" || w.isSpecFile(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if in.Addr == g {
						cg.why = "assigned in " + fn.Name()
						return cg
					}
				case *ssa.MapUpdate:
					if u, ok := in.Map.(*ssa.UnOp); ok && u.X == g {
						cg.why = "updated in " + fn.Name()
						return cg
					}
				case ssa.CallInstruction:
					for _, a := range in.Common().Args {
						if a == g {
							cg.why = "address passed on in " + fn.Name()
							return cg
						}
					}
				}
			}
		}
	}
	init := g.Pkg.Func("init")
	if init == nil {
		return cg
	}
	defer func() {
		if e := recover(); e != nil {
			if a, ok := e.(abortErr); ok {
				cg.ok = false
				cg.why = a.msg
				return
			}
			panic(e)
		}
	}()
	y := newExec(w)
	y.silent = 1
	y.spec = 1
	st := &State{heap: map[int]*Obj{}, facts: newFacts(), writes: map[string]bool{}}
	fr := &Frame{fn: init, regs: map[ssa.Value]*Term{}, active: map[*Loop]*loopRun{}}
	var ev func(v ssa.Value) *Term
	ev = func(v ssa.Value) *Term {
		if t, ok := fr.regs[v]; ok {
			return t
		}
		switch u := v.(type) {
		case *ssa.Const, *ssa.Function:
			return y.val(fr, st, u)
		case *ssa.Global:
			return y.globalLoc(st, u)
		case *ssa.Alloc:
			y.step(u, st, fr)
			// apply the stores into it
			replayStores(u, y, st, fr, ev)
			return fr.regs[v]
		case ssa.Instruction:
			for _, op := range u.Operands(nil) {
				if *op != nil {
					if _, isF := (*op).(*ssa.Function); isF {
						continue
					}
					fr.regs[*op] = ev(*op)
				}
			}
			if c, ok := u.(*ssa.Call); ok {
				outs := onlyRet(y.call(c.Common(), c, st, fr))
				if len(outs) == 1 {
					y.setResult(fr, c, outs[0].res)
				}
				return fr.regs[v]
			}
			y.step(u, st, fr)
			return fr.regs[v]
		}
		return nil
	}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok || s.Addr != g {
				continue
			}
			if mm, ok := s.Val.(*ssa.MakeMap); ok {
				cg.isMap = true
				cg.vals = map[*Term]*Term{}
				var desc []string
				for _, ref := range *mm.Referrers() {
					if mu, ok := ref.(*ssa.MapUpdate); ok {
						k, v := ev(mu.Key), y.resolve(st, ev(mu.Value))
						if _, dup := cg.vals[k]; !dup {
							cg.keys = append(cg.keys, k)
						}
						cg.vals[k] = v
						desc = append(desc, k.str()+"="+v.str())
					}
				}
				sortStrings(desc)
				cg.hash = fmt.Sprintf("%x", fnv(strings.Join(desc, "\n")))
				cg.term = mkUF("constmap_"+cg.hash, sortOf(s.Val.Type()))
				w.mu.Lock()
				w.constMaps[cg.term.Op] = cg
				w.mu.Unlock()
				cg.ok = true
				return cg
			}
			cg.term = y.resolve(st, ev(s.Val))
			cg.ok = true
			return cg
		}
	}
	// never initialised: zero value
	cg.term = zeroTerm(g.Type().Underlying().(*types.Pointer).Elem())
	cg.ok = true
	return cg
}

func replayStores(a *ssa.Alloc, y *Exec, st *State, fr *Frame, ev func(ssa.Value) *Term) {
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		for _, ref := range *v.Referrers() {
			switch r := ref.(type) {
			case *ssa.Store:
				if r.Addr == v {
					y.store(st, fr.regs[v], ev(r.Val), r.Val.Type(), "")
				}
			case *ssa.FieldAddr:
				if r.X == v {
					y.step(r, st, fr)
					visit(r)
				}
			case *ssa.IndexAddr:
				if r.X == v {
					fr.regs[r.Index] = ev(r.Index)
					y.step(r, st, fr)
					visit(r)
				}
			}
		}
	}
	visit(a)
}

var _ = constant.MakeBool
var _ = token.ADD

func hasType(ts []types.Type, t types.Type) bool {
	for _, u := range ts {
		if types.Identical(t, u) {
			return true
		}
	}
	return false
}
