package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Cell is the immutable content of (part of) an object: either one term, or its fields/elements.
type Cell struct {
	typ  types.Type
	term *Term
	sub  []*Cell
}

type Obj struct {
	id   int
	typ  types.Type
	cell *Cell
	pre  bool // exists since function entry (or loop entry): writes to it are effects

	filling bool // a list of known length, of which the cell holds the elements assigned so far
}

type State struct {
	heap   map[int]*Obj
	pc     []*Term
	facts  *Facts
	writes map[string]bool // "obj/path" written since last reset
	ghost  []string        // trace of ghost events (calls with effects outside the model)
	quants []*Quant
	flags  map[*Term][]flagReg // what is registered with a flag.FlagSet
}

func (s *State) clone() *State {
	h := make(map[int]*Obj, len(s.heap))
	for k, v := range s.heap {
		h[k] = v
	}
	w := make(map[string]bool, len(s.writes))
	for k := range s.writes {
		w[k] = true
	}
	var fl map[*Term][]flagReg
	if len(s.flags) > 0 {
		fl = make(map[*Term][]flagReg, len(s.flags))
		for k, v := range s.flags {
			fl[k] = v[:len(v):len(v)]
		}
	}
	return &State{flags: fl, heap: h, pc: s.pc[:len(s.pc):len(s.pc)], facts: s.facts.clone(), writes: w, ghost: s.ghost[:len(s.ghost):len(s.ghost)], quants: s.quants[:len(s.quants):len(s.quants)]}
}

func (s *State) assume(t *Term) {
	t = s.facts.simp(t)
	if t == tTrue {
		return
	}
	s.pc = append(s.pc, t)
	s.facts.add(t, true)
}

type Frame struct {
	fn     *ssa.Function
	regs   map[ssa.Value]*Term
	active map[*Loop]*loopRun
	defers []deferredCall
	depth  int
	top    bool
	caller *Frame // of an inlined function
}

type deferredCall struct {
	call *ssa.CallCommon
	args []*Term
}

func (f *Frame) clone() *Frame {
	r := make(map[ssa.Value]*Term, len(f.regs))
	for k, v := range f.regs {
		r[k] = v
	}
	a := make(map[*Loop]*loopRun, len(f.active))
	for k, v := range f.active {
		a[k] = v
	}
	return &Frame{fn: f.fn, regs: r, active: a, defers: f.defers[:len(f.defers):len(f.defers)], depth: f.depth, top: f.top, caller: f.caller}
}

type Outcome struct {
	kind string // ret, panic, back
	st   *State
	fr   *Frame
	res  []*Term
	loop *Loop
	note string
	phis map[*ssa.Phi]*Term
}

// Obl is one proof obligation: pc entails goal.
type Obl struct {
	Fn     string
	Name   string // clause label or safety kind
	Kind   string
	Props  []string
	Where  string
	PC     []*Term
	Goal   *Term
	Extra  []*Term // lemma instances
	Quants []*Quant
	NoAx   map[string]bool // specification functions whose postconditions must not be used
	Static string          // non-empty: decided without solver: "ok" or the reason of failure
	Inputs []*Term
	params []*Term

	Result string
	Fuel   int
	Millis int64
	Output string
	Model  string
}

type abortErr struct{ msg string }

// Exec runs one verification task.
type Exec struct {
	caller    *Frame // of the function entered next
	w         *World
	fnName    string
	fn        *ssa.Function
	contract  *Contract
	obls      []*Obl
	silent    int
	spec      int
	nextObj   int
	exConsts  []exConst // what callee contracts say exists
	entry     *State
	params    []*Term
	oldArgs   []*Term
	oldTrace  *Term
	paths     int
	notes     map[string]bool
	measure0  []*Term
	callStack []*ssa.Function
	globals   map[*ssa.Global]int
	quick     map[string]bool
	sizeUsed  bool
	inLemma   bool
	ghostObjs map[string]int
	props     []string
}

func newExec(w *World) *Exec {
	return &Exec{w: w, notes: map[string]bool{}, globals: map[*ssa.Global]int{}, nextObj: 1, ghostObjs: map[string]int{}}
}

func (x *Exec) fail(format string, a ...interface{}) {
	panic(abortErr{fmt.Sprintf(format, a...)})
}

func (x *Exec) emit(st *State, kind, name string, props []string, where string, goal *Term) {
	if x.silent > 0 || x.spec > 0 {
		return
	}
	goal = st.facts.simp(goal)
	x.obls = append(x.obls, &Obl{Fn: x.fnName, Name: name, Kind: kind, Props: props, Where: where, PC: st.pc, Goal: goal, Quants: st.quants, params: x.params})
}

// emitFail records an obligation that cannot be discharged for a reason outside the logic.
func (x *Exec) emitFail(st *State, kind, name, where, reason string) {
	if x.silent > 0 || x.spec > 0 {
		return
	}
	if st == nil {
		st = &State{facts: newFacts()}
	}
	x.obls = append(x.obls, &Obl{Fn: x.fnName, Name: name, Kind: kind, Where: where, PC: st.pc, Goal: tFalse, Output: reason})
}

// ---- cells

func isStructT(t types.Type) (*types.Struct, bool) {
	s, ok := t.Underlying().(*types.Struct)
	return s, ok
}

func (x *Exec) zeroCell(t types.Type) *Cell {
	if g := x.w.ghostType(t); g != nil {
		t = g
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		c := &Cell{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			c.sub = append(c.sub, x.zeroCell(u.Field(i).Type()))
		}
		if u.NumFields() == 0 {
			c.term = zeroTerm(t)
		}
		return c
	case *types.Array:
		if u.Len() <= 4096 {
			c := &Cell{typ: t}
			z := x.zeroCell(u.Elem())
			for i := int64(0); i < u.Len(); i++ {
				c.sub = append(c.sub, z)
			}
			if u.Len() == 0 {
				c.term = zeroTerm(t)
			}
			return c
		}
	}
	return &Cell{typ: t, term: zeroTerm(t)}
}

// symCell is a fresh unknown value of type t.
func (x *Exec) symCell(name string, t types.Type, st *State) *Cell {
	if g := x.w.ghostType(t); g != nil {
		t = g
	}
	if u, ok := t.Underlying().(*types.Struct); ok && u.NumFields() > 0 && !structInfoOf(t).Opaque {
		c := &Cell{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			c.sub = append(c.sub, x.symCell(name+"."+u.Field(i).Name(), u.Field(i).Type(), st))
		}
		return c
	}
	if p, ok := t.Underlying().(*types.Pointer); ok && x.w.ownedPtr(p.Elem()) {
		id := x.newObj(st, p.Elem(), x.symCell(name, p.Elem(), st), true)
		return &Cell{typ: t, term: x.loc(id, "", t)}
	}
	v := fresh(name, sortOf(t))
	x.typeFacts(st, v, t)
	return &Cell{typ: t, term: v}
}

func structInfoOf(t types.Type) *StructInfo { return structInfo(sortOf(t)) }

func (x *Exec) newObj(st *State, t types.Type, c *Cell, pre bool) int {
	x.nextObj++
	id := x.nextObj
	if g := x.w.ghostType(t); g != nil {
		t = g
	}
	st.heap[id] = &Obj{id: id, typ: t, cell: c, pre: pre}
	return id
}

func (x *Exec) loc(id int, path string, ptrType types.Type) *Term {
	return raw("loc", sortOf(ptrType), int64(id), path)
}

func splitPath(p string) []int {
	var out []int
	for _, f := range strings.Split(p, ".") {
		if f == "" {
			continue
		}
		n := 0
		fmt.Sscanf(f, "%d", &n)
		out = append(out, n)
	}
	return out
}

func cellTerm(c *Cell) *Term {
	if c.term != nil {
		return c.term
	}
	switch u := c.typ.Underlying().(type) {
	case *types.Struct:
		info := structInfoOf(c.typ)
		if info.Opaque {
			return mkUF(fmt.Sprintf("opaque_%s", info.Sort), info.Sort)
		}
		var args []*Term
		for _, f := range info.Fields {
			v := cellTerm(c.sub[f.Idx])
			if f.View == "nz" {
				v = mkNot(mkEq(v, mkInt(0)))
			}
			args = append(args, v)
		}
		return raw("mk:"+info.Sort, info.Sort, 0, "", args...)
	case *types.Array:
		var parts []*Term
		for _, s := range c.sub {
			parts = append(parts, mkUnit(cellTerm(s)))
		}
		return mkConcat(seqOf(sortOf(u.Elem())), parts...)
	}
	panic("cellTerm")
}

// expand turns a struct term into per-field cells.
func expand(c *Cell) *Cell {
	if c.term == nil {
		return c
	}
	u, ok := c.typ.Underlying().(*types.Struct)
	if !ok {
		panic(abortErr{fmt.Sprintf("no parts in a value of type %v", c.typ)})
	}
	info := structInfoOf(c.typ)
	if info.Opaque {
		panic(abortErr{fmt.Sprintf("access to a field of unmodelled type %v", c.typ)})
	}
	n := &Cell{typ: c.typ}
	for i := 0; i < u.NumFields(); i++ {
		ft := u.Field(i).Type()
		if vi, ok := info.byIdx[i]; ok && info.Fields[vi].View == "" {
			n.sub = append(n.sub, &Cell{typ: ft, term: mkSel(info.Sort, vi, info.Fields[vi].Sort, c.term)})
		} else {
			n.sub = append(n.sub, &Cell{typ: ft, term: fresh("noview", sortOf(ft))})
		}
	}
	return n
}

func cellAt(c *Cell, path []int) *Cell {
	for _, i := range path {
		c = expand(c)
		if i >= len(c.sub) {
			panic(abortErr{"constant index out of range"})
		}
		c = c.sub[i]
	}
	return c
}

func cellSet(c *Cell, path []int, v *Cell) *Cell {
	if len(path) == 0 {
		return v
	}
	c = expand(c)
	n := &Cell{typ: c.typ, sub: append([]*Cell{}, c.sub...)}
	n.sub[path[0]] = cellSet(c.sub[path[0]], path[1:], v)
	return n
}

func (x *Exec) load(st *State, p *Term, t types.Type) *Term {
	switch p.Op {
	case "loc":
		o := st.heap[int(p.I)]
		if o == nil {
			x.fail("load through a dangling location %v", p)
		}
		return cellTerm(cellAt(o.cell, splitPath(p.S)))
	case "elemptr":
		return mkNth(p.Args[0], p.Args[1])
	case "arrelem":
		f := cellTerm(st.heap[int(p.I)].cell)
		zero := zeroTerm(st.heap[int(p.I)].typ.Underlying().(*types.Slice).Elem())
		return mkIte(mkLt(p.Args[0], mkSeqLen(f)), mkNth(f, p.Args[0]), zero)
	case "pathptr":
		es := ptrElemSort(p.Args[0].Sort)
		v := mkDeref(p.Args[0].Sort, es, p.Args[0])
		return x.selPath(v, splitPath(p.S))
	case "elempath":
		return x.selPath(mkNth(p.Args[0], p.Args[1]), splitPath(p.S))
	case "ite":
		return mkIte(p.Args[0], x.load(st, p.Args[1], t), x.load(st, p.Args[2], t))
	case "nilp":
		return fresh("nilload", sortOf(t))
	}
	if strings.HasPrefix(p.Sort, "P_") {
		return mkDeref(p.Sort, ptrElemSort(p.Sort), p)
	}
	x.fail("load through %v", p)
	return nil
}

func (x *Exec) selPath(v *Term, path []int) *Term {
	for _, i := range path {
		info := structInfo(v.Sort)
		vi, ok := info.byIdx[i]
		if !ok {
			x.fail("field %d of %s is not modelled", i, v.Sort)
		}
		v = mkSel(info.Sort, vi, info.Fields[vi].Sort, v)
	}
	return v
}

func (x *Exec) store(st *State, p *Term, v *Term, t types.Type, where string) {
	if p.Op == "arrelem" {
		f := cellTerm(st.heap[int(p.I)].cell)
		next := mkEq(p.Args[0], mkSeqLen(f))
		x.emit(st, "ownership", "elements are assigned in order", nil, where, next)
		st.assume(next)
		x.store(st, raw("loc", f.Sort, p.I, ""), mkConcat(f.Sort, f, mkUnit(x.resolve(st, v))), t, where)
		return
	}
	if p.Op != "loc" {
		if x.spec > 0 {
			x.fail("specification stores through %v", p)
		}
		x.emitFail(st, "frame", "frame", where, "store through a location that is not known to be local: "+p.String())
		return
	}
	o := st.heap[int(p.I)]
	if o == nil {
		x.fail("store through a dangling location")
	}
	n := *o
	old := cellAt(o.cell, splitPath(p.S))
	nc := &Cell{typ: old.typ, term: v}
	n.cell = cellSet(o.cell, splitPath(p.S), nc)
	st.heap[int(p.I)] = &n
	if o.pre {
		st.writes[fmt.Sprintf("%d/%s", p.I, p.S)] = true
	}
}

// resolve replaces locations by the values they point to.
func (x *Exec) resolve(st *State, t *Term) *Term {
	return x.resolve1(st, t, 0, map[*Term]*Term{})
}

func (x *Exec) resolve1(st *State, t *Term, depth int, memo map[*Term]*Term) *Term {
	if r, ok := memo[t]; ok {
		return r
	}
	if depth > 60 {
		x.fail("cyclic object")
	}
	var r *Term
	switch {
	case t.Op == "loc":
		o := st.heap[int(t.I)]
		if o == nil {
			x.fail("dangling location %v", t)
		}
		c := cellAt(o.cell, splitPath(t.S))
		want := ptrElemSort(t.Sort)
		if sortOf(c.typ) != want { // ghost object behind an opaque pointer
			r = mkUF(fmt.Sprintf("ghostptr_%d", t.I), t.Sort)
			break
		}
		v := x.resolve1(st, cellTerm(c), depth+1, memo)
		r = mkPtr(t.Sort, v)
	case len(t.Args) == 0:
		return t
	case t.Op == "pathptr" || t.Op == "elemptr" || t.Op == "elempath" || t.Op == "arrelem":
		v := x.load(st, t, nil)
		r = mkPtr(t.Sort, x.resolve1(st, v, depth+1, memo))
	default:
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = x.resolve1(st, a, depth, memo)
			ch = ch || args[i] != a
		}
		if ch {
			r = rebuild(t, args)
		} else {
			r = t
		}
	}
	memo[t] = r
	return r
}

// ---- type facts

func (x *Exec) typeFacts(st *State, v *Term, t types.Type) {
	if b, ok := t.Underlying().(*types.Basic); ok {
		if b.Info()&types.IsUnsigned != 0 {
			st.assume(mkLe(mkInt(0), v))
			if b.Kind() == types.Uint8 {
				st.assume(mkLe(v, mkInt(255)))
			}
		}
	}
}

// closedWorld assumes that a value of an in-program interface type has one of the program's own dynamic types.
func (x *Exec) closedWorld(st *State, v *Term, t types.Type) {
	if isCtor(v.Op) {
		return
	}
	if _, ok := st.facts.ctor[v]; ok {
		return
	}
	impl := x.w.implementers(t)
	if len(impl) == 0 {
		return
	}
	ors := []*Term{mkIs("nilV", v)}
	for _, it := range impl {
		ors = append(ors, mkIs("i:"+dynName(it), v))
	}
	x.w.assumption("values of interface " + typeName(t) + " hold one of the package's own implementations or nil")
	st.assume(mkOr(ors...))
}

// ---- constants

func f64Term(v float64) *Term {
	if v == 0 && !math.Signbit(v) {
		return mkUF("f64lit_0", sF64)
	}
	return mkUF(fmt.Sprintf("f64lit_%x", math.Float64bits(v)), sF64)
}

func constTerm(c *ssa.Const) *Term {
	t := c.Type()
	if c.Value == nil {
		return zeroTerm(t)
	}
	switch s := sortOf(t); s {
	case sBool:
		return mkBool(constant.BoolVal(c.Value))
	case sInt:
		i, ok := constant.Int64Val(constant.ToInt(c.Value))
		if !ok {
			u, _ := constant.Uint64Val(constant.ToInt(c.Value))
			return mkUF(fmt.Sprintf("biglit_%d", u), sInt)
		}
		return mkInt(i)
	case sStr:
		return mkStr(constant.StringVal(c.Value))
	case sF64:
		f, _ := constant.Float64Val(c.Value)
		return f64Term(f)
	}
	return fresh("const", sortOf(t))
}

func (x *Exec) val(fr *Frame, st *State, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return constTerm(v)
	case *ssa.Global:
		return x.globalLoc(st, v)
	case *ssa.Function:
		x.closureFn(v)
		return raw("fn:"+v.String(), "O_func", 0, "")
	case *ssa.Builtin:
		return raw("fn:builtin."+v.Name(), "O_func", 0, "")
	}
	t, ok := fr.regs[v]
	if !ok {
		x.fail("%s: value %s has not been computed", fr.fn, v.Name())
	}
	if t.Op == "arr" { // from here on its elements do not change
		f := cellTerm(st.heap[int(t.I)].cell)
		full := mkEq(mkSeqLen(f), t.Args[0])
		x.emit(st, "ownership", "all elements are assigned", nil, x.w.shortPos(v.Pos()), full)
		st.assume(full)
		return f
	}
	return t
}

// filledInPlace tells whether the elements of a new slice are assigned one by one, none of them after the slice has been
// used for anything but its elements and length.
func filledInPlace(in *ssa.MakeSlice) bool {
	var writes, uses []ssa.Instruction
	for _, ref := range *in.Referrers() {
		if ia, ok := ref.(*ssa.IndexAddr); ok && ia.X == in {
			for _, r := range *ia.Referrers() {
				switch r := r.(type) {
				case *ssa.Store:
					if r.Addr != ia || r.Val == ia {
						return false
					}
					writes = append(writes, r)
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					return false
				}
			}
			continue
		}
		if c, ok := ref.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				continue
			}
		}
		if _, ok := ref.(*ssa.DebugRef); ok {
			continue
		}
		uses = append(uses, ref)
	}
	if len(writes) == 0 {
		return false
	}
	for _, u := range uses {
		seen := map[*ssa.BasicBlock]bool{}
		var visit func(b *ssa.BasicBlock)
		visit = func(b *ssa.BasicBlock) {
			for _, s := range b.Succs {
				if !seen[s] {
					seen[s] = true
					visit(s)
				}
			}
		}
		visit(u.Block())
		for _, w := range writes {
			if seen[w.Block()] {
				return false
			}
			if w.Block() == u.Block() {
				for _, i := range u.Block().Instrs {
					if i == w {
						break
					}
					if i == u {
						return false
					}
				}
			}
		}
	}
	return true
}

// ---- control flow

func (x *Exec) callFn(fn *ssa.Function, args []*Term, st *State, depth int, top bool) []Outcome {
	if fn.Blocks == nil {
		x.fail("function %s has no body", fn)
	}
	fr := &Frame{fn: fn, regs: map[ssa.Value]*Term{}, active: map[*Loop]*loopRun{}, depth: depth, top: top, caller: x.caller}
	x.caller = nil
	for i, p := range fn.Params {
		fr.regs[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		fr.regs[fv] = args[len(fn.Params)+i]
	}
	return x.jump(nil, fn.Blocks[0], st, fr)
}

func (x *Exec) jump(from, to *ssa.BasicBlock, st *State, fr *Frame) []Outcome {
	// leaving loops
	for l, run := range fr.active {
		if !l.blocks[to] {
			if run.inductive {
				return nil // only back edges matter
			}
			delete(fr.active, l)
		}
	}
	phis := map[*ssa.Phi]*Term{}
	if from != nil {
		pi := -1
		for i, p := range to.Preds {
			if p == from {
				pi = i
			}
		}
		for _, in := range to.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			phis[ph] = x.val(fr, st, ph.Edges[pi])
		}
	}
	if l := x.w.loopAt(to); l != nil {
		if _, ok := fr.active[l]; ok {
			return []Outcome{{kind: "back", st: st, fr: fr, loop: l, phis: phis}}
		}
		if x.spec > 0 {
			return x.unrollLoop(to, phis, st, fr)
		}
		return x.processLoop(l, phis, st, fr)
	}
	for p, v := range phis {
		fr.regs[p] = v
	}
	return x.run(to, len(phis0(to)), st, fr)
}

func phis0(b *ssa.BasicBlock) (out []*ssa.Phi) {
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			out = append(out, p)
		} else {
			break
		}
	}
	return
}

// unrollLoop executes loops in specification functions concretely; conditions must be decided by constants.
func (x *Exec) unrollLoop(to *ssa.BasicBlock, phis map[*ssa.Phi]*Term, st *State, fr *Frame) []Outcome {
	for p, v := range phis {
		fr.regs[p] = v
	}
	fr.depth++
	if fr.depth > 5000 {
		x.fail("loop in specification function %s does not end", fr.fn)
	}
	return x.run(to, len(phis0(to)), st, fr)
}

func (x *Exec) run(b *ssa.BasicBlock, idx int, st *State, fr *Frame) []Outcome {
	for i := idx; i < len(b.Instrs); i++ {
		switch in := b.Instrs[i].(type) {
		case *ssa.If:
			c := st.facts.simp(x.resolveB(st, x.val(fr, st, in.Cond)))
			switch c {
			case tTrue:
				return x.jump(b, b.Succs[0], st, fr)
			case tFalse:
				return x.jump(b, b.Succs[1], st, fr)
			}
			if x.spec > 0 {
				return x.specBranch(c, b, st, fr)
			}
			st2, fr2 := st.clone(), fr.clone()
			st.assume(c)
			st2.assume(mkNot(c))
			out := x.jump(b, b.Succs[0], st, fr)
			return append(out, x.jump(b, b.Succs[1], st2, fr2)...)
		case *ssa.Jump:
			return x.jump(b, b.Succs[0], st, fr)
		case *ssa.Return:
			if x.spec == 0 {
				x.paths++
			}
			if x.paths > 60000 {
				x.fail("too many paths")
			}
			var res []*Term
			for _, r := range in.Results {
				res = append(res, x.val(fr, st, r))
			}
			return []Outcome{{kind: "ret", st: st, fr: fr, res: res}}
		case *ssa.Panic:
			return []Outcome{{kind: "panic", st: st, fr: fr, note: x.w.shortPos(in.Pos())}}
		case *ssa.Call:
			outs := x.call(in.Common(), in, st, fr)
			if len(outs) == 1 && outs[0].kind == "ret" && outs[0].st == st {
				x.setResult(fr, in, outs[0].res)
				continue
			}
			var all []Outcome
			for k, o := range outs {
				if o.kind != "ret" {
					all = append(all, o)
					continue
				}
				f := fr
				if k < len(outs)-1 {
					f = fr.clone()
				}
				x.setResult(f, in, o.res)
				all = append(all, x.run(b, i+1, o.st, f)...)
			}
			return all
		case *ssa.Phi:
		default:
			if !x.step(in, st, fr) {
				return nil
			}
		}
	}
	return nil
}

func (x *Exec) setResult(fr *Frame, in *ssa.Call, res []*Term) {
	if in.Call.Signature().Results().Len() > 1 {
		fr.regs[in] = raw("tuple", "tuple", 0, "", res...)
	} else if len(res) == 1 {
		fr.regs[in] = res[0]
	}
}

func (x *Exec) resolveB(st *State, c *Term) *Term {
	if containsOp(c, "loc") || containsOp(c, "pathptr") || containsOp(c, "elempath") || containsOp(c, "elemptr") {
		return x.resolve(st, c)
	}
	return c
}

// specBranch evaluates both sides of a branch of a pure specification function and joins their results.
func (x *Exec) specBranch(c *Term, b *ssa.BasicBlock, st *State, fr *Frame) []Outcome {
	st2, fr2 := st.clone(), fr.clone()
	n := len(st.pc)
	st.assume(c)
	st2.assume(mkNot(c))
	o1 := x.jump(b, b.Succs[0], st, fr)
	o2 := x.jump(b, b.Succs[1], st2, fr2)
	_ = n
	if len(o1) == 0 {
		return o2
	}
	if len(o2) == 0 {
		return o1
	}
	a, d := o1[0], o2[0]
	if a.kind == "panic" {
		return o2
	}
	if d.kind == "panic" {
		return o1
	}
	var res []*Term
	for i := range a.res {
		res = append(res, mkIte(c, x.resolve(a.st, a.res[i]), x.resolve(d.st, d.res[i])))
	}
	return []Outcome{{kind: "ret", st: a.st, fr: a.fr, res: res}}
}

func (x *Exec) step(instr ssa.Instruction, st *State, fr *Frame) bool {
	set := func(v ssa.Value, t *Term) { fr.regs[v] = t }
	get := func(v ssa.Value) *Term { return x.val(fr, st, v) }
	where := x.w.shortPos(instr.Pos())
	switch in := instr.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := in.Type().Underlying().(*types.Pointer).Elem()
		id := x.newObj(st, t, x.zeroCell(t), false)
		set(in, x.loc(id, "", in.Type()))
	case *ssa.Store:
		p := get(in.Addr)
		x.nilCheck(st, p, where)
		x.store(st, p, get(in.Val), in.Val.Type(), where)
	case *ssa.UnOp:
		v := get(in.X)
		switch in.Op {
		case token.MUL:
			x.nilCheck(st, v, where)
			r := x.load(st, v, in.Type())
			set(in, r)
			x.loadFacts(st, v, r, in.Type())
		case token.NOT:
			set(in, mkNot(v))
		case token.SUB:
			if v.Sort == sF64 {
				set(in, mkUF("f64neg", sF64, v))
			} else {
				set(in, x.narrow(mkMulK(-1, v), in.Type()))
			}
		default:
			x.fail("%s: unsupported operator %s", where, in.Op)
		}
	case *ssa.BinOp:
		set(in, x.binop(st, in.Op, get(in.X), get(in.Y), in.X.Type(), where))
	case *ssa.ChangeType:
		set(in, x.changeType(get(in.X), in.X.Type(), in.Type()))
	case *ssa.Convert:
		set(in, x.convert(get(in.X), in.X.Type(), in.Type(), where))
	case *ssa.ChangeInterface:
		v := get(in.X)
		if types.Identical(in.X.Type(), types.Universe.Lookup("error").Type()) {
			errorTerms.Store(v, true)
		}
		set(in, v)
	case *ssa.MakeInterface:
		set(in, mkIface(dynName(in.X.Type()), get(in.X)))
	case *ssa.TypeAssert:
		v := get(in.X)
		x.closedWorld(st, v, in.X.Type())
		var ok, r *Term
		if _, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			var ors []*Term
			for _, it := range x.w.implementers(in.AssertedType) {
				ors = append(ors, mkIs("i:"+dynName(it), v))
			}
			if len(ors) == 0 {
				ok = fresh("isiface", sBool)
			} else {
				ok = mkOr(ors...)
			}
			r = v
		} else {
			n := dynName(in.AssertedType)
			ok = mkIs("i:"+n, v)
			r = mkUnbox(n, sortOf(in.AssertedType), v)
		}
		if in.CommaOk {
			set(in, raw("tuple", "tuple", 0, "", r, ok))
		} else {
			x.emit(st, "safety", "type assertion", nil, where, ok)
			st.assume(ok)
			set(in, r)
		}
	case *ssa.Extract:
		set(in, get(in.Tuple).Args[in.Index])
	case *ssa.Field:
		v := get(in.X)
		info := structInfo(v.Sort)
		if info == nil || info.Opaque {
			x.fail("%s: field of unmodelled type %v", where, in.X.Type())
		}
		vi, ok := info.byIdx[in.Field]
		if !ok {
			x.fail("%s: field %d of %s is not modelled", where, in.Field, info.Sort)
		}
		r := mkSel(info.Sort, vi, info.Fields[vi].Sort, v)
		set(in, r)
	case *ssa.FieldAddr:
		p := get(in.X)
		x.nilCheck(st, p, where)
		a := x.fieldAddr(p, in.Field, in.Type())
		if a.Op == "elemptr" || p.Op == "elemptr" {
			x.ownership(st, in, where)
		}
		set(in, a)
	case *ssa.IndexAddr:
		i := get(in.Index)
		if a := fr.regs[in.X]; a != nil && a.Op == "arr" {
			inb := mkAnd(mkLe(mkInt(0), i), mkLt(i, a.Args[0]))
			x.emit(st, "safety", "index in range", nil, where, inb)
			st.assume(inb)
			x.ownership(st, in, where)
			set(in, raw("arrelem", sortOf(in.Type()), a.I, "", i))
			return true
		}
		s := get(in.X)
		if s.Op == "loc" { // array
			at := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			if i.Op == "int" {
				if i.I < 0 || i.I >= at.Len() {
					x.emit(st, "safety", "index in range", nil, where, tFalse)
					return false
				}
				set(in, raw("loc", sortOf(in.Type()), s.I, fmt.Sprintf("%s.%d", s.S, i.I)))
				return true
			}
			x.emit(st, "safety", "index in range", nil, where, mkAnd(mkLe(mkInt(0), i), mkLt(i, mkInt(at.Len()))))
			st.assume(mkAnd(mkLe(mkInt(0), i), mkLt(i, mkInt(at.Len()))))
			arr := x.load(st, s, nil)
			set(in, raw("elemptr", sortOf(in.Type()), 0, "", arr, i))
			return true
		}
		inb := mkAnd(mkLe(mkInt(0), i), mkLt(i, mkSeqLen(s)))
		x.emit(st, "safety", "index in range", nil, where, inb)
		st.assume(inb)
		x.ownership(st, in, where)
		set(in, raw("elemptr", sortOf(in.Type()), 0, "", s, i))
	case *ssa.Index:
		s, i := get(in.X), get(in.Index)
		if s.Sort == sStr {
			inb := mkAnd(mkLe(mkInt(0), i), mkLt(i, mkStrLen(s)))
			x.emit(st, "safety", "index in range", nil, where, inb)
			st.assume(inb)
			set(in, x.strAt(s, i))
		} else {
			inb := mkAnd(mkLe(mkInt(0), i), mkLt(i, mkSeqLen(s)))
			x.emit(st, "safety", "index in range", nil, where, inb)
			st.assume(inb)
			set(in, mkNth(s, i))
		}
	case *ssa.Lookup:
		m, k := get(in.X), get(in.Index)
		if m.Sort == sStr {
			inb := mkAnd(mkLe(mkInt(0), k), mkLt(k, mkStrLen(m)))
			x.emit(st, "safety", "index in range", nil, where, inb)
			st.assume(inb)
			set(in, x.strAt(m, k))
			return true
		}
		v, ok := x.mapLookup(m, k, in.X.Type())
		if in.CommaOk {
			set(in, raw("tuple", "tuple", 0, "", v, ok))
		} else {
			set(in, v)
		}
	case *ssa.Slice:
		set(in, x.slice(in, st, fr, where))
	case *ssa.MakeSlice:
		n := get(in.Len)
		if filledInPlace(in) && x.spec == 0 {
			x.emit(st, "safety", "slice size", nil, where, mkLe(mkInt(0), n))
			st.assume(mkLe(mkInt(0), n))
			id := x.newObj(st, in.Type(), &Cell{typ: in.Type(), term: mkEmpty(sortOf(in.Type()))}, false)
			st.heap[id].filling = true
			set(in, raw("arr", sortOf(in.Type()), int64(id), "", n))
		} else if n.Op == "int" && n.I == 0 {
			set(in, mkEmpty(sortOf(in.Type())))
		} else if n.Op == "int" && n.I > 0 && n.I < 64 {
			z := zeroTerm(in.Type().Underlying().(*types.Slice).Elem())
			s := mkEmpty(sortOf(in.Type()))
			for i := int64(0); i < n.I; i++ {
				s = mkConcat(s.Sort, s, mkUnit(z))
			}
			set(in, s)
		} else {
			r := fresh("made", sortOf(in.Type()))
			x.emit(st, "safety", "slice size", nil, where, mkLe(mkInt(0), n))
			st.assume(mkEq(mkSeqLen(r), n))
			set(in, r)
		}
	case *ssa.MakeMap, *ssa.MakeChan:
		v := instr.(ssa.Value)
		set(v, fresh("map", sortOf(v.Type())))
	case *ssa.MapUpdate:
		x.emitFail(st, "unsupported", "map update", where, "map updates are outside the modelled subset")
	case *ssa.MakeClosure:
		var args []*Term
		for _, b := range in.Bindings {
			args = append(args, get(b))
		}
		set(in, raw("fn:"+in.Fn.(*ssa.Function).String(), "O_func", 0, "", args...))
		x.closureFn(in.Fn.(*ssa.Function))
	case *ssa.Defer:
		d := deferredCall{call: &in.Call}
		for _, a := range in.Call.Args {
			d.args = append(d.args, get(a))
		}
		fr.defers = append(fr.defers, d)
	case *ssa.RunDefers:
		for i := len(fr.defers) - 1; i >= 0; i-- {
			d := fr.defers[i]
			if f := d.call.StaticCallee(); f != nil {
				if _, ok := x.intrinsic(f, d.args, d.call, st, fr, where); ok {
					continue
				}
			}
			x.emitFail(st, "unsupported", "deferred call", where, "unmodelled deferred call "+d.call.String())
		}
		fr.defers = nil
	case *ssa.Range:
		set(in, raw("range", "tuple", 0, "", get(in.X)))
	default:
		x.fail("%s: unsupported instruction %T %v", where, instr, instr)
	}
	return true
}

func (x *Exec) strAt(s, i *Term) *Term {
	if s.Op == "str" && i.Op == "int" && i.I >= 0 && i.I < int64(len(s.S)) {
		return mkInt(int64(s.S[i.I]))
	}
	if i == mkSub(mkStrLen(s), mkInt(1)) {
		return mkLastByte(s)
	}
	return raw("str.to_code", sInt, 0, "", raw("str.at", sStr, 0, "", s, i))
}

func (x *Exec) fieldAddr(p *Term, field int, t types.Type) *Term {
	switch p.Op {
	case "loc":
		return raw("loc", sortOf(t), p.I, fmt.Sprintf("%s.%d", p.S, field))
	case "pathptr":
		return raw("pathptr", sortOf(t), 0, fmt.Sprintf("%s.%d", p.S, field), p.Args...)
	case "elemptr":
		return raw("elempath", sortOf(t), 0, fmt.Sprintf(".%d", field), p.Args...)
	case "elempath":
		return raw("elempath", sortOf(t), 0, fmt.Sprintf("%s.%d", p.S, field), p.Args...)
	case "ite":
		return raw("ite", sortOf(t), 0, "", p.Args[0], x.fieldAddr(p.Args[1], field, t), x.fieldAddr(p.Args[2], field, t))
	}
	return raw("pathptr", sortOf(t), 0, fmt.Sprintf(".%d", field), p)
}

func (x *Exec) nilCheck(st *State, p *Term, where string) {
	switch p.Op {
	case "loc", "elemptr", "pathptr", "elempath", "arrelem":
		return
	}
	if strings.HasPrefix(p.Op, "p:") {
		return
	}
	if !strings.HasPrefix(p.Sort, "P_") {
		return
	}
	ok := mkNot(mkIs("nilp", p))
	x.emit(st, "safety", "nil dereference", nil, where, ok)
	st.assume(ok)
}

// loadFacts adds what is known about a value because of where it was read from.
func (x *Exec) loadFacts(st *State, p, r *Term, t types.Type) {
	if p.Op == "elemptr" && r.Sort == sV {
		n := typeName(types.Unalias(t))
		if x.w.nonnilElem[n] {
			st.assume(mkNot(mkIs("nilV", r)))
			x.w.assumption("slices of " + n + " have no nil elements")
		}
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 && !isLit(r.Op) {
		x.typeFacts(st, r, t)
	}
}

func (x *Exec) binop(st *State, op token.Token, a, b *Term, t types.Type, where string) *Term {
	switch op {
	case token.EQL, token.NEQ:
		var r *Term
		if a.Sort != b.Sort && (a.Sort == sV || b.Sort == sV) {
			x.fail("%s: comparison of %s and %s", where, a.Sort, b.Sort)
		}
		if strings.HasPrefix(a.Sort, "P_") && !(a.Op == "nilp" || b.Op == "nilp") {
			if a.Op == "loc" && b.Op == "loc" {
				r = mkBool(a == b)
			} else if x.spec == 0 {
				x.w.assumption("pointer comparison decided arbitrarily")
				r = fresh("ptreq", sBool)
			} else {
				r = mkEq(x.resolve(st, a), x.resolve(st, b))
			}
		} else if a.Sort == sF64 {
			r = x.f64cmp("==", a, b)
		} else {
			r = mkEq(x.resolveB(st, a), x.resolveB(st, b))
		}
		if op == token.NEQ {
			r = mkNot(r)
		}
		return r
	}
	if a.Sort == sF64 {
		switch op {
		case token.LSS:
			return x.f64cmp("<", a, b)
		case token.LEQ:
			return x.f64cmp("<=", a, b)
		case token.GTR:
			return x.f64cmp("<", b, a)
		case token.GEQ:
			return x.f64cmp("<=", b, a)
		}
		return mkUF("f64op_"+op.String(), sF64, a, b)
	}
	if a.Sort == sStr {
		switch op {
		case token.ADD:
			return mkStrConcat(a, b)
		case token.LSS:
			return raw("str.<", sBool, 0, "", a, b)
		case token.LEQ:
			return raw("str.<=", sBool, 0, "", a, b)
		case token.GTR:
			return raw("str.<", sBool, 0, "", b, a)
		case token.GEQ:
			return raw("str.<=", sBool, 0, "", b, a)
		}
	}
	switch op {
	case token.ADD:
		return x.narrow(mkAdd(a, b), t)
	case token.SUB:
		return x.narrow(mkSub(a, b), t)
	case token.MUL:
		return x.narrow(mkMul(a, b), t)
	case token.LSS:
		return mkLt(a, b)
	case token.LEQ:
		return mkLe(a, b)
	case token.GTR:
		return mkLt(b, a)
	case token.GEQ:
		return mkLe(b, a)
	case token.AND, token.OR:
		if a.Sort == sBool {
			if op == token.AND {
				return mkAnd(a, b)
			}
			return mkOr(a, b)
		}
	}
	if a.Sort == sInt {
		if op == token.QUO || op == token.REM {
			nz := mkNot(mkEq(b, mkInt(0)))
			x.emit(st, "safety", "division by zero", nil, where, nz)
			st.assume(nz)
		}
		if a.Op == "int" && b.Op == "int" {
			switch op {
			case token.QUO:
				return mkInt(a.I / b.I)
			case token.REM:
				return mkInt(a.I % b.I)
			case token.AND:
				return mkInt(a.I & b.I)
			case token.OR:
				return mkInt(a.I | b.I)
			case token.XOR:
				return mkInt(a.I ^ b.I)
			case token.SHL:
				return mkInt(a.I << uint(b.I))
			case token.SHR:
				return mkInt(a.I >> uint(b.I))
			}
		}
		if a.Op == "int" && b.Op == "int" && a.I >= 0 && b.I >= 0 {
			switch op {
			case token.AND:
				return mkInt(a.I & b.I)
			case token.OR:
				return mkInt(a.I | b.I)
			case token.XOR:
				return mkInt(a.I ^ b.I)
			case token.AND_NOT:
				return mkInt(a.I &^ b.I)
			}
		}
		return mkUF("intop_"+op.String(), sInt, a, b)
	}
	x.fail("%s: unsupported operation %s on %s", where, op, a.Sort)
	return nil
}

func (x *Exec) f64cmp(op string, a, b *Term) *Term {
	return mkUF("f64"+op, sBool, a, b)
}

func (x *Exec) changeType(v *Term, from, to types.Type) *Term {
	fs, ts := sortOf(from), sortOf(to)
	if fs == ts {
		return v
	}
	// conversion between struct types with identical fields
	if strings.HasPrefix(fs, "S_") && strings.HasPrefix(ts, "S_") {
		fi, ti := structInfo(fs), structInfo(ts)
		if len(fi.Fields) == len(ti.Fields) && !fi.Opaque && !ti.Opaque {
			var args []*Term
			for i, f := range fi.Fields {
				args = append(args, mkSel(fs, i, f.Sort, v))
			}
			return raw("mk:"+ts, ts, 0, "", args...)
		}
	}
	if v.Op == "nilp" {
		return mkNilPtr(ts)
	}
	if strings.HasPrefix(fs, "O_") && strings.HasPrefix(ts, "O_") {
		return raw(v.Op, ts, v.I, v.S, v.Args...)
	}
	x.fail("unsupported type change %v -> %v", from, to)
	return nil
}

func (x *Exec) convert(v *Term, from, to types.Type, where string) *Term {
	fs, ts := sortOf(from), sortOf(to)
	switch {
	case fs == ts && fs != sInt:
		return v
	case fs == sInt && ts == sInt:
		fb, tb := from.Underlying().(*types.Basic), to.Underlying().(*types.Basic)
		if tb.Kind() == types.Uint8 && fb.Kind() != types.Uint8 {
			if v.Op == "int" {
				return mkInt(v.I & 255)
			}
			return raw("mod", sInt, 0, "", v, mkInt(256))
		}
		return wrapInt(v, fb, tb)
	case fs == sInt && ts == sF64:
		return mkUF("f64ofint", sF64, v)
	case fs == sF64 && ts == sInt:
		return mkUF("intoff64", sInt, v)
	case fs == sInt && ts == sStr:
		return strOfRune(v)
	case fs == sStr && isSeq(ts) && isByteSlice(to):
		return bytesOf(v)
	case isSeq(fs) && ts == sStr && isByteSlice(from):
		return strOfBytes(v)
	case fs == sStr && isSeq(ts):
		return mkUF("bytesof_"+sanitize(typeName(to.Underlying().(*types.Slice).Elem())), ts, v)
	case isSeq(fs) && ts == sStr:
		if b, ok := from.Underlying().(*types.Slice).Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
			return strOfRunes(v)
		}
		return mkUF("strof_"+sanitize(typeName(from.Underlying().(*types.Slice).Elem())), ts, v)
	}
	x.fail("%s: unsupported conversion %v -> %v", where, from, to)
	return nil
}

// intBits is the width of an integer type and whether it has a sign.
func intBits(b *types.Basic) (int, bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 64, true
}

// wrapInt is v, of type from, converted to the integer type to: what does not fit is cut to the width of to.
func wrapInt(v *Term, from, to *types.Basic) *Term {
	fb, fs := intBits(from)
	tb, ts := intBits(to)
	if fs == ts && fb <= tb || !fs && ts && fb < tb {
		return v
	}
	if tb == 64 { // the other sign, or a sign extended
		if fs { // to unsigned
			return mkIte(mkLe(mkInt(0), v), v, mkUF("u64ofi64", sInt, v))
		}
		return mkIte(mkLe(v, mkInt(math.MaxInt64)), v, mkUF("i64ofu64", sInt, v))
	}
	m := int64(1) << uint(tb)
	lo, hi := int64(0), m-1
	if ts {
		lo, hi = -m/2, m/2-1
	}
	if v.Op == "int" {
		k := v.I & (m - 1)
		if k > hi {
			k -= m
		}
		return mkInt(k)
	}
	cut := raw("mod", sInt, 0, "", v, mkInt(m))
	if ts {
		cut = mkSub(raw("mod", sInt, 0, "", mkAdd(v, mkInt(m/2)), mkInt(m)), mkInt(m/2))
	}
	return mkIte(mkAnd(mkLe(mkInt(lo), v), mkLe(v, mkInt(hi))), v, cut)
}

// narrow cuts the result of an operation on integers narrower than 64 bits to their width.
func (x *Exec) narrow(v *Term, t types.Type) *Term {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || x.spec > 0 || v.Sort != sInt {
		return v
	}
	if n, _ := intBits(b); n == 64 {
		if v.Op != "int" {
			x.w.assumption("additions, subtractions and multiplications of 64-bit integers do not overflow")
		}
		return v
	}
	return wrapInt(v, types.Typ[types.Int], b)
}

func (x *Exec) slice(in *ssa.Slice, st *State, fr *Frame, where string) *Term {
	v := x.val(fr, st, in.X)
	if v.Op == "loc" { // slicing an array
		v = x.load(st, v, nil)
	}
	if v.Sort == sStr {
		lo, hi := mkInt(0), mkStrLen(v)
		if in.Low != nil {
			lo = x.val(fr, st, in.Low)
		}
		if in.High != nil {
			hi = x.val(fr, st, in.High)
		}
		ok := mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, mkStrLen(v)))
		x.emit(st, "safety", "slice bounds", nil, where, ok)
		st.assume(ok)
		if lo.Op == "int" && lo.I == 0 && hi == mkStrLen(v) {
			return v
		}
		return raw("str.substr", sStr, 0, "", v, lo, mkSub(hi, lo))
	}
	if !isSeq(v.Sort) {
		x.fail("%s: slicing %s", where, v.Sort)
	}
	lo, hi := mkInt(0), mkSeqLen(v)
	if in.Low != nil {
		lo = x.val(fr, st, in.Low)
	}
	if in.High != nil {
		hi = x.val(fr, st, in.High)
		x.w.assumption("slices are not re-sliced beyond their length")
	}
	ok := mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, mkSeqLen(v)))
	x.emit(st, "safety", "slice bounds", nil, where, ok)
	st.assume(ok)
	return mkExtract(v, lo, hi)
}

var _ = sort.Strings

func isByteSlice(t types.Type) bool {
	b, ok := t.Underlying().(*types.Slice).Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// ownership refuses addresses inside of a list that outlive their use: lists are modelled as values, which is right only
// if their elements are reached through them alone.
func (x *Exec) ownership(st *State, v ssa.Value, where string) {
	if x.spec > 0 || x.silent > 0 {
		return
	}
	for _, ref := range *v.Referrers() {
		ok := false
		switch r := ref.(type) {
		case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
			ok = true
		case *ssa.Store:
			ok = r.Addr == v && r.Val != v
		case *ssa.BinOp:
			ok = true
		case *ssa.Call:
			c := r.Common()
			ok = !c.IsInvoke() && c.Signature().Recv() != nil && len(c.Args) > 0 && c.Args[0] == v
			for _, a := range c.Args[1:] {
				ok = ok && a != v
			}
		}
		if !ok {
			x.emitFail(st, "ownership", "the address of a list element does not outlive its use", where, "the address of an element of a list is kept: "+ref.String())
			return
		}
	}
}
