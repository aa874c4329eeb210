package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Loop is a natural loop of a function.
type Loop struct {
	fn     *ssa.Function
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	ord    int
}

type loopRun struct {
	inductive bool
	silent    bool
}

func (w *World) loopsOf(fn *ssa.Function) []*Loop {
	w.mu.Lock()
	defer w.mu.Unlock()
	if l, ok := w.loops[fn]; ok {
		return l
	}
	byHeader := map[*ssa.BasicBlock]*Loop{}
	var out []*Loop
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge b -> s
				l := byHeader[s]
				if l == nil {
					l = &Loop{fn: fn, header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					byHeader[s] = l
					out = append(out, l)
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[0]
					work = work[1:]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].header.Index < out[j].header.Index })
	for i, l := range out {
		l.ord = i + 1
	}
	w.loops[fn] = out
	return out
}

func (w *World) loopAt(b *ssa.BasicBlock) *Loop {
	for _, l := range w.loopsOf(b.Parent()) {
		if l.header == b {
			return l
		}
	}
	return nil
}

// candidate is one possible loop invariant; eval gives its value in a state at the loop header.
type candidate struct {
	name  string
	eval  func(st *State, phis map[*ssa.Phi]*Term) *Term
	quant func(st *State, phis map[*ssa.Phi]*Term) *Quant // for quantified invariants
	alive bool
}

type havocState struct {
	st   *State
	fr   *Frame
	phis map[*ssa.Phi]*Term
}

func (x *Exec) processLoop(l *Loop, init map[*ssa.Phi]*Term, st *State, fr *Frame) []Outcome {
	where := x.w.shortPos(firstPos(l))
	lname := fmt.Sprintf("loop %d of %s", l.ord, l.fn.Name())
	entryPre := map[int]bool{}
	for id, o := range st.heap {
		entryPre[id] = o.pre
	}
	entryWrites := st.writes

	mod := map[string]bool{}
	mkHeader := func() *havocState {
		s := st.clone()
		s.writes = map[string]bool{}
		for id, o := range s.heap {
			n := *o
			n.pre = true
			s.heap[id] = &n
		}
		f := fr.clone()
		// havoc modified cells
		var keys []string
		for k := range mod {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			var id int
			i := strings.IndexByte(k, '/')
			fmt.Sscanf(k[:i], "%d", &id)
			path := splitPath(k[i+1:])
			o := s.heap[id]
			if o == nil {
				continue
			}
			old := cellAt(o.cell, path)
			n := *o
			n.cell = cellSet(o.cell, path, x.symCell(fmt.Sprintf("l%d_cell", l.ord), old.typ, s))
			s.heap[id] = &n
		}
		for _, k := range keys {
			var id int
			fmt.Sscanf(k[:strings.IndexByte(k, '/')], "%d", &id)
			if o := s.heap[id]; o != nil && x.w.isGhostReader(o.typ) {
				x.readerFacts(s, id) // kept by every operation of the model
			}
		}
		phis := map[*ssa.Phi]*Term{}
		for _, p := range phis0(l.header) {
			v := init[p]
			if v.Op == "loc" {
				phis[p] = v
				continue
			}
			c := x.symCell(fmt.Sprintf("l%d_%s", l.ord, strings.ReplaceAll(p.Comment, ".", "_")), p.Type(), s)
			phis[p] = cellTerm(c)
		}
		for p, v := range phis {
			f.regs[p] = v
		}
		f.active[l] = &loopRun{inductive: true}
		return &havocState{s, f, phis}
	}
	runBody := func(h *havocState) []Outcome {
		return x.run(l.header, len(phis0(l.header)), h.st, h.fr)
	}
	// 1. find the cells the loop modifies
	x.silent++
	for round := 0; ; round++ {
		if round > 12 {
			x.fail("%s: modified locations do not stabilise", lname)
		}
		h := mkHeader()
		n := len(mod)
		for _, o := range runBody(h) {
			for k := range o.st.writes {
				i := strings.IndexByte(k, '/')
				var id int
				fmt.Sscanf(k[:i], "%d", &id)
				if _, ok := st.heap[id]; ok && !covered(mod, k) {
					mod[k] = true
				}
			}
			if o.kind == "back" {
				for p, v := range o.phis {
					if iv := init[p]; iv.Op == "loc" && v != iv {
						x.fail("%s: pointer variable %s changes in a loop", lname, p.Comment)
					}
				}
			}
		}
		if len(mod) == n {
			break
		}
	}
	// 2. candidates
	cands := x.candidates(l, init, st, fr, mod)
	// base case
	x.holdAll([]Outcome{{st: st, phis: init}}, cands)
	alive := func() (out []*candidate) {
		for _, c := range cands {
			if c.alive {
				out = append(out, c)
			}
		}
		return
	}
	// 3. weed out candidates that are not inductive
	for round := 0; ; round++ {
		cs := alive()
		if len(cs) == 0 {
			break
		}
		h := mkHeader()
		x.assumeCands(cs, h)
		x.useLemmas(l, h, init, mod)
		outs := runBody(h)
		var backs []Outcome
		for _, o := range outs {
			if o.kind == "back" {
				backs = append(backs, o)
			}
		}
		x.holdAll(backs, cs)
		dropped := false
		for _, c := range cs {
			if !c.alive {
				dropped = true
			}
		}
		if !dropped {
			break
		}
	}
	x.silent--
	cs := alive()
	if x.silent == 0 {
		for _, c := range cs {
			x.obls = append(x.obls, &Obl{Fn: x.fnName, Name: lname + " keeps " + c.name, Kind: "invariant", Where: where, Static: "ok", Props: x.props})
		}
	}
	// 4. termination
	if x.silent == 0 {
		x.silent++
		h := mkHeader()
		x.assumeCands(cs, h)
		x.useLemmas(l, h, init, mod)
		h0 := &havocState{h.st.clone(), h.fr, h.phis}
		outs := runBody(h)
		x.silent--
		ok, how := x.loopTerminates(l, h0, outs, st, fr)
		ob := &Obl{Fn: x.fnName, Name: lname + " terminates", Kind: "termination", Where: where, Props: x.props}
		if ok {
			ob.Static = "ok"
			ob.Output = "measure " + how
		} else {
			ob.Static = "no measure decreases on every iteration of " + lname
		}
		if !x.w.noTermination[x.fnName] {
			x.obls = append(x.obls, ob)
		}
	}
	// 5. run for real
	h := mkHeader()
	x.assumeCands(cs, h)
	x.useLemmas(l, h, init, mod)
	h.fr.active[l] = &loopRun{inductive: false}
	h.st.writes = map[string]bool{}
	for k := range entryWrites {
		h.st.writes[k] = true
	}
	for k := range mod {
		id := 0
		fmt.Sscanf(k, "%d", &id)
		if entryPre[id] {
			h.st.writes[k] = true
		}
	}
	for id, o := range h.st.heap {
		if p, ok := entryPre[id]; ok {
			n := *o
			n.pre = p
			h.st.heap[id] = &n
		}
	}
	var out []Outcome
	for _, o := range runBody(h) {
		if o.kind == "back" && o.loop == l {
			continue
		}
		out = append(out, o)
	}
	return out
}

func covered(mod map[string]bool, k string) bool {
	for m := range mod {
		if k == m || strings.HasPrefix(k, m+".") || strings.HasSuffix(m, "/") && strings.HasPrefix(k, m) {
			return true
		}
	}
	return false
}

func firstPos(l *Loop) token.Pos {
	for _, b := range append([]*ssa.BasicBlock{l.header}, l.fn.Blocks...) {
		if l.blocks[b] {
			for _, in := range b.Instrs {
				if in.Pos().IsValid() {
					return in.Pos()
				}
			}
		}
	}
	return l.fn.Pos()
}

// falls says that the measure m1 is less than m0: as a number, or, if they are lists, in lexicographic order.
func falls(m1, m0 *Term) *Term {
	if m1.Sort == sInt {
		return mkAnd(mkLt(m1, m0), mkLe(mkInt(-1), m1))
	}
	a, _ := seqParts(m1)
	b, _ := seqParts(m0)
	if len(a) != len(b) {
		return tFalse
	}
	less := tFalse
	for i := len(a) - 1; i >= 0; i-- {
		less = mkOr(mkAnd(mkLt(a[i], b[i]), mkLe(mkInt(-1), a[i])), mkAnd(mkEq(a[i], b[i]), less))
	}
	return less
}

// useLemmas applies the lemmas that the contract uses at loops.
func (x *Exec) useLemmas(l *Loop, h *havocState, init map[*ssa.Phi]*Term, mod map[string]bool) {
	c := x.loopContract(l.fn)
	if c == nil {
		return
	}
	for _, cl := range c.clauses("uses") {
		if len(cl.Pats) == 0 {
			continue
		}
		for _, asg := range x.matchPats(cl.Pats, l, init, mod, h.st, h.fr) {
			args := append(append([]*Term{}, x.params...), asg.get(x, h.st, h.phis)...)
			x.silent++
			outs := x.callFn(cl.fn, args, h.st, 0, false)
			x.silent--
			if len(outs) == 1 {
				h.st = outs[0].st
			}
		}
	}
}

func (x *Exec) assumeCands(cs []*candidate, h *havocState) {
	for _, c := range cs {
		if c.quant != nil {
			if q := c.quant(h.st, h.phis); q != nil {
				h.st.quants = append(h.st.quants[:len(h.st.quants):len(h.st.quants)], q)
			}
			continue
		}
		h.st.assume(c.eval(h.st, h.phis))
	}
}

// holdAll marks the candidates that are not entailed in all of the states.
func (x *Exec) holdAll(outs []Outcome, cs []*candidate) {
	var obls []*Obl
	var who []*candidate
	for _, o := range outs {
		for _, c := range cs {
			if !c.alive {
				continue
			}
			if ob := x.candObl(o.st, c, o.phis); ob == nil {
				c.alive = false
			} else if ob.Goal != tTrue {
				obls, who = append(obls, ob), append(who, c)
			}
		}
	}
	dead := func(i int) bool { return !who[i].alive }
	x.w.dischargeEach(obls, dead, func(i int, ok bool) {
		if os.Getenv("GOVC_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "houdini", obls[i].Millis, obls[i].Result, obls[i].Fuel, who[i].name)
		}
		if !ok {
			who[i].alive = false
		}
	})
}

// dischargeEach proves obligations in parallel, leaving out those skipped by then; done is called one at a time.
func (w *World) dischargeEach(obls []*Obl, skip func(i int) bool, done func(i int, ok bool)) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	sem := make(chan struct{}, 8)
	for i := range obls {
		sem <- struct{}{}
		mu.Lock()
		s := skip(i)
		mu.Unlock()
		if s {
			<-sem
			continue
		}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() { <-sem }()
			defer func() {
				recover()
				mu.Lock()
				done(i, obls[i].Result == "unsat")
				mu.Unlock()
			}()
			if w.patient {
				w.discharge(obls[i], 4*time.Second)
			} else {
				w.discharge(obls[i], quickTimeout)
			}
		}(i)
	}
	wg.Wait()
}

func (w *World) allHold(obls []*Obl) bool {
	ok := true
	w.dischargeEach(obls, func(int) bool { return !ok }, func(i int, r bool) { ok = ok && r })
	return ok
}

func (x *Exec) candObl(st *State, c *candidate, phis map[*ssa.Phi]*Term) *Obl {
	s := st.clone()
	var goal *Term
	if c.quant != nil {
		qt := c.quant(s, phis)
		if qt == nil {
			return nil
		}
		m := map[*Term]*Term{}
		for _, v := range qt.vars {
			m[v] = fresh("sk", v.Sort)
		}
		goal = subst(qt.body, m)
	} else {
		goal = c.eval(s, phis)
	}
	if goal == nil {
		return nil
	}
	goal = s.facts.simp(goal)
	if goal == tFalse {
		return nil
	}
	return &Obl{PC: s.pc, Goal: goal, Quants: s.quants, Kind: "candidate"}
}

// quickTimeout is the time one attempt at a possible invariant gets first; a function that cannot be verified with the
// invariants found is tried again patiently.
const quickTimeout = time.Second

// candidates builds the invariants worth trying: bounds of counters and the contract's templates.
func (x *Exec) candidates(l *Loop, init map[*ssa.Phi]*Term, st *State, fr *Frame, mod map[string]bool) []*candidate {
	var out []*candidate
	add := func(name string, f func(st *State, phis map[*ssa.Phi]*Term) *Term) {
		out = append(out, &candidate{name: name, eval: f, alive: true})
	}
	phis := phis0(l.header)
	for _, p := range phis {
		p := p
		if sortOf(p.Type()) == sInt {
			v0 := init[p]
			add(p.Comment+" >= start", func(st *State, ph map[*ssa.Phi]*Term) *Term { return mkLe(v0, ph[p]) })
			add(p.Comment+" <= start", func(st *State, ph map[*ssa.Phi]*Term) *Term { return mkLe(ph[p], v0) })
			for _, b := range sortedBlocks(l) {
				for _, in := range b.Instrs {
					bo, ok := in.(*ssa.BinOp)
					if !ok || (bo.Op != token.LSS && bo.Op != token.LEQ && bo.Op != token.GTR && bo.Op != token.GEQ && bo.Op != token.NEQ && bo.Op != token.EQL) {
						continue
					}
					for _, side := range []ssa.Value{bo.X, bo.Y} {
						if sortOf(side.Type()) != sInt {
							continue
						}
						if t, ok := x.invariantValue(l, fr, st, side); ok {
							add(p.Comment+" <= bound", func(st *State, ph map[*ssa.Phi]*Term) *Term { return mkLe(ph[p], t) })
							add(p.Comment+" < bound", func(st *State, ph map[*ssa.Phi]*Term) *Term { return mkLt(ph[p], t) })
							add(p.Comment+" >= bound", func(st *State, ph map[*ssa.Phi]*Term) *Term { return mkLe(t, ph[p]) })
							add(p.Comment+" > bound", func(st *State, ph map[*ssa.Phi]*Term) *Term { return mkLt(t, ph[p]) })
						}
					}
				}
			}
		}
	}
	// lists that are filled: as many elements as a counter says
	var modKeys []string
	for k := range mod {
		modKeys = append(modKeys, k)
	}
	sort.Strings(modKeys)
	for _, k := range modKeys {
		var id int
		fmt.Sscanf(k[:strings.IndexByte(k, '/')], "%d", &id)
		if o := st.heap[id]; o != nil && o.filling {
			for _, p := range phis {
				p := p
				if sortOf(p.Type()) != sInt {
					continue
				}
				for d := int64(0); d <= 1; d++ {
					d := d
					add(fmt.Sprintf("elements assigned = %s+%d", p.Comment, d), func(st *State, ph map[*ssa.Phi]*Term) *Term {
						return mkEq(mkSeqLen(cellTerm(st.heap[id].cell)), mkAdd(ph[p], mkInt(d)))
					})
				}
			}
		}
	}
	c := x.loopContract(l.fn)
	if c == nil {
		return out
	}
	for _, cl := range c.clauses("inv") {
		cl := cl
		for _, asg := range x.matchPats(cl.Pats, l, init, mod, st, fr) {
			asg := asg
			name := cl.Expr + asg.name
			if len(cl.Foralls) > 0 {
				out = append(out, &candidate{name: name, alive: true, quant: func(st *State, ph map[*ssa.Phi]*Term) *Quant {
					return x.tryQuant(func() *Quant {
						args := append([]*Term{}, x.params...)
						args = append(args, x.oldArgs...)
						args = append(args, asg.get(x, st, ph)...)
						var vars []*Term
						for i := range cl.Foralls {
							vars = append(vars, fresh("qv", sortOf(cl.fn.Params[len(args)+i].Type())))
						}
						return &Quant{vars: vars, body: x.resolve(st, x.evalSpec(cl.fn, append(args, vars...), st))}
					})
				}})
				continue
			}
			add(name, func(st *State, ph map[*ssa.Phi]*Term) *Term {
				return x.tryEval(func() *Term {
					args := append([]*Term{}, x.params...)
					args = append(args, x.oldArgs...)
					args = append(args, asg.get(x, st, ph)...)
					return x.evalSpec(cl.fn, args, st)
				})
			})
		}
	}
	return out
}

func (x *Exec) tryEval(f func() *Term) (r *Term) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(abortErr); ok {
				r = tFalse
				return
			}
			panic(e)
		}
	}()
	return f()
}

func (x *Exec) tryQuant(f func() *Quant) (r *Quant) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(abortErr); ok {
				r = nil
				return
			}
			panic(e)
		}
	}()
	return f()
}

// loopContract: the invariants given for the function being verified apply to its own loops and to the loops of
// helpers inlined into it.
func (x *Exec) loopContract(fn *ssa.Function) *Contract {
	if c := x.w.contracts[fn]; c != nil && c == x.contract {
		return c
	}
	return x.contract
}

func sortedBlocks(l *Loop) []*ssa.BasicBlock {
	var bs []*ssa.BasicBlock
	for b := range l.blocks {
		bs = append(bs, b)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].Index < bs[j].Index })
	return bs
}

// invariantValue is the value of v if it is computed outside of the loop (or is the length of such a value).
func (x *Exec) invariantValue(l *Loop, fr *Frame, st *State, v ssa.Value) (*Term, bool) {
	switch u := v.(type) {
	case *ssa.Const:
		return constTerm(u), true
	case ssa.Instruction:
		if !l.blocks[u.Block()] {
			t, ok := fr.regs[v]
			return t, ok
		}
		if c, ok := v.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				a := c.Call.Args[0]
				if in, ok := a.(ssa.Instruction); !ok || !l.blocks[in.Block()] {
					if t, ok := fr.regs[a]; ok && t.Op == "arr" {
						return t.Args[0], true
					} else if ok {
						if isSeq(t.Sort) {
							return mkSeqLen(t), true
						}
						if t.Sort == sStr {
							return mkStrLen(t), true
						}
					}
				}
			}
		}
	default:
		t, ok := fr.regs[v]
		return t, ok
	}
	return nil, false
}

type patAssign struct {
	name string
	get  func(x *Exec, st *State, ph map[*ssa.Phi]*Term) []*Term
}

// matchPats gives every way to fill the pattern variables with loop variables, modified cells of the same type or
// (for slices and strings) values fixed before the loop.
func (x *Exec) matchPats(pats []Param, l *Loop, init map[*ssa.Phi]*Term, mod map[string]bool, st *State, fr *Frame) []patAssign {
	type src struct {
		name string
		typ  types.Type
		get  func(st *State, ph map[*ssa.Phi]*Term) *Term
	}
	var srcs []src
	for _, p := range phis0(l.header) {
		p := p
		srcs = append(srcs, src{p.Comment, p.Type(), func(st *State, ph map[*ssa.Phi]*Term) *Term { return ph[p] }})
	}
	var keys []string
	for k := range mod {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		i := strings.IndexByte(k, '/')
		var id int
		fmt.Sscanf(k[:i], "%d", &id)
		path := splitPath(k[i+1:])
		o := st.heap[id]
		if o == nil {
			continue
		}
		t := cellAt(o.cell, path).typ
		srcs = append(srcs, src{"cell " + k, t, func(st *State, ph map[*ssa.Phi]*Term) *Term {
			return cellTerm(cellAt(st.heap[id].cell, path))
		}})
	}
	// values that stay the same, for patterns of type "=T"
	fixed := map[string][]src{}
	for _, p := range pats {
		if !strings.HasPrefix(p.Type, "=") || fixed[p.Type] != nil {
			continue
		}
		fixed[p.Type] = []src{}
		var look func(id int, path string, c *Cell)
		look = func(id int, path string, c *Cell) {
			if covered(mod, fmt.Sprintf("%d/%s", id, path)) {
				return
			}
			if c.term != nil || len(c.sub) == 0 {
				if typeMatches(p.Type[1:], c.typ) {
					t := x.resolve(st, cellTerm(c))
					fixed[p.Type] = append(fixed[p.Type], src{fmt.Sprintf("fixed %d/%s", id, path), c.typ, func(*State, map[*ssa.Phi]*Term) *Term { return t }})
				}
				return
			}
			for i, s := range c.sub {
				look(id, fmt.Sprintf("%s.%d", path, i), s)
			}
		}
		var ids []int
		for id := range st.heap {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		for _, id := range ids {
			if o := st.heap[id]; o.cell != nil {
				look(id, "", o.cell)
			}
		}
	}
	// counters of enclosing loops, also of those around the calls of inlined functions
	for want := range fixed {
		counters := func(f *Frame, o *Loop) {
			for _, p := range phis0(o.header) {
				if !typeMatches(want[1:], p.Type()) {
					continue
				}
				vals := []ssa.Value{p}
				for _, u := range *p.Referrers() {
					if b, ok := u.(*ssa.BinOp); ok && b.Op == token.ADD && o.blocks[b.Block()] && !l.blocks[b.Block()] {
						vals = append(vals, b)
					}
				}
				for k, v := range vals {
					if t, ok := f.regs[v]; ok && t.Op != "loc" {
						fixed[want] = append(fixed[want], src{fmt.Sprintf("outer %s+%d", p.Comment, k), v.Type(), func(*State, map[*ssa.Phi]*Term) *Term { return t }})
					}
				}
			}
		}
		for _, o := range x.w.loopsOf(l.fn) {
			if o != l && o.blocks[l.header] {
				counters(fr, o)
			}
		}
		for f := fr.caller; f != nil; f = f.caller {
			for _, o := range x.w.loopsOf(f.fn) {
				if f.active[o] != nil {
					counters(f, o)
				}
			}
		}
		// lists and strings computed before
		have := map[*Term]bool{}
		for _, s := range fixed[want] {
			have[s.get(nil, nil)] = true
		}
		var vs []ssa.Value
		for v, t := range fr.regs {
			if in, ok := v.(ssa.Instruction); ok && l.blocks[in.Block()] {
				continue
			}
			if t.Op != "arr" && (isSeq(t.Sort) || t.Sort == sStr) && typeMatches(want[1:], v.Type()) {
				vs = append(vs, v)
			}
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
		for _, v := range vs {
			if t := fr.regs[v]; !have[t] {
				have[t] = true
				fixed[want] = append(fixed[want], src{"value " + v.Name(), v.Type(), func(*State, map[*ssa.Phi]*Term) *Term { return t }})
			}
		}
	}
	var out []patAssign
	var rec func(i int, chosen []src)
	rec = func(i int, chosen []src) {
		if i == len(pats) {
			ch := append([]src{}, chosen...)
			name := ""
			for j, s := range ch {
				name += fmt.Sprintf(" %s=%s", pats[j].Name, s.name)
			}
			if name != "" {
				name = " with" + name
			}
			out = append(out, patAssign{name, func(x *Exec, st *State, ph map[*ssa.Phi]*Term) []*Term {
				var r []*Term
				for _, s := range ch {
					r = append(r, s.get(st, ph))
				}
				return r
			}})
			return
		}
		for _, s := range fixed[pats[i].Type] {
			rec(i+1, append(chosen, s))
		}
		for _, s := range srcs {
			used := false
			for _, u := range chosen {
				used = used || u.name == s.name
			}
			if !used && typeMatches(pats[i].Type, s.typ) {
				rec(i+1, append(chosen, s))
			}
		}
	}
	rec(0, nil)
	return out
}

func typeMatches(want string, t types.Type) bool {
	got := types.TypeString(t, func(p *types.Package) string {
		if p.Path() == "go/ast" {
			return "goast"
		}
		if inProgram(p) {
			return ""
		}
		return p.Name()
	})
	if want == got {
		return true
	}
	if (want == "rune" || want == "int32") && (got == "rune" || got == "int32") {
		return true
	}
	return false
}

// loopTerminates looks for a measure among the contract's and the counters' distances.
func (x *Exec) loopTerminates(l *Loop, h *havocState, outs []Outcome, st *State, fr *Frame) (bool, string) {
	type meas struct {
		name string
		eval func(st *State, ph map[*ssa.Phi]*Term) *Term
	}
	var ms []meas
	c := x.loopContract(l.fn)
	mod := map[string]bool{}
	for _, o := range outs {
		for k := range o.st.writes {
			mod[k] = true
		}
	}
	init := h.phis
	if c != nil {
		for _, cl := range c.clauses("measure") {
			cl := cl
			for _, asg := range x.matchPats(cl.Pats, l, init, mod, h.st, fr) {
				asg := asg
				ms = append(ms, meas{cl.Expr + asg.name, func(st *State, ph map[*ssa.Phi]*Term) *Term {
					return x.tryEval(func() *Term {
						args := append([]*Term{}, x.params...)
						args = append(args, x.oldArgs...)
						args = append(args, asg.get(x, st, ph)...)
						return x.evalSpec(cl.fn, args, st)
					})
				}})
			}
		}
	}
	for _, p := range phis0(l.header) {
		p := p
		if sortOf(p.Type()) != sInt {
			continue
		}
		ms = append(ms, meas{"falling " + p.Comment, func(st *State, ph map[*ssa.Phi]*Term) *Term { return ph[p] }})
		for _, b := range sortedBlocks(l) {
			for _, in := range b.Instrs {
				if bo, ok := in.(*ssa.BinOp); ok && (bo.Op == token.LSS || bo.Op == token.LEQ || bo.Op == token.GTR || bo.Op == token.GEQ || bo.Op == token.NEQ) {
					for _, side := range []ssa.Value{bo.X, bo.Y} {
						if sortOf(side.Type()) != sInt {
							continue
						}
						if t, ok := x.invariantValue(l, fr, st, side); ok {
							ms = append(ms, meas{"distance of " + p.Comment + " to its bound", func(st *State, ph map[*ssa.Phi]*Term) *Term { return mkSub(t, ph[p]) }})
						}
					}
				}
			}
		}
	}
	// structural size of the sequences and interface values carried round
	for _, p := range phis0(l.header) {
		p := p
		if s := sortOf(p.Type()); s == sV || isSeq(s) || strings.HasPrefix(s, "S_") {
			ms = append(ms, meas{"size of " + p.Comment, func(st *State, ph map[*ssa.Phi]*Term) *Term { return mkSize(ph[p]) }})
		}
	}
	// each of these, or as long as it stays the same a flag that changes
	for _, p := range phis0(l.header) {
		p := p
		if sortOf(p.Type()) != sBool {
			continue
		}
		for _, want := range []bool{true, false} {
			want := want
			flag := func(ph map[*ssa.Phi]*Term) *Term {
				if want {
					return mkIte(ph[p], mkInt(1), mkInt(0))
				}
				return mkIte(ph[p], mkInt(0), mkInt(1))
			}
			name := fmt.Sprintf("%s no longer %v", p.Comment, want)
			for _, m := range ms[:len(ms):len(ms)] {
				m := m
				if strings.Contains(m.name, "no longer") {
					continue
				}
				ms = append(ms, meas{m.name + " or " + name, func(st *State, ph map[*ssa.Phi]*Term) *Term {
					v := m.eval(st, ph)
					if v == nil || v.Sort != sInt {
						return nil
					}
					return mkAdd(mkAdd(v, v), flag(ph))
				}})
			}
			ms = append(ms, meas{name, func(st *State, ph map[*ssa.Phi]*Term) *Term { return flag(ph) }})
		}
	}
	backs := 0
	for _, o := range outs {
		if o.kind == "back" {
			backs++
		}
	}
	if backs == 0 {
		return true, "no iteration repeats"
	}
	for _, m := range ms {
		m0 := m.eval(h.st, h.phis)
		if m0 == nil {
			continue
		}
		m0 = x.resolve(h.st, m0)
		if _, ok := seqParts(m0); m0.Sort != sInt && !(m0.Sort == seqOf(sInt) && ok) {
			continue
		}
		ok := true
		var goals []*Obl
		for _, o := range outs {
			if o.kind != "back" {
				continue
			}
			m1 := m.eval(o.st, o.phis)
			if m1 == nil || m1.Sort != m0.Sort {
				ok = false
				break
			}
			m1 = x.resolve(o.st, m1)
			if _, isList := seqParts(m1); m1.Sort != sInt && !isList {
				ok = false
				break
			}
			goal := o.st.facts.simp(falls(m1, m0))
			if goal == tTrue {
				continue
			}
			if goal == tFalse {
				ok = false
				break
			}
			goals = append(goals, &Obl{PC: o.st.pc, Goal: goal, Quants: o.st.quants, Kind: "candidate"})
		}
		if ok {
			ok = x.w.allHold(goals)
		}
		if ok {
			return true, m.name
		}
	}
	return false, ""
}
