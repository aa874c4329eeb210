package main

// Package-level state: an obligation per function that it neither writes it nor leaves the result to chance. A conservative
// flow analysis over the SSA of all functions: what may refer to a package variable's memory, through parameters, results,
// fields and elements, is never written through; maps are not ranged over unless the order cannot matter; no randomness,
// clock, environment or concurrency.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type stateAnalysis struct {
	w      *World
	fns    []*ssa.Function
	val    map[ssa.Value]string // value -> the package variable whose memory it may refer to
	fields map[string]string    // field or element type -> the same for what is stored there
	rets   map[*ssa.Function]map[int]string
	again  bool
	bad    map[*ssa.Function][]string
	given  bool // about what the functions are given instead of package variables
}

// refers tells whether values of type t can give access to memory that could be written.
func refers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Signature:
		return true
	case *types.Array:
		return refers(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refers(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Tuple:
		return true
	}
	return true
}

func (a *stateAnalysis) taint(v ssa.Value, src string) {
	if src == "" || !refers(v.Type()) {
		return
	}
	if _, ok := a.val[v]; !ok {
		a.val[v] = src
		a.again = true
	}
}

func (a *stateAnalysis) of(v ssa.Value) string {
	if g, ok := v.(*ssa.Global); ok && !a.given {
		return g.Name()
	}
	return a.val[v]
}

func (a *stateAnalysis) setField(key, src string) {
	if src == "" {
		return
	}
	if _, ok := a.fields[key]; !ok {
		a.fields[key] = src
		a.again = true
	}
}

// cell names the kind of memory an address is of: a field of a struct type, or anything of its type.
func cell(addr ssa.Value) string {
	if f, ok := addr.(*ssa.FieldAddr); ok {
		return fmt.Sprintf("%s.%d", f.X.Type().String(), f.Field)
	}
	return "*" + addr.Type().String()
}

func (a *stateAnalysis) report(f *ssa.Function, p token.Pos, format string, args ...interface{}) {
	a.bad[f] = append(a.bad[f], a.w.shortPos(p)+": "+fmt.Sprintf(format, args...))
}

func (a *stateAnalysis) what(s string) string {
	if a.given {
		return "memory of " + s
	}
	return "package variable " + s
}

func newStateAnalysis(w *World) *stateAnalysis {
	a := &stateAnalysis{w: w, val: map[ssa.Value]string{}, fields: map[string]string{}, rets: map[*ssa.Function]map[int]string{}, bad: map[*ssa.Function][]string{}}
	for f := range w.allFns {
		top := f
		for top.Parent() != nil {
			top = top.Parent()
		}
		if f.Blocks == nil || top.Pkg == nil || top.Pkg != w.pkgs["root"] || w.isSpecFile(top) || strings.HasPrefix(top.Name(), "zz") {
			continue
		}
		if top.Synthetic != "" && top.Name() == "init" {
			continue
		}
		if top.Signature.Recv() == nil && (top.Name() == "init" || strings.HasPrefix(top.Name(), "init#")) {
			continue // runs once, before anything else
		}
		a.fns = append(a.fns, f)
	}
	sort.Slice(a.fns, func(i, j int) bool { return a.fns[i].String() < a.fns[j].String() })
	return a
}

func (a *stateAnalysis) solve() {
	a.again = true
	for a.again {
		a.again = false
		for _, f := range a.fns {
			a.flow(f)
		}
	}
}

func (w *World) stateObligations(add func(fn, name string, errs []string)) {
	a := newStateAnalysis(w)
	a.solve()
	for _, f := range a.fns {
		a.check(f)
		add(f.String(), "writes no package-level state and leaves nothing to chance", a.bad[f])
	}
	// the module and the parameters of a generator
	g := newStateAnalysis(w)
	g.given = true
	var todo []*ssa.Function
	for _, f := range g.fns {
		if f.Signature.Recv() != nil && f.Name() == "Generate" && f.Synthetic == "" {
			todo = append(todo, f)
			for _, p := range f.Params {
				if !types.IsInterface(p.Type()) { // the writer
					g.taint(p, "the "+p.Name()+" given to "+f.Name())
				}
			}
		}
	}
	if len(todo) == 0 {
		add("Generate", "there is a generator of code from modules", []string{"no method Generate"})
	}
	g.solve()
	reach := map[*ssa.Function]bool{}
	known := map[*ssa.Function]bool{}
	for _, f := range g.fns {
		known[f] = true
	}
	for len(todo) > 0 {
		f := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if reach[f] || !known[f] {
			continue
		}
		reach[f] = true
		todo = append(todo, f.AnonFuncs...)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					todo = append(todo, g.targets(c.Common())...)
				}
			}
		}
	}
	for _, f := range g.fns {
		if reach[f] {
			g.check(f)
			add(f.String(), "writes nothing of the module and the parameters given to a generator", g.bad[f])
		}
	}
}

// storeFields taints the fields of a struct stored as a whole; loadFields is what the fields of a struct type may refer to.
// (A struct copied from memory to memory has the taint of its fields, which are known by their type, already.)
func (a *stateAnalysis) storeFields(t types.Type, src string) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok || src == "" {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		if ft := s.Field(i).Type(); refers(ft) {
			a.setField(fmt.Sprintf("%s.%d", types.NewPointer(t).String(), i), src)
			a.storeFields(ft, src)
		}
	}
}

func (a *stateAnalysis) loadFields(t types.Type) string {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < s.NumFields(); i++ {
		if src := a.fields[fmt.Sprintf("%s.%d", types.NewPointer(t).String(), i)]; src != "" {
			return src
		}
		if src := a.loadFields(s.Field(i).Type()); src != "" {
			return src
		}
	}
	return ""
}

func (a *stateAnalysis) flow(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.FieldAddr:
				a.taintAddr(in, a.of(in.X))
			case *ssa.IndexAddr:
				a.taintAddr(in, a.of(in.X))
			case *ssa.UnOp:
				if in.Op == token.MUL {
					a.taint(in, a.of(in.X))
					a.taint(in, a.fields[cell(in.X)])
				}
			case *ssa.Phi:
				for _, e := range in.Edges {
					a.taint(in, a.of(e))
				}
			case *ssa.Field:
				a.taint(in, a.of(in.X))
				a.taint(in, a.fields[fmt.Sprintf("%s.%d", types.NewPointer(in.X.Type()).String(), in.Field)])
			case *ssa.Index:
				a.taint(in, a.of(in.X))
			case *ssa.Lookup:
				a.taint(in, a.of(in.X))
			case *ssa.Extract:
				if c, ok := in.Tuple.(*ssa.Call); ok {
					for _, g := range a.targets(c.Common()) {
						a.taint(in, a.rets[g][in.Index])
					}
				} else {
					a.taint(in, a.of(in.Tuple))
				}
			case *ssa.Slice:
				a.taint(in, a.of(in.X))
			case *ssa.Convert:
				a.taint(in, a.of(in.X))
			case *ssa.ChangeType:
				a.taint(in, a.of(in.X))
			case *ssa.ChangeInterface:
				a.taint(in, a.of(in.X))
			case *ssa.MakeInterface:
				a.taint(in, a.of(in.X))
				a.taint(in, a.loadFields(in.X.Type()))
			case *ssa.TypeAssert:
				a.taint(in, a.of(in.X))
			case *ssa.Range:
				a.taint(in, a.of(in.X))
			case *ssa.Next:
				a.taint(in, a.of(in.Iter))
			case *ssa.Store:
				a.setField(cell(in.Addr), a.stored(in.Val))
				a.storeFields(in.Val.Type(), a.stored(in.Val))
			case *ssa.MapUpdate:
				a.setField("*"+in.Map.Type().String(), a.stored(in.Value))
			case *ssa.MakeClosure:
				g := in.Fn.(*ssa.Function)
				for i, v := range in.Bindings {
					a.taint(g.FreeVars[i], a.of(v))
				}
			case *ssa.Return:
				for i, r := range in.Results {
					if s := a.stored(r); s != "" {
						if a.rets[f] == nil {
							a.rets[f] = map[int]string{}
						}
						if _, ok := a.rets[f][i]; !ok {
							a.rets[f][i] = s
							a.again = true
						}
					}
				}
			case ssa.CallInstruction:
				c := in.Common()
				for _, g := range a.targets(c) {
					args := c.Args
					if c.IsInvoke() {
						args = append([]ssa.Value{c.Value}, args...)
					}
					for i, v := range args {
						if i < len(g.Params) {
							a.taint(g.Params[i], a.of(v))
						}
					}
					if v, ok := in.(*ssa.Call); ok && g.Signature.Results().Len() == 1 {
						a.taint(v, a.rets[g][0])
					}
				}
				if b, ok := c.Value.(*ssa.Builtin); ok && b.Name() == "append" {
					if v, ok := in.(*ssa.Call); ok {
						for _, x := range c.Args {
							if s := a.of(x); s != "" && (x == c.Args[0] || refersElem(x.Type())) {
								a.taint(v, s)
							}
						}
					}
				}
			}
		}
	}
}

// stored is what a value stored somewhere refers to.
func (a *stateAnalysis) stored(v ssa.Value) string {
	if !refers(v.Type()) {
		return ""
	}
	return a.of(v)
}

func refersElem(t types.Type) bool {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return refers(s.Elem())
	}
	return true
}

func (a *stateAnalysis) taintAddr(v ssa.Value, src string) {
	if src == "" {
		return
	}
	if _, ok := a.val[v]; !ok {
		a.val[v] = src
		a.again = true
	}
}

// targets are the functions of the package a call can reach.
func (a *stateAnalysis) targets(c *ssa.CallCommon) (out []*ssa.Function) {
	if g := c.StaticCallee(); g != nil {
		return []*ssa.Function{g}
	}
	if c.IsInvoke() {
		for _, f := range a.fns {
			if f.Signature.Recv() != nil && f.Name() == c.Method.Name() {
				out = append(out, f)
			}
		}
		return
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return
	}
	for _, f := range a.fns { // a function value
		if f.Signature.Recv() == nil && types.Identical(f.Signature, c.Signature()) {
			out = append(out, f)
		}
	}
	return
}

// chance are packages whose results differ from run to run.
var chance = map[string]bool{"time": true, "math/rand": true, "math/rand/v2": true, "crypto/rand": true, "runtime": true, "sync": true,
	"sync/atomic": true, "unsafe": true, "os/exec": true, "net": true, "os/user": true, "hash/maphash": true, "runtime/debug": true}

var chanceFn = map[string]bool{"os.Getenv": true, "os.LookupEnv": true, "os.Environ": true, "os.Getpid": true, "os.Getppid": true, "os.Hostname": true,
	"os.Getwd": true, "os.Setenv": true, "os.Unsetenv": true, "os.Chdir": true, "os.Executable": true, "os.Clearenv": true}

func (a *stateAnalysis) check(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if s := a.of(in.Addr); s != "" {
					a.report(f, in.Pos(), "may write %s", a.what(s))
				}
			case *ssa.MapUpdate:
				if s := a.of(in.Map); s != "" {
					a.report(f, in.Pos(), "may write the map of %s", a.what(s))
				}
			case *ssa.Send:
				a.report(f, in.Pos(), "sends to a channel")
			case *ssa.Select:
				a.report(f, in.Pos(), "selects between channels")
			case *ssa.Go:
				a.report(f, in.Pos(), "starts a goroutine")
			case *ssa.Range:
				if _, ok := in.X.Type().Underlying().(*types.Map); ok && !orderFree(f, in) {
					a.report(f, in.Pos(), "ranges over a map in an order that may matter")
				}
			case ssa.CallInstruction:
				a.checkCall(f, in)
			}
		}
	}
}

func (a *stateAnalysis) checkCall(f *ssa.Function, in ssa.CallInstruction) {
	c := in.Common()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append", "copy", "delete", "clear", "close":
			if s := a.of(c.Args[0]); s != "" && !emptyCap(c.Args[0]) {
				a.report(f, in.Pos(), "%s may write %s", b.Name(), a.what(s))
			}
		}
		return
	}
	g := c.StaticCallee()
	if g == nil || a.w.inProgFn(g) {
		return
	}
	pkg := ""
	if g.Object() != nil && g.Object().Pkg() != nil {
		pkg = g.Object().Pkg().Path()
	}
	name := g.String()
	if (chance[pkg] && !harmless[name]) || chanceFn[name] {
		a.report(f, in.Pos(), "depends on or changes more than its arguments: %s", name)
	}
	if readsOnly[pkg] {
		return
	}
	for _, v := range c.Args {
		if s := a.of(v); s != "" && (a.given || a.w.programVar(v, s)) {
			a.report(f, in.Pos(), "passes %s to %s, which may write it", a.what(s), name)
		}
	}
}

// harmless: guarding a computation that is itself found to write nothing.
var harmless = map[string]bool{"runtime.KeepAlive": true}

// readsOnly are packages whose functions do not write through what they are given, writers and readers aside.
var readsOnly = map[string]bool{"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "errors": true, "fmt": true, "math": true, "bytes": true, "reflect": true}

// programVar: only variables of the program matter; io.EOF, os.Stdin and the like are their packages' business.
func (w *World) programVar(v ssa.Value, name string) bool {
	for _, k := range []string{"root", "utils", "asn1go"} {
		if p := w.pkgs[k]; p != nil {
			if _, ok := p.Members[name].(*ssa.Global); ok {
				return true
			}
		}
	}
	return false
}

func emptyCap(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	if !ok || s.Max == nil {
		return false
	}
	c, ok := s.Max.(*ssa.Const)
	return ok && c.Value != nil && c.Value.ExactString() == "0"
}

// orderFree: the loop only fills maps, or collects into a list that is sorted afterwards.
func orderFree(f *ssa.Function, r *ssa.Range) bool {
	var header *ssa.BasicBlock
	for _, u := range *r.Referrers() {
		if n, ok := u.(*ssa.Next); ok {
			header = n.Block()
		}
	}
	if header == nil {
		return true
	}
	inLoop := map[*ssa.BasicBlock]bool{}
	// blocks that reach the header again
	for _, b := range f.Blocks {
		if header.Dominates(b) && reachesBlock(b, header, map[*ssa.BasicBlock]bool{}) {
			inLoop[b] = true
		}
	}
	collects := false
	for b := range inLoop {
		if b != header {
			for _, s := range b.Succs {
				if !inLoop[s] {
					return false // leaves at some element
				}
			}
		}
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if _, ok := in.Addr.(*ssa.IndexAddr); !ok { // the argument list of append
					return false
				}
			case ssa.CallInstruction:
				bi, ok := in.Common().Value.(*ssa.Builtin)
				if !ok {
					return false
				}
				if bi.Name() == "append" {
					collects = true
				}
			case *ssa.Phi:
				if b == header {
					if _, ok := in.Type().Underlying().(*types.Slice); !ok {
						return false
					}
				}
			}
		}
	}
	if !collects {
		return true
	}
	for _, b := range f.Blocks {
		if inLoop[b] || !header.Dominates(b) {
			continue
		}
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if g := c.Common().StaticCallee(); g != nil {
					n := g.String()
					if g.Origin() != nil {
						n = g.Origin().String()
					}
					if n == "sort.Strings" || n == "sort.Slice" || n == "slices.Sort" || n == "sort.Ints" || n == "sort.Sort" {
						return true
					}
				}
			}
		}
	}
	return false
}

func reachesBlock(from, to *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool) bool {
	for _, s := range from.Succs {
		if s == to {
			return true
		}
		if !seen[s] {
			seen[s] = true
			if reachesBlock(s, to, seen) {
				return true
			}
		}
	}
	return false
}

func (w *World) inProgFn(g *ssa.Function) bool {
	for g.Parent() != nil {
		g = g.Parent()
	}
	return g.Pkg != nil && inProgram(g.Pkg.Pkg) || g.Pkg == nil && g.Object() != nil && inProgram(g.Object().Pkg())
}
