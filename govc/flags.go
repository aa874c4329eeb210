package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// The meaning of package flag: what Parse leaves in the variables of a FlagSet is a function of the arguments and of the
// names and defaults registered.

type flagReg struct{ name, def, ptr *Term }

func flagNames(regs []flagReg) *Term {
	var ns []*Term
	for _, r := range regs {
		ns = append(ns, mkIface("string", r.name))
	}
	sort.Slice(ns, func(i, j int) bool { return ns[i].String() < ns[j].String() })
	registerPayload("string", sStr)
	var us []*Term
	for _, n := range ns {
		us = append(us, mkUnit(n))
	}
	return mkConcat(seqOf(sV), us...)
}

// flagCall gives the meaning of the functions of package flag.
func (x *Exec) flagCall(name string, c *ssa.CallCommon, args []*Term, st *State, fr *Frame, where string) ([]Outcome, bool) {
	if st.flags == nil {
		st.flags = map[*Term][]flagReg{}
	}
	var key *Term
	if len(args) > 0 {
		key = args[0]
	}
	put := func(i int, v *Term) {
		st.flags[key] = append(append([]flagReg{}, st.flags[key]...), flagReg{def: v, name: mkInt(int64(i))})
	}
	// the first registrations of a set are its handling of errors (0) and, once parsed, its arguments (1)
	meta := func(i int) *Term {
		for _, r := range st.flags[key] {
			if r.name.Op == "int" && r.name.I == int64(i) {
				return r.def
			}
		}
		return nil
	}
	regs := func() (out []flagReg) {
		for _, r := range st.flags[key] {
			if r.ptr != nil {
				out = append(out, r)
			}
		}
		return
	}
	switch name {
	case "flag.NewFlagSet":
		if args[1].Op != "int" {
			return nil, false
		}
		key = mkUF(fmt.Sprintf("flagset_%d", x.nextObj), sortOf(c.Signature().Results().At(0).Type()))
		x.nextObj++
		put(0, args[1])
		return retOut(st, fr, key), true
	case "(*flag.FlagSet).StringVar":
		if meta(0) == nil || args[1].Op != "loc" || args[2].Op != "str" {
			return nil, false
		}
		st.flags[key] = append(append([]flagReg{}, st.flags[key]...), flagReg{name: args[2], def: args[3], ptr: args[1]})
		x.store(st, args[1], args[3], nil, where)
		return retOut(st, fr), true
	case "(*flag.FlagSet).Parse":
		if meta(0) == nil || meta(1) != nil {
			return nil, false
		}
		as := x.resolve(st, args[1])
		names := flagNames(regs())
		err := mkUF("flag.error", sV, as, names)
		put(1, as)
		for _, r := range regs() {
			x.store(st, r.ptr, mkUF("flag.value", sStr, as, names, r.name, r.def), nil, where)
		}
		n := mkUF("flag.narg", sInt, as, names)
		st.assume(mkLe(mkInt(0), n))
		st.assume(mkNot(mkIs("nilV", mkUF("extglobal_flag.ErrHelp", sV))))
		if meta(0) == mkInt(0) || x.spec > 0 {
			return retOut(st, fr, err), true
		}
		if meta(0) != mkInt(1) {
			return nil, false
		}
		// a wrong command line is reported and ends the program, successfully if it asks for help
		bad := mkNot(mkIs("nilV", err))
		s, f := st.clone(), fr.clone()
		s.assume(bad)
		code := fresh("code", sInt)
		s.assume(mkEq(mkEq(code, mkInt(0)), mkEq(err, mkUF("extglobal_flag.ErrHelp", sV))))
		x.event(s, "write", nil, x.stderr(), mkIface("string", fresh("usage", sStr)))
		x.event(s, "os.Exit", nil, mkIface(dynName(types.Typ[types.Int]), code))
		st.assume(mkNot(bad))
		return append(retOut(st, fr, tNilV), Outcome{kind: "exit", st: s, fr: f, note: where}), true
	case "(*flag.FlagSet).NArg":
		if as := meta(1); as != nil {
			return retOut(st, fr, mkUF("flag.narg", sInt, as, flagNames(regs()))), true
		}
	case "(*flag.FlagSet).Arg":
		if as := meta(1); as != nil {
			n := mkUF("flag.narg", sInt, as, flagNames(regs()))
			in := mkAnd(mkLe(mkInt(0), args[1]), mkLt(args[1], n))
			return retOut(st, fr, mkIte(in, mkUF("flag.arg", sStr, as, flagNames(regs()), args[1]), mkStr(""))), true
		}
	}
	return nil, false
}

// fprint gives the meaning of fmt.Fprint*: the text is one effect with what is written next to the same writer.
func (x *Exec) fprint(name string, args []*Term, st *State, fr *Frame) ([]Outcome, bool) {
	var text *Term
	switch name {
	case "fmt.Fprintf":
		text = st.facts.simp(sprintf(x.resolve(st, args[1]), x.resolve(st, args[2])))
	case "fmt.Fprintln", "fmt.Fprint":
		ps, ok := seqParts(x.resolve(st, args[1]))
		if !ok {
			return nil, false
		}
		var parts []*Term
		for i, p := range ps {
			if i > 0 {
				if name == "fmt.Fprint" {
					return nil, false // separated by a space only between operands that are no strings
				}
				parts = append(parts, mkStr(" "))
			}
			parts = append(parts, fmtOne("v", p))
		}
		if name == "fmt.Fprintln" {
			parts = append(parts, mkStr("\n"))
		}
		text = mkStrConcat(parts...)
	default:
		return nil, false
	}
	if isBuf(args[0]) {
		x.bufAppend(st, args[0].Args[0], text)
		return retOut(st, fr, fresh("n", sInt), tNilV), true
	}
	w := x.resolve(st, args[0])
	registerPayload("string", sStr)
	id := x.traceObj(st)
	if t := st.heap[id].cell.term; t.Op == "seq.++" && len(t.Args) >= 3 {
		last := t.Args[len(t.Args)-3:]
		if last[0] == mkUnit(mkIface("string", mkStr("write"))) && last[1] == mkUnit(w) && last[2].Op == "seq.unit" && last[2].Args[0].Op == "i:string" {
			o := *st.heap[id]
			text = mkStrConcat(last[2].Args[0].Args[0], text)
			o.cell = &Cell{typ: o.cell.typ, term: mkConcat(seqOf(sV), t.Args[:len(t.Args)-3]...)}
			st.heap[id] = &o
		}
	}
	x.event(st, "write", nil, w, mkIface("string", text))
	return retOut(st, fr, fresh("n", sInt), fresh("err", sV)), true
}

func concatParts(t *Term) []*Term {
	if t.Op == "str.++" {
		return t.Args
	}
	return []*Term{t}
}

// stderr is os.Stderr as an io.Writer.
func (x *Exec) stderr() *Term {
	t := types.NewPointer(x.w.prog.ImportedPackage("os").Type("File").Type())
	return mkIface(dynName(t), mkUF("extglobal_os.Stderr", sortOf(t)))
}

// isBuf tells whether a writer is a buffer of the function at hand.
func isBuf(w *Term) bool {
	return (w.Op == "i:P_bytes_Buffer" || w.Op == "i:P_strings_Builder") && w.Args[0].Op == "loc"
}
