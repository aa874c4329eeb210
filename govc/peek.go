package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// bufio.Reader.Peek shows bytes, where the model of the reader (extern.go) has characters. What is said about bytes here
// relates the two by functions the solver knows no more about than the facts below:
//
//	peekbytes(in, p)    bytes from character p to the end
//	rdchar(in, p, a)    c if character p+c of in starts a bytes behind the start of character p, -1 if none starts there
//	rdneed(in, k)       bytes that utf8.FullRune wants to see of character k; more than there are, if it is cut off
//	peekbuf(in, p, n)   the first n of these bytes

// utfRuneError is utf8.RuneError.
var utfRuneError = mkInt(0xFFFD)

func peekAvail(in, p *Term) *Term { return mkUF("peekbytes", sInt, in, p) }
func peekChar(in, p, a *Term) *Term {
	if a.Op == "int" && a.I == 0 {
		return a
	}
	return mkUF("rdchar", sInt, in, p, a)
}
func peekNeed(in, k *Term) *Term   { return mkUF("rdneed", sInt, in, k) }
func peekBuf(in, p, n *Term) *Term { return mkUF("peekbuf", seqOf(sInt), in, p, n) }

// peekCharFact is what rdchar says about its position.
func peekCharFact(t *Term) *Term {
	in, p, a := t.Args[0], t.Args[1], t.Args[2]
	avail, at := peekAvail(in, p), mkAdd(p, t)
	more := mkLt(at, mkSeqLen(in))
	return mkAnd(mkLe(mkInt(0), avail), mkLe(mkInt(-1), t),
		mkImplies(mkEq(a, mkInt(0)), mkEq(t, mkInt(0))),
		mkImplies(mkAnd(mkLe(mkInt(0), t), more), mkLe(mkInt(0), mkNth(in, at))),
		mkImplies(mkLe(mkInt(0), t), mkAnd(
			mkLe(t, a), mkLe(a, mkAdd(t, t, t, t)), mkLe(a, avail), mkLe(at, mkSeqLen(in)), mkEq(mkLt(a, avail), more),
			mkImplies(mkAnd(more, mkLt(mkSub(avail, a), peekNeed(in, at))), mkEq(mkNth(in, at), utfRuneError)))))
}

// peekNeedFact: a character has one to four bytes, one if it is ASCII.
func peekNeedFact(t *Term) *Term {
	r := mkNth(t.Args[0], t.Args[1])
	return mkAnd(mkLe(mkInt(1), t), mkLe(t, mkInt(4)),
		mkImplies(mkAnd(mkLe(mkInt(0), r), mkLt(r, mkInt(128))), mkEq(t, mkInt(1))))
}

// peekByteFact is what is known of one of the bytes shown.
func peekByteFact(in, p, i, b *Term) *Term {
	c := peekChar(in, p, i)
	r := mkNth(in, mkAdd(p, c))
	more := mkLt(mkAdd(p, c), mkSeqLen(in))
	return mkAnd(mkLe(mkInt(0), b), mkLe(b, mkInt(255)), mkImplies(mkAnd(mkLe(mkInt(0), c), more), mkLe(mkInt(0), r)), mkImplies(mkAnd(mkLe(mkInt(0), c), more), mkIte(mkLt(r, mkInt(128)),
		mkAnd(mkEq(b, r), mkEq(peekChar(in, p, mkAdd(i, mkInt(1))), mkAdd(c, mkInt(1)))),
		mkLe(mkInt(128), b))))
}

// peeked takes a part of the bytes shown apart.
func peeked(t *Term) (in, p, lo, n *Term, ok bool) {
	switch {
	case t.Op == "uf:peekbuf":
		return t.Args[0], t.Args[1], mkInt(0), t.Args[2], true
	case t.Op == "seq.extract":
		if in, p, lo, _, ok := peeked(t.Args[0]); ok {
			return in, p, mkAdd(lo, t.Args[1]), t.Args[2], true
		}
	}
	return nil, nil, nil, nil, false
}

// peek models Peek. The smallest buffer a reader can have is 16 bytes.
func (x *Exec) peek(st *State, fr *Frame, l, n *Term, where string) []Outcome {
	_, _, in, pos, _, _ := x.readerParts(st, l)
	ok := mkAnd(mkLe(mkInt(0), n), mkLe(n, mkInt(16)))
	x.emit(st, "safety", "bytes peeked fit any buffer", nil, where, ok)
	st.assume(ok)
	x.readerSet(st, l, 2, tFalse)
	avail := peekAvail(in, pos)
	st.assume(mkLe(mkInt(0), avail))
	st.assume(mkEq(mkLt(mkInt(0), avail), mkLt(pos, mkSeqLen(in))))
	enough := st.facts.simp(mkLe(n, avail))
	x.w.assumption("bufio.Reader.Peek shows the bytes of the characters that ReadRune will read; utf8.FullRune and utf8.DecodeRune tell of them what ReadRune does")
	var outs []Outcome
	if enough != tTrue {
		s, f := st.clone(), fr.clone()
		s.assume(mkNot(enough))
		e := fresh("peekerr", sV)
		s.assume(mkNot(mkIs("nilV", e)))
		if n.Op == "int" && n.I <= 4 {
			for i := int64(0); i < n.I; i++ { // were there ASCII characters, there were bytes
				c := peekChar(in, pos, mkInt(i))
				at := mkAdd(pos, c)
				s.assume(mkImplies(mkAnd(mkLe(mkInt(0), c), mkLt(at, mkSeqLen(in)), mkLe(mkInt(0), mkNth(in, at)), mkLt(mkNth(in, at), mkInt(128))),
					mkEq(peekChar(in, pos, mkInt(i+1)), mkAdd(c, mkInt(1)))))
			}
		}
		b := peekBuf(in, pos, avail)
		s.assume(mkEq(mkSeqLen(b), avail))
		outs = append(outs, Outcome{kind: "ret", st: s, fr: f, res: []*Term{b, e}})
	}
	if enough != tFalse {
		st.assume(enough)
		b := peekBuf(in, pos, n)
		st.assume(mkEq(mkSeqLen(b), n))
		outs = append(outs, Outcome{kind: "ret", st: st, fr: fr, res: []*Term{b, tNilV}})
	}
	return outs
}

// peekRune models utf8.FullRune and utf8.DecodeRune of bytes shown by Peek.
func (x *Exec) peekRune(st *State, fr *Frame, name string, b *Term, f *ssa.Function) ([]Outcome, bool) {
	in, p, lo, n, ok := peeked(b)
	if !ok {
		return nil, false
	}
	c := peekChar(in, p, lo)
	at := mkAdd(p, c)
	need := peekNeed(in, at)
	whole := mkLe(need, n)
	switch name {
	case "unicode/utf8.FullRune":
		full := mkUF("utf8.FullRune.0", sBool, b)
		st.assume(mkImplies(mkLe(mkInt(0), c), mkEq(full, whole)))
		return retOut(st, fr, full), true
	case "unicode/utf8.DecodeRune":
		r, size := mkUF("utf8.DecodeRune.0", sInt, b), mkUF("utf8.DecodeRune.1", sInt, b)
		st.assume(mkAnd(mkLe(mkInt(0), size), mkLe(size, mkInt(4)), mkLe(size, n), mkLe(mkInt(0), r)))
		st.assume(mkEq(mkLt(mkInt(0), n), mkLt(mkInt(0), size)))
		last := mkLe(peekAvail(in, p), mkAdd(lo, n))
		st.assume(mkImplies(mkAnd(mkLe(mkInt(0), c), mkLt(mkInt(0), n), mkOr(whole, last)),
			mkAnd(mkEq(r, mkNth(in, at)), mkEq(peekChar(in, p, mkAdd(lo, size)), mkAdd(c, mkInt(1))),
				mkImplies(mkLt(r, mkInt(128)), mkEq(size, mkInt(1))))))
		return retOut(st, fr, r, size), true
	}
	return nil, false
}

func callOf(f *ssa.Function, c *ssa.CallCommon) *ssa.Call {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(*ssa.Call); ok && &v.Call == c {
				return v
			}
		}
	}
	return nil
}

// peekKept finds a use of the bytes Peek shows after another operation may have overwritten them, or one that writes to or
// keeps them: the model has them as a value.
func peekKept(call *ssa.Call) string {
	derived := map[ssa.Value]bool{}
	uses := map[ssa.Instruction]bool{}
	bad := ""
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if derived[v] {
			return
		}
		derived[v] = true
		for _, ref := range *v.Referrers() {
			uses[ref] = true
			switch r := ref.(type) {
			case *ssa.DebugRef:
			case *ssa.Slice:
				walk(r)
			case *ssa.Convert: // to a string, which is a copy
				if _, ok := r.Type().Underlying().(*types.Slice); ok {
					bad = "bytes shown by Peek are converted"
				}
			case *ssa.IndexAddr:
				for _, u := range *r.Referrers() {
					uses[u] = true
					if l, ok := u.(*ssa.UnOp); !ok || l.X != r {
						bad = "the address of a byte shown by Peek is used"
					}
				}
			case *ssa.Call:
				if b, ok := r.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					continue
				}
				if f := r.Call.StaticCallee(); f == nil || f.Pkg == nil || !peekReader(f) {
					bad = "bytes shown by Peek are handed on"
				}
			default:
				bad = "bytes shown by Peek are kept"
			}
		}
	}
	for _, ref := range *call.Referrers() {
		if e, ok := ref.(*ssa.Extract); ok && e.Index == 0 {
			walk(e)
		}
	}
	if bad != "" {
		return bad
	}
	// from the call on, behind any call that may read, the bytes are gone
	type at struct {
		b    *ssa.BasicBlock
		i    int
		gone bool
	}
	seen := map[at]bool{}
	var run func(p at)
	run = func(p at) {
		if seen[p] {
			return
		}
		seen[p] = true
		for ; p.i < len(p.b.Instrs); p.i++ {
			in := p.b.Instrs[p.i]
			if in == ssa.Instruction(call) {
				return // new bytes
			}
			if _, ok := in.(*ssa.DebugRef); !ok && p.gone && uses[in] {
				bad = "bytes shown by Peek are used after the reader was used again"
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				f := c.Common().StaticCallee()
				if _, builtin := c.Common().Value.(*ssa.Builtin); !builtin && (f == nil || f.Pkg == nil || !peekReader(f)) {
					p.gone = true
				}
			}
		}
		for _, s := range p.b.Succs {
			run(at{s, 0, p.gone})
		}
	}
	for i, in := range call.Block().Instrs {
		if in == ssa.Instruction(call) {
			run(at{call.Block(), i + 1, false})
		}
	}
	return bad
}

// peekReader names functions that only read their arguments and no reader.
func peekReader(f *ssa.Function) bool {
	switch f.Pkg.Pkg.Path() {
	case "unicode/utf8", "unicode", "strings", "strconv":
		return true
	case "bytes":
		return f.Name() != "NewReader" && f.Name() != "NewBuffer" && f.Name() != "ReadFrom" && f.Name() != "WriteTo"
	}
	return false
}
