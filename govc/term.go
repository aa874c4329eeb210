package main

import (
	"fmt"
	"sort"
	"strings"
	"sync"
)

// Term is a hash-consed first-order term. Every symbolic value of the executor is one.
//
// Ops that never reach the solver ("loc", "elemptr", "pathptr", "tuple", "fn") are executor-level values.
type Term struct {
	Op   string
	Args []*Term
	Sort string
	I    int64
	S    string
	ID   int
	size int
}

type termKey struct {
	op, sort, s string
	i           int64
	args        string
}

var (
	termMu  sync.Mutex
	termTab = map[termKey]*Term{}
)

func argKey(args []*Term) string {
	if len(args) == 0 {
		return ""
	}
	var b strings.Builder
	for _, a := range args {
		fmt.Fprintf(&b, "%d,", a.ID)
	}
	return b.String()
}

func raw(op, sort string, i int64, s string, args ...*Term) *Term {
	for _, a := range args {
		if a == nil {
			panic("nil argument in term " + op)
		}
	}
	k := termKey{op, sort, s, i, argKey(args)}
	termMu.Lock()
	defer termMu.Unlock()
	if t, ok := termTab[k]; ok {
		return t
	}
	sz := 1
	for _, a := range args {
		sz += a.size
		if sz > 1<<40 {
			sz = 1 << 40
		}
	}
	t := &Term{Op: op, Args: append([]*Term{}, args...), Sort: sort, I: i, S: s, ID: len(termTab) + 1, size: sz}
	termTab[k] = t
	return t
}

const (
	sBool = "Bool"
	sInt  = "Int"
	sStr  = "String"
	sV    = "V"
	sF64  = "F64"
)

var (
	tTrue  = raw("true", sBool, 0, "")
	tFalse = raw("false", sBool, 0, "")
	tNilV  = raw("nilV", sV, 0, "")
)

func mkInt(i int64) *Term             { return raw("int", sInt, i, "") }
func mkStr(s string) *Term            { return raw("str", sStr, 0, s) }
func mkConst(name, sort string) *Term { return raw("const", sort, 0, name) }
func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

var (
	freshMu sync.Mutex
	freshN  = map[string]int{}
)

func fresh(prefix, sort string) *Term {
	freshMu.Lock()
	freshN[prefix]++
	n := freshN[prefix]
	freshMu.Unlock()
	return mkConst(fmt.Sprintf("%s!%d", prefix, n), sort)
}

func isSeq(sort string) bool { return strings.HasPrefix(sort, "(Seq ") }
func seqElem(sort string) string {
	return sort[len("(Seq ") : len(sort)-1]
}
func seqOf(elem string) string { return "(Seq " + elem + ")" }

func mkNot(a *Term) *Term {
	switch a.Op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return a.Args[0]
	}
	return raw("not", sBool, 0, "", a)
}

func mkAnd(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		switch t.Op {
		case "true":
			return true
		case "false":
			return false
		case "and":
			for _, x := range t.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[t] {
			return true
		}
		if seen[mkNot(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return tFalse
		}
	}
	switch len(out) {
	case 0:
		return tTrue
	case 1:
		return out[0]
	}
	return raw("and", sBool, 0, "", out...)
}

func mkOr(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		switch t.Op {
		case "true":
			return tTrue
		case "false":
			continue
		}
		if t.Op == "or" {
			for _, x := range t.Args {
				if !seen[x] {
					seen[x] = true
					out = append(out, x)
				}
			}
			continue
		}
		if seen[mkNot(t)] {
			return tTrue
		}
		if !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	switch len(out) {
	case 0:
		return tFalse
	case 1:
		return out[0]
	}
	return raw("or", sBool, 0, "", out...)
}

func mkImplies(a, b *Term) *Term { return mkOr(mkNot(a), b) }

func isCtor(op string) bool {
	return strings.HasPrefix(op, "mk:") || strings.HasPrefix(op, "i:") || strings.HasPrefix(op, "p:") || op == "nilV" || op == "nilp"
}

func isLit(op string) bool { return op == "int" || op == "str" || op == "true" || op == "false" }

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("mkEq: sorts %s and %s: %v = %v", a.Sort, b.Sort, a, b))
	}
	if isLit(a.Op) && isLit(b.Op) {
		return tFalse
	}
	if a.Sort == sInt { // a string of length 0
		if a.Op == "int" && a.I == 0 && b.Op == "str.len" {
			return mkEq(b.Args[0], mkStr(""))
		}
		if b.Op == "int" && b.I == 0 && a.Op == "str.len" {
			return mkEq(a.Args[0], mkStr(""))
		}
	}
	if a.Sort == sBool {
		switch {
		case a == tTrue:
			return b
		case b == tTrue:
			return a
		case a == tFalse:
			return mkNot(b)
		case b == tFalse:
			return mkNot(a)
		}
	}
	if isCtor(a.Op) && isCtor(b.Op) {
		if a.Op != b.Op {
			return tFalse
		}
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, mkEq(a.Args[i], b.Args[i]))
		}
		return mkAnd(cs...)
	}
	if b.Op == "ite" && a.Op != "ite" {
		a, b = b, a
	}
	if a.Op == "ite" && (isLit(b.Op) || isCtor(b.Op)) && a.size < 200 {
		x, y := mkEq(a.Args[1], b), mkEq(a.Args[2], b)
		if x == tTrue || x == tFalse || y == tTrue || y == tFalse {
			return mkIte(a.Args[0], x, y)
		}
	}
	// loc of an object is never nil
	if (a.Op == "loc" && b.Op == "nilp") || (b.Op == "loc" && a.Op == "nilp") {
		return tFalse
	}
	if a.Sort == sV {
		if a.Op == "nilV" || strings.HasPrefix(a.Op, "i:") {
			a, b = b, a
		}
		if b.Op == "nilV" {
			return mkIs("nilV", a)
		}
	}
	if isSeq(a.Sort) {
		if a.Op == "seq.empty" {
			a, b = b, a
		}
		if b.Op == "seq.empty" {
			if a.Op == "seq.unit" {
				return tFalse
			}
			if a.Op == "seq.++" {
				for _, x := range a.Args {
					if x.Op == "seq.unit" {
						return tFalse
					}
				}
			}
			return raw("=", sBool, 0, "", mkSeqLen(a), mkInt(0))
		}
		if a.Op == "seq.unit" && b.Op == "seq.unit" {
			return mkEq(a.Args[0], b.Args[0])
		}
		if a.Op == "seq.++" && b.Op == "seq.++" {
			// strip equal ends
			x, y := a.Args, b.Args
			for len(x) > 0 && len(y) > 0 && x[0] == y[0] {
				x, y = x[1:], y[1:]
			}
			for len(x) > 0 && len(y) > 0 && x[len(x)-1] == y[len(y)-1] {
				x, y = x[:len(x)-1], y[:len(y)-1]
			}
			if len(x) < len(a.Args) {
				return mkEq(mkConcat(a.Sort, x...), mkConcat(a.Sort, y...))
			}
			if x[0].Op == "seq.unit" && y[0].Op == "seq.unit" {
				return mkAnd(mkEq(x[0].Args[0], y[0].Args[0]), mkEq(mkConcat(a.Sort, x[1:]...), mkConcat(a.Sort, y[1:]...)))
			}
			if x[len(x)-1].Op == "seq.unit" && y[len(y)-1].Op == "seq.unit" {
				return mkAnd(mkEq(x[len(x)-1].Args[0], y[len(y)-1].Args[0]), mkEq(mkConcat(a.Sort, x[:len(x)-1]...), mkConcat(a.Sort, y[:len(y)-1]...)))
			}
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return raw("=", sBool, 0, "", a, b)
}

func mkIte(c, a, b *Term) *Term {
	switch c {
	case tTrue:
		return a
	case tFalse:
		return b
	}
	if a == b {
		return a
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("mkIte: sorts %s and %s: %v / %v", a.Sort, b.Sort, a, b))
	}
	if c.Op == "not" {
		return mkIte(c.Args[0], b, a)
	}
	if a.Sort == sBool {
		if a == tTrue {
			return mkOr(c, b)
		}
		if a == tFalse {
			return mkAnd(mkNot(c), b)
		}
		if b == tTrue {
			return mkOr(mkNot(c), a)
		}
		if b == tFalse {
			return mkAnd(c, a)
		}
	}
	if a.Op == "ite" && a.Args[0] == c {
		a = a.Args[1]
	}
	if b.Op == "ite" && b.Args[0] == c {
		b = b.Args[2]
	}
	return raw("ite", a.Sort, 0, "", c, a, b)
}

// mkIs tests the constructor of a V ("nilV" or "i:T") or pointer ("nilp") term.
func mkIs(ctor string, x *Term) *Term {
	if isCtor(x.Op) {
		return mkBool(x.Op == ctor)
	}
	if x.Op == "loc" || x.Op == "elemptr" || x.Op == "pathptr" || x.Op == "elempath" {
		return mkBool(ctor != "nilp")
	}
	if x.Op == "ite" {
		a, b := mkIs(ctor, x.Args[1]), mkIs(ctor, x.Args[2])
		if a == tTrue || a == tFalse || b == tTrue || b == tFalse {
			return mkIte(x.Args[0], a, b)
		}
	}
	return raw("is", sBool, 0, ctor, x)
}

func mkIface(tname string, payload *Term) *Term { return raw("i:"+tname, sV, 0, "", payload) }

// mkUnbox extracts the payload of dynamic type tname.
func mkUnbox(tname, sort string, v *Term) *Term {
	if v.Op == "i:"+tname {
		return v.Args[0]
	}
	if v.Op == "ite" {
		if isCtor(v.Args[1].Op) && v.Args[1].Op != "i:"+tname {
			return mkUnbox(tname, sort, v.Args[2])
		}
		if isCtor(v.Args[2].Op) && v.Args[2].Op != "i:"+tname {
			return mkUnbox(tname, sort, v.Args[1])
		}
		if v.Args[1].Op == "i:"+tname || v.Args[2].Op == "i:"+tname {
			return mkIte(v.Args[0], mkUnbox(tname, sort, v.Args[1]), mkUnbox(tname, sort, v.Args[2]))
		}
	}
	return raw("u:"+tname, sort, 0, "", v)
}

func mkSel(structSort string, i int, fsort string, x *Term) *Term {
	if x.Op == "mk:"+structSort {
		return x.Args[i]
	}
	if x.Op == "ite" && (x.Args[1].Op == "mk:"+structSort || x.Args[2].Op == "mk:"+structSort) {
		return mkIte(x.Args[0], mkSel(structSort, i, fsort, x.Args[1]), mkSel(structSort, i, fsort, x.Args[2]))
	}
	return raw("sel:"+structSort, fsort, int64(i), "", x)
}

func mkPtr(psort string, x *Term) *Term { return raw("p:"+psort, psort, 0, "", x) }
func mkNilPtr(psort string) *Term       { return raw("nilp", psort, 0, "") }
func mkDeref(psort, sort string, p *Term) *Term {
	if p.Op == "p:"+psort {
		return p.Args[0]
	}
	if p.Op == "ite" {
		a, b := p.Args[1], p.Args[2]
		if a.Op == "nilp" {
			return mkDeref(psort, sort, b)
		}
		if b.Op == "nilp" {
			return mkDeref(psort, sort, a)
		}
		if a.Op == "p:"+psort || b.Op == "p:"+psort {
			return mkIte(p.Args[0], mkDeref(psort, sort, a), mkDeref(psort, sort, b))
		}
	}
	return raw("deref:"+psort, sort, 0, "", p)
}

func mkEmpty(sort string) *Term { return raw("seq.empty", sort, 0, "") }
func mkUnit(x *Term) *Term      { return raw("seq.unit", seqOf(x.Sort), 0, "", x) }

func mkConcat(sort string, xs ...*Term) *Term {
	var out []*Term
	for _, x := range xs {
		if x.Sort != sort {
			panic(fmt.Sprintf("mkConcat: sort %s in %s", x.Sort, sort))
		}
		switch x.Op {
		case "seq.empty":
		case "seq.++":
			out = append(out, x.Args...)
		default:
			out = append(out, x)
		}
	}
	switch len(out) {
	case 0:
		return mkEmpty(sort)
	case 1:
		return out[0]
	}
	return raw("seq.++", sort, 0, "", out...)
}

func mkSeqLen(x *Term) *Term {
	switch x.Op {
	case "seq.empty":
		return mkInt(0)
	case "seq.unit":
		return mkInt(1)
	case "seq.++":
		var ts []*Term
		for _, a := range x.Args {
			ts = append(ts, mkSeqLen(a))
		}
		return mkAdd(ts...)
	}
	return raw("seq.len", sInt, 0, "", x)
}

func mkNth(s, i *Term) *Term {
	es := seqElem(s.Sort)
	if s.Op == "seq.unit" && i.Op == "int" && i.I == 0 {
		return s.Args[0]
	}
	if s.Op == "seq.++" && i.Op == "int" {
		k := i.I
		for _, a := range s.Args {
			if a.Op != "seq.unit" {
				k = -1
				break
			}
			if k == 0 {
				return a.Args[0]
			}
			k--
		}
	}
	if s.Op == "seq.++" {
		// nth(x ++ [y], len x) = y
		last := s.Args[len(s.Args)-1]
		if last.Op == "seq.unit" {
			init := mkConcat(s.Sort, s.Args[:len(s.Args)-1]...)
			if mkSeqLen(init) == i {
				return last.Args[0]
			}
		}
	}
	if in, p, lo, _, ok := peeked(s); ok {
		return mkUF("peekbyte", sInt, in, p, mkAdd(lo, i))
	}
	return raw("seq.nth", es, 0, "", s, i)
}

// mkExtract is s[lo:hi]; in-bounds is the caller's obligation.
func mkExtract(s, lo, hi *Term) *Term {
	if lo.Op == "int" && lo.I == 0 && hi == mkSeqLen(s) {
		return s
	}
	if s.Op == "seq.empty" {
		return s
	}
	if lo == hi {
		return mkEmpty(s.Sort)
	}
	if s.Op == "seq.++" && lo.Op == "int" && lo.I == 0 {
		// (x ++ [y])[0 : len x] = x
		last := s.Args[len(s.Args)-1]
		if last.Op == "seq.unit" {
			init := mkConcat(s.Sort, s.Args[:len(s.Args)-1]...)
			if mkSeqLen(init) == hi {
				return init
			}
		}
	}
	if (s.Op == "seq.++" || s.Op == "seq.unit") && lo.Op == "int" && hi == mkSeqLen(s) {
		// drop leading units
		k := lo.I
		parts := []*Term{s}
		if s.Op == "seq.++" {
			parts = s.Args
		}
		for k > 0 && len(parts) > 0 && parts[0].Op == "seq.unit" {
			parts = parts[1:]
			k--
		}
		if k == 0 {
			return mkConcat(s.Sort, parts...)
		}
	}
	return raw("seq.extract", s.Sort, 0, "", s, lo, mkSub(hi, lo))
}

// linear normal form for integer sums
func mkAdd(ts ...*Term) *Term {
	coef := map[*Term]int64{}
	var order []*Term
	var c int64
	var add func(t *Term, k int64)
	add = func(t *Term, k int64) {
		switch {
		case t.Op == "int":
			c += k * t.I
		case t.Op == "+":
			for _, a := range t.Args {
				add(a, k)
			}
		case t.Op == "*" && t.Args[0].Op == "int":
			add(t.Args[1], k*t.Args[0].I)
		default:
			if _, ok := coef[t]; !ok {
				order = append(order, t)
			}
			coef[t] += k
		}
	}
	for _, t := range ts {
		add(t, 1)
	}
	sort.Slice(order, func(i, j int) bool { return order[i].ID < order[j].ID })
	var out []*Term
	for _, t := range order {
		switch k := coef[t]; {
		case k == 0:
		case k == 1:
			out = append(out, t)
		default:
			out = append(out, raw("*", sInt, 0, "", mkInt(k), t))
		}
	}
	if c != 0 || len(out) == 0 {
		out = append(out, mkInt(c))
	}
	if len(out) == 1 {
		return out[0]
	}
	return raw("+", sInt, 0, "", out...)
}

func mkMulK(k int64, t *Term) *Term {
	if k == 0 {
		return mkInt(0)
	}
	if t.Op == "int" {
		return mkInt(k * t.I)
	}
	if t.Op == "+" {
		var out []*Term
		for _, a := range t.Args {
			out = append(out, mkMulK(k, a))
		}
		return mkAdd(out...)
	}
	if t.Op == "*" && t.Args[0].Op == "int" {
		return mkAdd(mkMulK(k*t.Args[0].I, t.Args[1]))
	}
	if k == 1 {
		return t
	}
	return raw("*", sInt, 0, "", mkInt(k), t)
}

func mkSub(a, b *Term) *Term { return mkAdd(a, mkMulK(-1, b)) }

func mkMul(a, b *Term) *Term {
	if a.Op == "int" {
		return mkMulK(a.I, b)
	}
	if b.Op == "int" {
		return mkMulK(b.I, a)
	}
	return raw("*", sInt, 0, "", a, b)
}

func mkLe(a, b *Term) *Term {
	d := mkSub(b, a) // d >= 0
	if d.Op == "int" {
		return mkBool(d.I >= 0)
	}
	// seq.len(x) + c >= 0 for c >= 0
	if d.Op == "seq.len" || d.Op == "str.len" {
		return tTrue
	}
	if d.Op == "+" {
		ok := true
		for _, x := range d.Args {
			if !(x.Op == "seq.len" || x.Op == "str.len" || x.Op == "int" && x.I >= 0) {
				ok = false
			}
		}
		if ok {
			return tTrue
		}
	}
	return raw("<=", sBool, 0, "", a, b)
}

func mkLt(a, b *Term) *Term { return mkLe(mkAdd(a, mkInt(1)), b) }

func mkUF(name, sort string, args ...*Term) *Term { return raw("uf:"+name, sort, 0, "", args...) }

func mkStrConcat(xs ...*Term) *Term {
	var out []*Term
	for _, x := range xs {
		if x.Op == "str" && x.S == "" {
			continue
		}
		if x.Op == "str.++" {
			out = append(out, x.Args...)
			continue
		}
		out = append(out, x)
	}
	var o2 []*Term
	for _, x := range out {
		if n := len(o2); n > 0 && o2[n-1].Op == "str" && x.Op == "str" {
			o2[n-1] = mkStr(o2[n-1].S + x.S)
			continue
		}
		o2 = append(o2, x)
	}
	switch len(o2) {
	case 0:
		return mkStr("")
	case 1:
		return o2[0]
	}
	return raw("str.++", sStr, 0, "", o2...)
}

// mkLastByte is the last byte of a non-empty string.
func mkLastByte(s *Term) *Term {
	switch s.Op {
	case "str":
		if s.S != "" {
			return mkInt(int64(s.S[len(s.S)-1]))
		}
	case "str.++":
		if l := s.Args[len(s.Args)-1]; l.Op == "str" || l.Op == "uf:strofrune" {
			return mkLastByte(l)
		}
	case "uf:strofrune":
		return mkUF("lastofrune", sInt, s.Args[0])
	case "ite":
		return mkIte(s.Args[0], mkLastByte(s.Args[1]), mkLastByte(s.Args[2]))
	}
	return mkUF("lastbyte", sInt, s)
}

func strParts(s *Term) []*Term {
	if s.Op == "str.++" {
		return append([]*Term{}, s.Args...)
	}
	return []*Term{s}
}

// mkPrefix: p is a prefix of s.
func mkPrefix(p, s *Term) *Term {
	ps, ss := strParts(p), strParts(s)
	for len(ps) > 0 && len(ss) > 0 {
		a, b := ps[0], ss[0]
		if a.Op == "str" && a.S == "" {
			ps = ps[1:]
			continue
		}
		if a == b {
			ps, ss = ps[1:], ss[1:]
			continue
		}
		if a.Op == "str" && b.Op == "str" {
			n := min(len(a.S), len(b.S))
			if a.S[:n] != b.S[:n] {
				return tFalse
			}
			ps[0], ss[0] = mkStr(a.S[n:]), mkStr(b.S[n:])
			if len(b.S) == n {
				ss = ss[1:]
			}
			continue
		}
		break
	}
	if len(ps) == 0 || len(ps) == 1 && ps[0].Op == "str" && ps[0].S == "" {
		return tTrue
	}
	return raw("str.prefixof", sBool, 0, "", mkStrConcat(ps...), mkStrConcat(ss...))
}

func mkStrLen(x *Term) *Term {
	if x.Op == "str" {
		return mkInt(int64(len(x.S)))
	}
	if x.Op == "str.++" {
		var ts []*Term
		for _, a := range x.Args {
			ts = append(ts, mkStrLen(a))
		}
		return mkAdd(ts...)
	}
	return raw("str.len", sInt, 0, "", x)
}

// rebuild re-creates t with new arguments through the simplifying constructors.
func rebuild(t *Term, args []*Term) *Term {
	switch {
	case len(args) == 0:
		return t
	case t.Op == "not":
		return mkNot(args[0])
	case t.Op == "and":
		return mkAnd(args...)
	case t.Op == "or":
		return mkOr(args...)
	case t.Op == "=":
		return mkEq(args[0], args[1])
	case t.Op == "ite":
		return mkIte(args[0], args[1], args[2])
	case t.Op == "is":
		return mkIs(t.S, args[0])
	case strings.HasPrefix(t.Op, "u:"):
		return mkUnbox(t.Op[2:], t.Sort, args[0])
	case strings.HasPrefix(t.Op, "sel:"):
		return mkSel(t.Op[4:], int(t.I), t.Sort, args[0])
	case strings.HasPrefix(t.Op, "deref:"):
		return mkDeref(t.Op[6:], t.Sort, args[0])
	case t.Op == "seq.++":
		return mkConcat(t.Sort, args...)
	case t.Op == "seq.len":
		return mkSeqLen(args[0])
	case t.Op == "seq.nth":
		return mkNth(args[0], args[1])
	case t.Op == "seq.extract":
		return mkExtract(args[0], args[1], mkAdd(args[1], args[2]))
	case t.Op == "+":
		return mkAdd(args...)
	case t.Op == "*":
		return mkMul(args[0], args[1])
	case t.Op == "<=":
		return mkLe(args[0], args[1])
	case t.Op == "str.++":
		return mkStrConcat(args...)
	case t.Op == "str.prefixof":
		return mkPrefix(args[0], args[1])
	case t.Op == "uf:lastbyte":
		return mkLastByte(args[0])
	case t.Op == "uf:itoa":
		return itoa(args[0])
	case t.Op == "uf:strofrune":
		return strOfRune(args[0])
	case t.Op == "uf:strofrunes":
		return strOfRunes(args[0])
	case t.Op == "str.len":
		return mkStrLen(args[0])
	}
	return raw(t.Op, t.Sort, t.I, t.S, args...)
}

// subst replaces terms bottom-up.
func subst(t *Term, m map[*Term]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = rec(a)
			ch = ch || args[i] != a
		}
		r := t
		if ch {
			r = rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// Facts is a set of literals known to hold, used to prune terms and branches.
type Facts struct {
	m    map[*Term]bool
	ctor map[*Term]string // known constructor
}

func newFacts() *Facts { return &Facts{map[*Term]bool{}, map[*Term]string{}} }

func (f *Facts) clone() *Facts {
	g := newFacts()
	for k, v := range f.m {
		g.m[k] = v
	}
	for k, v := range f.ctor {
		g.ctor[k] = v
	}
	return g
}

func (f *Facts) add(t *Term, v bool) {
	if t.Op == "not" {
		f.add(t.Args[0], !v)
		return
	}
	f.m[t] = v
	if t.Op == "and" && v {
		for _, a := range t.Args {
			f.add(a, true)
		}
	}
	if t.Op == "or" && !v {
		for _, a := range t.Args {
			f.add(a, false)
		}
	}
	if t.Op == "is" && v {
		f.ctor[t.Args[0]] = t.S
	}
	if t.Op == "=" && v {
		a, b := t.Args[0], t.Args[1]
		if isCtor(a.Op) && !isCtor(b.Op) {
			f.ctor[b] = a.Op
		}
		if isCtor(b.Op) && !isCtor(a.Op) {
			f.ctor[a] = b.Op
		}
	}
}

// lookup: 1 true, 0 false, -1 unknown
func (f *Facts) lookup(t *Term) int {
	if t == tTrue {
		return 1
	}
	if t == tFalse {
		return 0
	}
	if v, ok := f.m[t]; ok {
		if v {
			return 1
		}
		return 0
	}
	switch t.Op {
	case "not":
		switch f.lookup(t.Args[0]) {
		case 1:
			return 0
		case 0:
			return 1
		}
	case "is":
		if c, ok := f.ctor[t.Args[0]]; ok {
			if c == t.S {
				return 1
			}
			return 0
		}
	case "and":
		all := true
		for _, a := range t.Args {
			switch f.lookup(a) {
			case 0:
				return 0
			case -1:
				all = false
			}
		}
		if all {
			return 1
		}
	case "or":
		none := true
		for _, a := range t.Args {
			switch f.lookup(a) {
			case 1:
				return 1
			case -1:
				none = false
			}
		}
		if none {
			return 0
		}
	case "=":
		// equality with a literal different from a known one
		a, b := t.Args[0], t.Args[1]
		if isLit(a.Op) {
			a, b = b, a
		}
		if isLit(b.Op) {
			if l, ok := f.litOf(a); ok && l != b {
				return 0
			}
		}
	}
	return -1
}

func (f *Facts) litOf(a *Term) (*Term, bool) {
	for k, v := range f.m {
		if v && k.Op == "=" {
			if k.Args[0] == a && isLit(k.Args[1].Op) {
				return k.Args[1], true
			}
			if k.Args[1] == a && isLit(k.Args[0].Op) {
				return k.Args[0], true
			}
		}
	}
	return nil, false
}

// simp prunes t under the facts.
func (f *Facts) simp(t *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t.Sort == sBool {
			switch f.lookup(t) {
			case 1:
				return tTrue
			case 0:
				return tFalse
			}
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		if t.Op == "ite" {
			c := rec(t.Args[0])
			var r *Term
			switch c {
			case tTrue:
				r = rec(t.Args[1])
			case tFalse:
				r = rec(t.Args[2])
			default:
				r = mkIte(c, rec(t.Args[1]), rec(t.Args[2]))
			}
			memo[t] = r
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = rec(a)
			ch = ch || args[i] != a
		}
		r := t
		if ch {
			r = rebuild(t, args)
			if r.Sort == sBool {
				switch f.lookup(r) {
				case 1:
					r = tTrue
				case 0:
					r = tFalse
				}
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func (t *Term) String() string {
	if t == nil {
		return "<nil>"
	}
	if t.size > 400 {
		return fmt.Sprintf("<%s term #%d of size %d>", t.Op, t.ID, t.size)
	}
	return t.str()
}

func (t *Term) str() string {
	switch t.Op {
	case "int":
		return fmt.Sprint(t.I)
	case "str":
		return fmt.Sprintf("%q", t.S)
	case "const":
		return t.S
	case "loc":
		return fmt.Sprintf("&o%d%s", t.I, t.S)
	}
	if len(t.Args) == 0 {
		return t.Op
	}
	var b strings.Builder
	op := t.Op
	if op == "is" {
		op = "is-" + t.S
	}
	if strings.HasPrefix(op, "sel:") {
		op = fmt.Sprintf("%s.%d", op[4:], t.I)
	}
	if strings.HasPrefix(op, "fn:") || strings.HasPrefix(op, "pathptr") {
		op += t.S
	}
	b.WriteString("(" + op)
	for _, a := range t.Args {
		b.WriteString(" " + a.str())
	}
	b.WriteString(")")
	return b.String()
}

// walk visits every distinct subterm once.
func walk(visit func(*Term) bool, ts ...*Term) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if !visit(t) {
			return
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	for _, t := range ts {
		rec(t)
	}
}

func containsOp(t *Term, op string) bool {
	found := false
	walk(func(x *Term) bool {
		if x.Op == op {
			found = true
		}
		return !found
	}, t)
	return found
}
