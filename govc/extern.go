package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func sortStrings(s []string) { sort.Strings(s) }

// pure external packages: their functions are functions of the argument values.
var purePkgs = map[string]bool{"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "math": true,
	"encoding/asn1": true, "errors": true, "fmt": true, "bytes": true, "path/filepath": true, "path": true}

// effectful external packages: a call is an event in the ghost trace and its results are unknown.
var effectPkgs = map[string]bool{"os": true, "io/ioutil": true, "io": true, "flag": true, "go/printer": true, "os/exec": true}

var pureExceptions = map[string]bool{"fmt.Fprintf": true, "fmt.Fprintln": true, "fmt.Fprint": true, "fmt.Printf": true, "fmt.Println": true, "fmt.Print": true}

func registerErr() { registerPayload("error", sStr) }

func mkErr(s *Term) *Term { registerErr(); return mkIface("error", s) }

func errText(v *Term) *Term {
	if v.Op == "i:error" {
		return v.Args[0]
	}
	if v.Op == "ite" && (v.Args[1].Op == "i:error" || v.Args[2].Op == "i:error") {
		return mkIte(v.Args[0], errText(v.Args[1]), errText(v.Args[2]))
	}
	return mkUF("errtext", sStr, v)
}

func itoa(t *Term) *Term {
	if t.Op == "int" {
		return mkStr(fmt.Sprint(t.I))
	}
	return mkUF("itoa", sStr, t)
}

func strOfRune(t *Term) *Term {
	if t.Op == "int" {
		return mkStr(string(rune(t.I)))
	}
	return mkUF("strofrune", sStr, t)
}

// strOfRunes is string(t) of a list of runes.
func strOfRunes(t *Term) *Term {
	switch t.Op {
	case "seq.empty":
		return mkStr("")
	case "seq.unit":
		return strOfRune(t.Args[0])
	case "seq.++":
		var out []*Term
		for _, a := range t.Args {
			out = append(out, strOfRunes(a))
		}
		return mkStrConcat(out...)
	case "ite":
		return mkIte(t.Args[0], strOfRunes(t.Args[1]), strOfRunes(t.Args[2]))
	}
	return mkUF("strofrunes", sStr, t)
}

// formatted are the boxing operators of types that say how they are printed.
var formatted = map[string]bool{}

func fmtOne(verb string, v *Term) *Term {
	if strings.HasPrefix(v.Op, "i:") {
		p := v.Args[0]
		switch {
		case formatted[v.Op]:
		case p.Sort == sStr && (verb == "v" || verb == "s"):
			return p
		case p.Sort == sBool && (verb == "v" || verb == "t"):
			return mkIte(p, mkStr("true"), mkStr("false"))
		case p.Sort == sInt && (verb == "v" || verb == "d"):
			return itoa(p)
		case p.Sort == sInt && verb == "c":
			return strOfRune(p)
		}
	}
	if v.Op == "ite" {
		return mkIte(v.Args[0], fmtOne(verb, v.Args[1]), fmtOne(verb, v.Args[2]))
	}
	if verb == "v" || verb == "s" {
		if v.Op == "i:error" {
			return v.Args[0]
		}
		if _, ok := errorTerms.Load(v); ok {
			return mkIte(mkIs("nilV", v), mkUF("fmt_"+verb, sStr, tNilV), errText(v))
		}
	}
	return mkUF("fmt_"+verb, sStr, v)
}

// errorTerms are values that were of type error where they became arguments of fmt, which prints their Error().
var errorTerms sync.Map

func seqParts(t *Term) ([]*Term, bool) {
	switch t.Op {
	case "seq.empty":
		return nil, true
	case "seq.unit":
		return []*Term{t.Args[0]}, true
	case "seq.++":
		var out []*Term
		for _, a := range t.Args {
			if a.Op != "seq.unit" {
				return nil, false
			}
			out = append(out, a.Args[0])
		}
		return out, true
	}
	return nil, false
}

func sprintf(format *Term, args *Term) *Term {
	parts, ok := seqParts(args)
	if format.Op != "str" || !ok {
		return mkUF("sprintf", sStr, format, args)
	}
	var out []*Term
	f := format.S
	k := 0
	lit := ""
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += string(f[i])
			continue
		}
		i++
		if i >= len(f) {
			return mkUF("sprintf", sStr, format, args)
		}
		if f[i] == '%' {
			lit += "%"
			continue
		}
		verb := ""
		for i < len(f) && strings.IndexByte("#+- 0123456789.", f[i]) >= 0 {
			verb += string(f[i])
			i++
		}
		if i >= len(f) || k >= len(parts) {
			return mkUF("sprintf", sStr, format, args)
		}
		verb += string(f[i])
		out = append(out, mkStr(lit), fmtOne(verb, parts[k]))
		lit = ""
		k++
	}
	if k != len(parts) {
		return mkUF("sprintf", sStr, format, args)
	}
	out = append(out, mkStr(lit))
	return mkStrConcat(out...)
}

// bufCell gives the object and path of the content of a bytes.Buffer or strings.Builder.
func (x *Exec) bufText(st *State, p *Term) *Term {
	o := st.heap[int(p.I)]
	return cellTerm(cellAt(o.cell, append(splitPath(p.S), 0)))
}

func (x *Exec) bufAppend(st *State, p *Term, t *Term) {
	o := st.heap[int(p.I)]
	path := append(splitPath(p.S), 0)
	old := cellAt(o.cell, path)
	n := *o
	n.cell = cellSet(o.cell, path, &Cell{typ: old.typ, term: mkStrConcat(cellTerm(old), t)})
	st.heap[int(p.I)] = &n
	if o.pre {
		st.writes[fmt.Sprintf("%d/%s.0", p.I, p.S)] = true
	}
}

// strOfBytes is the string of a byte slice.
func strOfBytes(b *Term) *Term {
	switch b.Op {
	case "seq.empty":
		return mkStr("")
	case "seq.unit":
		return mkUF("strofbyte", sStr, b.Args[0])
	case "seq.++":
		var parts []*Term
		for _, a := range b.Args {
			parts = append(parts, strOfBytes(a))
		}
		return mkStrConcat(parts...)
	case "ite":
		return mkIte(b.Args[0], strOfBytes(b.Args[1]), strOfBytes(b.Args[2]))
	case "uf:bytesof_uint8":
		return b.Args[0]
	}
	if in, p, lo, n, ok := peeked(b); ok && n.Op == "int" && n.I <= 8 {
		var parts []*Term
		for i := int64(0); i < n.I; i++ {
			parts = append(parts, mkUF("strofbyte", sStr, mkUF("peekbyte", sInt, in, p, mkAdd(lo, mkInt(i)))))
		}
		return mkStrConcat(parts...)
	}
	return mkUF("strof_uint8", sStr, b)
}

func bytesOf(s *Term) *Term {
	seq := seqOf(sInt)
	switch {
	case s.Op == "str":
		var parts []*Term
		for i := 0; i < len(s.S); i++ {
			parts = append(parts, mkUnit(mkInt(int64(s.S[i]))))
		}
		return mkConcat(seq, parts...)
	case s.Op == "str.++":
		var parts []*Term
		for _, a := range s.Args {
			parts = append(parts, bytesOf(a))
		}
		return mkConcat(seq, parts...)
	case s.Op == "uf:strofbyte":
		return mkUnit(s.Args[0])
	case s.Op == "uf:strof_uint8":
		return s.Args[0]
	}
	return mkUF("bytesof_uint8", seq, s)
}

func (x *Exec) newBuf(st *State, ptr types.Type, text *Term) *Term {
	t := ptr.Underlying().(*types.Pointer).Elem()
	id := x.newObj(st, t, x.zeroCell(t), false)
	l := x.loc(id, "", ptr)
	x.bufAppend(st, l, text)
	return l
}

// external gives the meaning of functions outside of the repository.
func (x *Exec) external(f *ssa.Function, args []*Term, c *ssa.CallCommon, st *State, fr *Frame, where string) ([]Outcome, bool) {
	name := f.String()
	if f.Origin() != nil {
		name = f.Origin().String()
	}
	rt := func(i int) types.Type { return f.Signature.Results().At(i).Type() }
	pkg := ""
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pkg = f.Object().Pkg().Path()
	}
	x.w.noteExternal(name)
	switch name {
	case "go/ast.NewIdent":
		t := rt(0).Underlying().(*types.Pointer).Elem()
		id := x.newObj(st, t, x.zeroCell(t), false)
		l := x.loc(id, "", rt(0))
		for i := 0; i < t.Underlying().(*types.Struct).NumFields(); i++ {
			if t.Underlying().(*types.Struct).Field(i).Name() == "Name" {
				x.store(st, raw("loc", "P_String", int64(id), fmt.Sprintf(".%d", i)), args[0], nil, where)
			}
		}
		return retOut(st, fr, l), true
	case "go/token.NewFileSet":
		return retOut(st, fr, mkUF("newfileset", sortOf(rt(0)))), true
	case "go/printer.Fprint":
		perr := fresh("printerr", sV)
		x.event(st, "print", nil, args[0], args[2], perr)
		return retOut(st, fr, perr), true
	case "errors.New":
		return retOut(st, fr, mkErr(x.resolve(st, args[0]))), true
	case "fmt.Errorf":
		return retOut(st, fr, mkErr(st.facts.simp(sprintf(args[0], x.resolve(st, args[1]))))), true
	case "fmt.Sprintf":
		return retOut(st, fr, st.facts.simp(sprintf(args[0], x.resolve(st, args[1])))), true
	case "fmt.Sprint":
		if ps, ok := seqParts(x.resolve(st, args[0])); ok && len(ps) == 1 {
			return retOut(st, fr, fmtOne("v", ps[0])), true
		}
	case "strconv.Itoa":
		return retOut(st, fr, itoa(args[0])), true
	case "strconv.FormatBool":
		return retOut(st, fr, mkIte(args[0], mkStr("true"), mkStr("false"))), true
	case "strconv.FormatInt":
		if args[1].Op == "int" && args[1].I == 10 {
			return retOut(st, fr, itoa(args[0])), true
		}
	case "strings.ContainsRune", "strings.IndexRune":
		if args[0].Op == "str" && utf8.ValidString(args[0].S) && !strings.ContainsRune(args[0].S, utf8.RuneError) {
			var eqs []*Term
			at, found := mkInt(-1), map[rune]bool{}
			for _, r := range args[0].S {
				eqs = append(eqs, mkEq(args[1], mkInt(int64(r))))
			}
			for _, r := range args[0].S {
				if !found[r] {
					found[r] = true
					at = mkIte(mkEq(args[1], mkInt(int64(r))), mkInt(int64(strings.IndexRune(args[0].S, r))), at)
				}
			}
			if name == "strings.ContainsRune" {
				return retOut(st, fr, mkOr(eqs...)), true
			}
			return retOut(st, fr, at), true
		}
	case "strings.HasPrefix":
		return retOut(st, fr, mkPrefix(args[1], args[0])), true
	case "strings.HasSuffix":
		if args[1].Op == "str" && len(args[1].S) == 1 {
			return retOut(st, fr, mkAnd(mkLt(mkInt(0), mkStrLen(args[0])), mkEq(mkLastByte(args[0]), mkInt(int64(args[1].S[0]))))), true
		}
	case "strconv.ParseInt":
		if args[1].Op == "int" && args[1].I == 10 && args[2].Op == "int" && (args[2].I == 0 || args[2].I == 64) {
			v, e := mkUF("strconv.Atoi.0", sInt, args[0]), mkUF("strconv.Atoi.1", sV, args[0])
			x.typeFacts(st, v, rt(0))
			return retOut(st, fr, v, e), true
		}
	case "strings.ReplaceAll":
		return retOut(st, fr, mkUF("strings.Replace.0", sStr, args[0], args[1], args[2], mkInt(-1))), true
	case "bytes.NewBufferString":
		return retOut(st, fr, x.newBuf(st, rt(0), args[0])), true
	case "bytes.NewBuffer":
		if args[0].Op == "seq.empty" {
			return retOut(st, fr, x.newBuf(st, rt(0), mkStr(""))), true
		}
		return retOut(st, fr, x.newBuf(st, rt(0), strOfBytes(args[0]))), true
	case "(*bytes.Buffer).WriteRune", "(*strings.Builder).WriteRune":
		if args[0].Op == "loc" {
			x.bufAppend(st, args[0], strOfRune(args[1]))
			return retOut(st, fr, fresh("n", sInt), tNilV), true
		}
	case "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteByte":
		if args[0].Op == "loc" {
			b := args[1]
			if b.Op == "mod" && b.Args[1].Op == "int" && b.Args[1].I == 256 {
				v := b.Args[0]
				if st.facts.simp(mkAnd(mkLe(mkInt(0), v), mkLe(v, mkInt(255)))) == tTrue {
					b = v
				}
			}
			x.bufAppend(st, args[0], mkUF("strofbyte", sStr, b))
			return retOut(st, fr, tNilV), true
		}
	case "(*bytes.Buffer).WriteString", "(*strings.Builder).WriteString":
		if args[0].Op == "loc" {
			x.bufAppend(st, args[0], args[1])
			return retOut(st, fr, fresh("n", sInt), tNilV), true
		}
	case "io.WriteString":
		if isBuf(args[0]) {
			x.bufAppend(st, args[0].Args[0], args[1])
			return retOut(st, fr, fresh("n", sInt), tNilV), true
		}
	case "(*bytes.Buffer).Write", "(*strings.Builder).Write":
		if args[0].Op == "loc" {
			x.bufAppend(st, args[0], strOfBytes(x.resolve(st, args[1])))
			return retOut(st, fr, fresh("n", sInt), tNilV), true
		}
	case "(*bytes.Buffer).String", "(*strings.Builder).String":
		if args[0].Op == "loc" {
			return retOut(st, fr, x.bufText(st, args[0])), true
		}
	case "(*bytes.Buffer).Bytes":
		if args[0].Op == "loc" {
			return retOut(st, fr, bytesOf(x.bufText(st, args[0]))), true
		}
	case "(*bytes.Buffer).Len", "(*strings.Builder).Len":
		if args[0].Op == "loc" {
			return retOut(st, fr, mkStrLen(x.bufText(st, args[0]))), true
		}
	case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow":
		return retOut(st, fr), true
	case "strings.NewReader":
		return retOut(st, fr, mkUF("strreader", sortOf(rt(0)), args[0])), true
	case "bufio.NewReader":
		v := x.resolve(st, args[0])
		t := rt(0).Underlying().(*types.Pointer).Elem()
		id := x.newObj(st, t, x.zeroCell(t), false)
		if r := x.wrapped(st, args[0]); r != args[0] {
			v = r
		}
		in, fail := mkUF("contents", seqOf(sInt), v), mkUF("failure", sV, v)
		if strings.HasPrefix(v.Op, "i:") && v.Args[0].Op == "uf:strreader" {
			in = mkUF("runesof", seqOf(sInt), v.Args[0].Args[0])
			registerPayload("io.EOF", sInt)
			fail = mkIface("io.EOF", mkInt(0))
		}
		st.assume(mkNot(mkIs("nilV", fail)))
		o := st.heap[id]
		n := *o
		n.cell = cellSet(cellSet(o.cell, []int{0}, &Cell{typ: o.cell.sub[0].typ, term: in}), []int{3}, &Cell{typ: o.cell.sub[3].typ, term: fail})
		st.heap[id] = &n
		return retOut(st, fr, x.loc(id, "", rt(0))), true
	case "(*bufio.Reader).ReadRune":
		if args[0].Op == "loc" {
			return x.readRune(st, fr, args[0]), true
		}
	case "(*bufio.Reader).Peek":
		if args[0].Op == "loc" {
			v := callOf(fr.fn, c)
			if v == nil {
				break
			}
			if bad := peekKept(v); bad != "" {
				x.emitFail(st, "aliasing", "bytes shown by Peek", where, bad)
			}
			return x.peek(st, fr, args[0], args[1], where), true
		}
	case "unicode/utf8.FullRune", "unicode/utf8.DecodeRune":
		if outs, ok := x.peekRune(st, fr, name, x.resolve(st, args[0]), f); ok {
			return outs, true
		}
	case "(*bufio.Reader).UnreadRune":
		if args[0].Op == "loc" {
			return x.unreadRune(st, fr, args[0]), true
		}
	case "(*bufio.Reader).Discard":
		if args[0].Op == "loc" && args[1].Op == "int" {
			return x.discardRunes(st, fr, args[0], args[1].I, where), true
		}
	}
	if pkg == "flag" {
		if outs, ok := x.flagCall(name, c, args, st, fr, where); ok {
			return outs, true
		}
		return nil, false
	}
	if strings.HasPrefix(name, "fmt.Fprint") && x.spec == 0 {
		if outs, ok := x.fprint(name, args, st, fr); ok {
			return outs, true
		}
	}
	if name == "strings.Contains" && args[1].Sort == sStr {
		for _, p := range concatParts(args[0]) {
			if p == args[1] {
				return retOut(st, fr, tTrue), true
			}
		}
	}
	if pkg == "" || !(purePkgs[pkg] || effectPkgs[pkg]) {
		return nil, false
	}
	pure := purePkgs[pkg] && !pureExceptions[name] && f.Signature.Recv() == nil
	var as []*Term
	for _, a := range args {
		if strings.HasPrefix(a.Op, "fn:") {
			a = mkUF("func_"+sanitize(a.Op), a.Sort)
		}
		as = append(as, x.resolve(st, a))
	}
	if name == "os.Exit" {
		x.event(st, "os.Exit", sigTypes(nil, f.Signature), as...)
		return []Outcome{{kind: "exit", st: st, fr: fr, note: where}}, true
	}
	if pure {
		short := strings.TrimPrefix(name, pkg+".")
		var res []*Term
		for i := 0; i < f.Signature.Results().Len(); i++ {
			r := mkUF(fmt.Sprintf("%s.%s.%d", lastSeg(pkg), short, i), sortOf(rt(i)), as...)
			x.typeFacts(st, r, rt(i))
			res = append(res, r)
		}
		x.externFacts(st, name, as, res)
		return retOut(st, fr, res...), true
	}
	var recv types.Type
	if f.Signature.Recv() != nil {
		recv = f.Signature.Recv().Type()
	}
	if name == "os.Create" {
		t := f.Signature.Results()
		res := x.freshResults(f.Signature, st)
		x.event(st, "os.OpenFile", []types.Type{types.Typ[types.String], types.Typ[types.Int], nil, t.At(0).Type()},
			as[0], mkInt(int64(os.O_RDWR|os.O_CREATE|os.O_TRUNC)), mkIface("ev_perm", mkInt(0666)), res[0], res[1])
		return retOut(st, fr, res...), true
	}
	if name == "(*os.File).WriteString" {
		as[1] = bytesOf(as[1])
		res := x.freshResults(f.Signature, st)
		t := sigTypes(recv, f.Signature)
		t[1] = types.NewSlice(types.Typ[types.Uint8])
		x.event(st, "(*os.File).Write", t, append(append([]*Term{}, as...), res...)...)
		return retOut(st, fr, res...), true
	}
	res := x.freshResults(f.Signature, st)
	x.event(st, sameEffect(name), sigTypes(recv, f.Signature), append(append([]*Term{}, as...), res...)...)
	return retOut(st, fr, res...), true
}

func lastSeg(p string) string { return p[strings.LastIndexByte(p, '/')+1:] }

// externFacts are the assumed facts about pure library functions.
func (x *Exec) externFacts(st *State, name string, as, res []*Term) {
	switch name {
	case "strings.Split":
		if as[1].Op == "str" && as[1].S != "" {
			st.assume(mkLe(mkInt(1), mkSeqLen(res[0])))
			x.w.assumption("strings.Split with a non-empty separator returns at least one element")
		}
	case "strconv.ParseUint":
		if as[2].Op == "int" && as[2].I == 8 {
			st.assume(mkImplies(mkIs("nilV", res[1]), mkAnd(mkLe(mkInt(0), res[0]), mkLe(res[0], mkInt(255)))))
			x.w.assumption("strconv.ParseUint with bit size 8 and no error returns a value of 0 to 255")
		}
	}
}

// wrapped is the reader behind a reader of the program whose Read has a contract: what that says is that it delivers what
// the reader it wraps delivers, up to the first error, and then this error for ever.
func (x *Exec) wrapped(st *State, v *Term) *Term {
	if !strings.HasPrefix(v.Op, "i:") || v.Args[0].Op != "loc" || v.Args[0].S != "" {
		return v
	}
	o := st.heap[int(v.Args[0].I)]
	if o == nil || o.cell == nil {
		return v
	}
	n, ok := types.Unalias(o.cell.typ).(*types.Named)
	if !ok || !inProgram(n.Obj().Pkg()) {
		return v
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return v
	}
	read := x.w.prog.LookupMethod(types.NewPointer(n), n.Obj().Pkg(), "Read")
	if read == nil || x.w.contracts[read] == nil {
		return v
	}
	in, fresh := -1, true
	for i := 0; i < s.NumFields(); i++ {
		f := x.resolve(st, cellTerm(o.cell.sub[i]))
		switch typeName(types.Unalias(s.Field(i).Type())) {
		case "io.Reader":
			in = i
		case "error":
			fresh = fresh && f == tNilV
		default:
			fresh = false
		}
	}
	if in < 0 || !fresh {
		return v
	}
	x.w.assumption("bufio.Reader over a reader that passes on what another one delivers, and keeps failing once that failed, delivers the text of that one and its first error")
	return x.resolve(st, cellTerm(o.cell.sub[in]))
}

// ---- the model of bufio.Reader: a sequence of characters, a position, and the error reported at the end

func (x *Exec) readerParts(st *State, p *Term) (o *Obj, base []int, in, pos, unread, fail *Term) {
	o = st.heap[int(p.I)]
	base = splitPath(p.S)
	g := func(i int) *Term { return cellTerm(cellAt(o.cell, append(append([]int{}, base...), i))) }
	return o, base, g(0), g(1), g(2), g(3)
}

func (x *Exec) readerFacts(st *State, id int) {
	o := st.heap[id]
	in, pos := cellTerm(o.cell.sub[0]), cellTerm(o.cell.sub[1])
	st.assume(mkLe(mkInt(0), pos))
	st.assume(mkLe(pos, mkSeqLen(in)))
	st.assume(mkImplies(cellTerm(o.cell.sub[2]), mkLt(mkInt(0), pos)))
	st.assume(mkNot(mkIs("nilV", cellTerm(o.cell.sub[3]))))
}

func (x *Exec) readerSet(st *State, p *Term, i int, v *Term) {
	o := st.heap[int(p.I)]
	path := append(splitPath(p.S), i)
	old := cellAt(o.cell, path)
	n := *o
	n.cell = cellSet(o.cell, path, &Cell{typ: old.typ, term: v})
	st.heap[int(p.I)] = &n
	if o.pre {
		st.writes[fmt.Sprintf("%d/%s.%d", p.I, p.S, i)] = true
	}
}

func (x *Exec) readRune(st *State, fr *Frame, p *Term) []Outcome {
	_, _, in, pos, _, fail := x.readerParts(st, p)
	more := st.facts.simp(mkLt(pos, mkSeqLen(in)))
	var outs []Outcome
	if more != tFalse {
		s, f := st, fr
		if more != tTrue {
			s, f = st.clone(), fr.clone()
		}
		s.assume(more)
		r := mkNth(in, pos)
		s.assume(mkLe(mkInt(0), r))
		n := fresh("size", sInt)
		x.readerSet(s, p, 1, mkAdd(pos, mkInt(1)))
		x.readerSet(s, p, 2, tTrue)
		outs = append(outs, Outcome{kind: "ret", st: s, fr: f, res: []*Term{r, n, tNilV}})
	}
	if more != tTrue {
		st.assume(mkNot(more))
		x.readerSet(st, p, 2, tFalse)
		outs = append(outs, Outcome{kind: "ret", st: st, fr: fr, res: []*Term{mkInt(0), mkInt(0), fail}})
	}
	return outs
}

func (x *Exec) unreadRune(st *State, fr *Frame, p *Term) []Outcome {
	_, _, _, pos, unread, _ := x.readerParts(st, p)
	ok := st.facts.simp(unread)
	var outs []Outcome
	if ok != tTrue {
		s, f := st.clone(), fr.clone()
		s.assume(mkNot(ok))
		outs = append(outs, Outcome{kind: "ret", st: s, fr: f, res: []*Term{mkErr(mkStr("bufio: invalid use of UnreadRune"))}})
	}
	if ok != tFalse {
		st.assume(ok)
		st.assume(mkLt(mkInt(0), pos))
		x.readerSet(st, p, 1, mkSub(pos, mkInt(1)))
		x.readerSet(st, p, 2, tFalse)
		outs = append(outs, Outcome{kind: "ret", st: st, fr: fr, res: []*Term{tNilV}})
	}
	return outs
}

// discardRunes models Discard(n): it counts bytes, so the characters discarded must be known to be ASCII.
func (x *Exec) discardRunes(st *State, fr *Frame, p *Term, n int64, where string) []Outcome {
	_, _, in, pos, _, _ := x.readerParts(st, p)
	for k := int64(0); k < n; k++ {
		at := mkAdd(pos, mkInt(k))
		ok := mkAnd(mkLt(at, mkSeqLen(in)), mkLe(mkInt(0), mkNth(in, at)), mkLt(mkNth(in, at), mkInt(128)))
		x.emit(st, "safety", "discarded bytes are whole characters", nil, where, ok)
		st.assume(ok)
	}
	x.readerSet(st, p, 1, mkAdd(pos, mkInt(n)))
	x.readerSet(st, p, 2, tFalse)
	return retOut(st, fr, fresh("n", sInt), tNilV)
}

// intrinsic is used for deferred calls.
func (x *Exec) intrinsic(f *ssa.Function, args []*Term, c *ssa.CallCommon, st *State, fr *Frame, where string) ([]*Term, bool) {
	if x.inProg(f) {
		return nil, false
	}
	outs, ok := x.external(f, args, c, st, fr, where)
	if !ok || len(outs) != 1 {
		return nil, false
	}
	return outs[0].res, true
}

// asciiClass are the ASCII members of the character classes of package unicode, as ranges.
var asciiClass = map[string][][2]int64{
	"uf:unicode.IsLetter.0": {{'A', 'Z'}, {'a', 'z'}},
	"uf:unicode.IsDigit.0":  {{'0', '9'}},
	"uf:unicode.IsNumber.0": {{'0', '9'}},
	"uf:unicode.IsUpper.0":  {{'A', 'Z'}},
	"uf:unicode.IsLower.0":  {{'a', 'z'}},
	"uf:unicode.IsSpace.0":  {{9, 13}, {32, 32}},
}

func asciiFact(t *Term) *Term {
	r := t.Args[0]
	var in []*Term
	for _, c := range asciiClass[t.Op] {
		in = append(in, mkAnd(mkLe(mkInt(c[0]), r), mkLe(r, mkInt(c[1]))))
	}
	return mkImplies(mkAnd(mkLe(mkInt(0), r), mkLt(r, mkInt(128))), mkEq(t, mkOr(in...)))
}

// sameEffect maps deprecated functions to what they are wrappers of.
func init() { registerPayload("ev_perm", sInt) }

func sameEffect(name string) string {
	switch name {
	case "io/ioutil.WriteFile", "io/ioutil.ReadFile":
		return "os." + strings.TrimPrefix(name, "io/ioutil.")
	case "io/ioutil.ReadAll":
		return "io.ReadAll"
	}
	return name
}
