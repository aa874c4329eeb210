package asn1go

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"testing/iotest"
)

func init() {
	for _, p := range []string{"C05", "C06", "C07", "C08"} {
		vProps[p] = replayParser
	}
	vProps["C03"] = replayReaders
	vProps["C04"] = replayErrors
	vProps["C09"] = replayGrammar
}

// vProject is what a property says about a module.
func vProject(prop string, m ModuleDefinition) []string {
	var out []string
	switch prop {
	case "C05":
		out = append(out, vDump(m.ModuleIdentifier, 0), fmt.Sprint(m.TagDefault, m.ExtensibilityImplied), vDump(m.ModuleBody.Imports, 0))
		for _, a := range m.ModuleBody.AssignmentList {
			switch a := a.(type) {
			case TypeAssignment:
				out = append(out, fmt.Sprintf("%s ::= %T", a.TypeReference, a.Type))
			case ValueAssignment:
				out = append(out, fmt.Sprintf("%s %T ::= %T", a.ValueReference, a.Type, a.Value))
			default:
				out = append(out, fmt.Sprintf("%T", a))
			}
		}
	case "C06":
		for _, a := range m.ModuleBody.AssignmentList {
			out = append(out, vDumpV(vErase(reflect.ValueOf(a)), 0))
		}
	case "C07":
		for _, a := range m.ModuleBody.AssignmentList {
			vWalk(reflect.ValueOf(a), func(v reflect.Value) {
				if c, ok := v.Interface().(ConstraintedType); ok {
					out = append(out, fmt.Sprintf("%T %s", c.Type, vDump(c.Constraint, 0)))
				}
			})
		}
	case "C08":
		for _, a := range m.ModuleBody.AssignmentList {
			vWalk(reflect.ValueOf(a), func(v reflect.Value) {
				switch x := v.Interface().(type) {
				case Number, Real, Boolean, ObjectIdentifierValue, DefinedValue, IdentifiedIntegerValue:
					out = append(out, vDump(x, 0))
				}
			})
		}
		vWalk(reflect.ValueOf(m.ModuleBody.Imports), func(v reflect.Value) {
			if x, ok := v.Interface().(GlobalModuleReference); ok {
				out = append(out, vDump(x.AssignedIdentifier, 0))
			}
		})
		for _, c := range m.ModuleIdentifier.DefinitiveIdentifier {
			out = append(out, fmt.Sprint(c.Id))
		}
	}
	return out
}

func vWalk(v reflect.Value, f func(v reflect.Value)) {
	if !v.IsValid() {
		return
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if !v.IsNil() {
			vWalk(v.Elem(), f)
		}
		return
	}
	if v.CanInterface() {
		f(v)
	}
	switch v.Kind() {
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			vWalk(v.Index(i), f)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			vWalk(v.Field(i), f)
		}
	}
}

// vErase drops constraints and values of DEFAULT and assignments.
func vErase(v reflect.Value) reflect.Value {
	if !v.IsValid() {
		return v
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			return v
		}
		return vErase(v.Elem())
	case reflect.Struct:
		if c, ok := v.Interface().(ConstraintedType); ok {
			return vErase(reflect.ValueOf(c.Type))
		}
		if c, ok := v.Interface().(ValueAssignment); ok {
			return reflect.ValueOf([]interface{}{c.ValueReference, vErase(reflect.ValueOf(c.Type)).Interface()})
		}
		var l []interface{}
		l = append(l, v.Type().Name())
		for i := 0; i < v.NumField(); i++ {
			fv := v.Field(i)
			n := v.Type().Field(i).Name
			if n == "Default" {
				l = append(l, !fv.IsNil())
				continue
			}
			if !fv.CanInterface() {
				continue
			}
			if e := vErase(fv); e.IsValid() && e.CanInterface() {
				l = append(l, e.Interface())
			} else {
				l = append(l, nil)
			}
		}
		return reflect.ValueOf(l)
	case reflect.Slice:
		l := []interface{}{v.Type().Name()}
		for i := 0; i < v.Len(); i++ {
			l = append(l, vErase(v.Index(i)).Interface())
		}
		return reflect.ValueOf(l)
	}
	return v
}

func vFirstDiff(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "nothing", "nothing"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return fmt.Sprintf("item %d is %s, written is %s", i, x, y)
		}
	}
	return ""
}

func replayParser(h *vh) {
	h.rep.Rule = "random modules written in three layouts and parsed back, together with a text parsed in between; the part of the module the property speaks of compared with what was written; non-trivial if the module has assignments"
	var last *ModuleDefinition
	var lastWant []string
	lastText := ""
	for k := 0; !h.over(); k++ {
		g := &vgen{r: h.rnd}
		m, t := g.module()
		text := g.text(t, k%3)
		h.try("parsed", text, len(m.ModuleBody.AssignmentList) > 0, func() string {
			r, err := ParseString(text)
			if err != nil {
				return fmt.Sprintf("is refused: %v", err)
			}
			want := vProject(h.prop, m)
			if d := vFirstDiff(vProject(h.prop, *r), want); d != "" {
				return d
			}
			if last != nil {
				if d := vFirstDiff(vProject(h.prop, *last), lastWant); d != "" {
					return "the module parsed before, from " + lastText + ", has changed: " + d
				}
			}
			last, lastWant, lastText = r, want, text
			return ""
		})
	}
}

// vTexts are texts with and without mistakes.
func vTexts(h *vh, g *vgen) string {
	_, t := g.module()
	for i := 0; i < g.n(3); i++ {
		t = vMutate(g, t)
	}
	s := g.text(t, g.n(3))
	if g.p(30) {
		b := []byte(s)
		for i := 0; i <= g.n(3) && len(b) > 1; i++ {
			k := g.n(len(b))
			switch g.n(4) {
			case 0:
				b[k] = byte(g.n(256))
			case 1:
				b = append(b[:k], b[k+1:]...)
			case 2:
				b = b[:k]
			default:
				b = append(b[:k], append([]byte(g.of("--", "/*", "*/", "\xff", "é", "\x00", "1", "a", "-", "[", "e", "\r")), b[k:]...)...)
			}
		}
		s = string(b)
	}
	return s
}

var vAllTokens = []string{"{", "}", "<", ">", ",", ".", "(", ")", "[", "]", "-", ":", "=", "\"", "'", ";", "@", "|", "!", "^", "::=", "..", "...", "[[", "]]", "5", "0", "a", "e", "A", "M", "1.5e3"}

func init() {
	for w := range vReserved {
		vAllTokens = append(vAllTokens, w)
	}
}

func vMutate(g *vgen, t []string) []string {
	t = append([]string{}, t...)
	if len(t) == 0 {
		return t
	}
	k := g.n(len(t))
	switch g.n(7) {
	case 0:
		return append(t[:k], t[k+1:]...)
	case 1:
		return append(t[:k], append([]string{vAllTokens[g.n(len(vAllTokens))]}, t[k:]...)...)
	case 2:
		t[k] = vAllTokens[g.n(len(vAllTokens))]
	case 3:
		j := g.n(len(t))
		t[k], t[j] = t[j], t[k]
	case 4:
		return append(t[:k], append([]string{t[k]}, t[k:]...)...)
	case 5:
		j := k + g.n(len(t)-k)
		return append(t, t[k:j]...)
	default:
		return t[:k]
	}
	return t
}

var errReader = errors.New("the verification reader is broken")

type vReader struct {
	data   string
	pos    int
	step   int
	fail   error
	with   bool // the error comes together with the last data
	zeroes int
	after  string // what can be read after the first failure, if again
	again  bool   // it fails only once
}

func (r *vReader) Read(p []byte) (int, error) {
	if r.zeroes > 0 && r.pos%3 == 1 {
		r.zeroes--
		return 0, nil
	}
	if r.pos >= len(r.data) {
		e := r.fail
		if r.again {
			r.data, r.pos, r.fail, r.again, r.with = r.after, 0, io.EOF, false, false
		}
		return 0, e
	}
	n := r.step
	if n > len(p) {
		n = len(p)
	}
	if n > len(r.data)-r.pos {
		n = len(r.data) - r.pos
	}
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	if r.with && r.pos >= len(r.data) {
		e := r.fail
		if r.again {
			r.data, r.pos, r.fail, r.again, r.with = r.after, 0, io.EOF, false, false
		}
		return n, e
	}
	return n, nil
}

func vEither(m *ModuleDefinition, err error) string {
	if (m == nil) == (err == nil) {
		return fmt.Sprintf("returns module %v and error %v", m != nil, err)
	}
	return ""
}

func replayReaders(h *vh) {
	h.rep.Rule = "random texts, whole, truncated and damaged, as string, stream in chunks of 1 to 4096 bytes and file; readers failing at any offset; non-trivial if the text is not empty"
	dir := os.Getenv("VERIF_SCRATCH")
	for i, p := range []string{filepath.Join(dir, "no-such-file"), dir, filepath.Join(dir, "no-such-dir", "x")} {
		h.try("file", fmt.Sprintf("path %d %s", i, filepath.Base(p)), true, func() string {
			m, err := ParseFile(p)
			if m != nil || err == nil {
				return fmt.Sprintf("unreadable, returns module %v and error %v", m != nil, err)
			}
			return ""
		})
	}
	for _, s := range []string{"", " ", "\n", "--", "/*", "/* /*", "a-", "-", "[", ".", "..", ":", "::", "5", "\xff", "\xe2\x98", ".\xe2", "[\xe2\x98", ":\xe2\x98", "::\xff", "a\xff", "5\xe2", "-\xe2", "/\xff", "/*\xff", "--\xe2",
		strings.Repeat("(", 5000), strings.Repeat("/*", 3000), "M DEFINITIONS ::= BEGIN A ::= " + strings.Repeat("SEQUENCE OF ", 3000) + "INTEGER END",
		"M DEFINITIONS ::= BEGIN A ::= INTEGER (" + strings.Repeat("(", 2000) + "1" + strings.Repeat(")", 2000) + ") END",
		"M DEFINITIONS ::= BEGIN A ::= INTEGER" + strings.Repeat(" -- x\n", 2000) + " END", strings.Repeat("a", 100000), strings.Repeat("9", 10000), "M " + strings.Repeat(" ", 5000) + "DEFINITIONS ::= BEGIN END"} {
		h.try("special", fmt.Sprintf("%.200q (%d bytes)", s, len(s)), len(s) > 0, func() string {
			m, err := ParseString(s)
			if w := vEither(m, err); w != "" {
				return w
			}
			m2, err2 := ParseStream(&vReader{data: s, step: 1, fail: io.EOF})
			if w := vEither(m2, err2); w != "" {
				return w
			}
			m3, err3 := ParseStream(&vReader{data: s, step: 7, fail: errReader})
			if m3 != nil || err3 == nil {
				return "a failing reader is not reported"
			}
			return ""
		})
	}
	base := "M DEFINITIONS ::= BEGIN -- c --\na INTEGER ::= 5 /* x */ A ::= [1] SEQUENCE { b INTEGER (1..5) DEFAULT 1.5e3, ... } B-c ::= [[ ]] END"
	for k := 0; k <= len(base); k++ {
		for _, step := range []int{1, 3, 4096} {
			for _, with := range []bool{false, true} {
				for _, e := range []error{errReader, io.ErrUnexpectedEOF, fmt.Errorf("wrapped %w", io.EOF), os.ErrClosed} {
					h.try("failing", fmt.Sprintf("reader failing with %q after %q in steps of %d, with data %v", e, base[:k], step, with), true, func() string {
						m, err := ParseStream(&vReader{data: base[:k], step: step, fail: e, with: with})
						if m != nil || err == nil {
							return fmt.Sprintf("reader failure gives module %v and error %v", m != nil, err)
						}
						m, err = ParseStream(&vReader{data: base[:k], step: step, fail: e, with: with, again: true, after: base[k:]})
						if m != nil || err == nil {
							return fmt.Sprintf("reader failing once gives module %v and error %v", m != nil, err)
						}
						return ""
					})
				}
			}
		}
	}
	for k := 0; !h.over(); k++ {
		g := &vgen{r: h.rnd}
		s := vTexts(h, g)
		h.try("text", fmt.Sprintf("%q", s), s != "", func() string {
			m, err := ParseString(s)
			if w := vEither(m, err); w != "" {
				return w
			}
			for _, rd := range []io.Reader{&vReader{data: s, step: 1, fail: io.EOF}, &vReader{data: s, step: 1 + g.n(64), fail: io.EOF, with: true, zeroes: 3}, iotest.HalfReader(strings.NewReader(s)), bytes.NewReader([]byte(s))} {
				m2, err2 := ParseStream(rd)
				if w := vEither(m2, err2); w != "" {
					return "as a stream " + w
				}
				if (err == nil) != (err2 == nil) || err != nil && err.Error() != err2.Error() || err == nil && !eq(*m, *m2) {
					return fmt.Sprintf("as a stream gives %v, as a string %v", err2, err)
				}
			}
			if k%20 == 0 {
				f := filepath.Join(dir, "in.asn1")
				os.WriteFile(f, []byte(s), 0600)
				m3, err3 := ParseFile(f)
				if w := vEither(m3, err3); w != "" {
					return "as a file " + w
				}
				if (err == nil) != (err3 == nil) || err == nil && !eq(*m, *m3) {
					return fmt.Sprintf("as a file gives %v, as a string %v", err3, err)
				}
			}
			at := g.n(len(s) + 1)
			m4, err4 := ParseStream(&vReader{data: s[:at], step: 1 + g.n(100), fail: errReader, with: g.p(50)})
			if m4 != nil || err4 == nil {
				return fmt.Sprintf("a reader failing after %d bytes gives module %v and error %v", at, m4 != nil, err4)
			}
			m4, err4 = ParseStream(&vReader{data: s[:at], step: 1 + g.n(100), fail: errReader, with: g.p(50), again: true, after: s[at:]})
			if m4 != nil || err4 == nil {
				return fmt.Sprintf("a reader failing once after %d bytes gives module %v and error %v", at, m4 != nil, err4)
			}
			return ""
		})
	}
}

func vLine(s string) int {
	n := 1
	for i := 0; i < len(s); i++ {
		if vBreak(s[i]) {
			n++
		}
	}
	return n
}

// replayErrors plants one or more mistakes in a good text and looks at the line reported.
func replayErrors(h *vh) {
	h.rep.Rule = "random modules in which something that can stand nowhere (a token outside of the grammar, an unknown character, a bad word, a number that does not fit) is put at a random place, further mistakes behind it, with all kinds of line ends and comments; the line reported against the number of line ends before; non-trivial always"
	wrong := []string{"@", "\"", "'", "ABSTRACT-SYNTAX", "PDV", "]]]", "#", "~", "_", "\x00", "\xff", "☃", "x-", "X--y", "a--b", "99999999999999999999", "=", ">", "ENCODED", "*", "$"}
	for k := 0; !h.over(); k++ {
		g := &vgen{r: h.rnd}
		_, t := g.module()
		at := g.n(len(t) + 1)
		w := wrong[g.n(len(wrong))]
		before := g.text(t[:at], vNoisy)
		lead := ""
		if at > 0 {
			lead = g.space()
			for lead == "" {
				lead = " "
			}
		} else if g.p(50) {
			lead = g.space()
		}
		after := " " + g.space()
		rest := t[at:]
		if g.p(60) {
			rest = append(append([]string{}, wrong[g.n(len(wrong))]), rest...)
		}
		after += g.text(rest, vNoisy)
		head := before + lead + w
		text := head + after
		want := fmt.Sprintf("line %d: ", vLine(head))
		// the token is read up to its end
		h.try("line", fmt.Sprintf("%q", text), true, func() string {
			m, err := ParseStream(&vReader{data: text, step: 1 + k%50, fail: io.EOF})
			if m != nil || err == nil {
				return fmt.Sprintf("%q at line %d is accepted", w, vLine(head))
			}
			if !strings.HasPrefix(err.Error(), want) {
				return fmt.Sprintf("%q at line %d is reported as %q", w, vLine(head), err)
			}
			return ""
		})
		// a text which ends too early
		if k%4 == 0 && at < len(t) {
			cut := before + lead
			h.try("end", fmt.Sprintf("%q", cut), true, func() string {
				m, err := ParseString(cut)
				if m != nil || err == nil {
					return "a text ending too early is accepted"
				}
				if !strings.HasPrefix(err.Error(), fmt.Sprintf("line %d: ", vLine(cut))) {
					return fmt.Sprintf("the end at line %d is reported as %q", vLine(cut), err)
				}
				return ""
			})
			h.try("reader", fmt.Sprintf("%q and a failing reader", cut), true, func() string {
				m, err := ParseStream(&vReader{data: cut, step: 5, fail: errReader})
				if m != nil || err == nil {
					return "a failing reader is accepted"
				}
				if !strings.HasPrefix(err.Error(), "line ") {
					return fmt.Sprintf("the error is %q", err)
				}
				return ""
			})
		}
	}
}

// ---------------------------------------------------------------------------------------------------- grammar

func vYacc(name string) (int, bool) {
	if k, ok := vReserved[name]; ok {
		return k, true
	}
	return 0, false
}

// vTerm is the terminal of the grammar for a token code.
var vTermNames = map[int]string{OPEN_CURLY: "OPEN_CURLY", CLOSE_CURLY: "CLOSE_CURLY", LESS: "LESS", GREATER: "GREATER", COMMA: "COMMA", DOT: "DOT",
	OPEN_ROUND: "OPEN_ROUND", CLOSE_ROUND: "CLOSE_ROUND", OPEN_SQUARE: "OPEN_SQUARE", CLOSE_SQUARE: "CLOSE_SQUARE", MINUS: "MINUS", COLON: "COLON",
	EQUALS: "EQUALS", QUOTATION_MARK: "QUOTATION_MARK", APOSTROPHE: "APOSTROPHE", SEMICOLON: "SEMICOLON", AT: "AT", PIPE: "PIPE",
	EXCLAMATION: "EXCLAMATION", CARET: "CARET", ASSIGNMENT: "ASSIGNMENT", ELLIPSIS: "ELLIPSIS", RANGE_SEPARATOR: "RANGE_SEPARATOR",
	LEFT_VERSION_BRACKETS: "LEFT_VERSION_BRACKETS", RIGHT_VERSION_BRACKETS: "RIGHT_VERSION_BRACKETS", NUMBER: "NUMBER", EXPONENT: "EXPONENT",
	TYPEORMODULEREFERENCE: "TYPEORMODULEREFERENCE", VALUEIDENTIFIER: "VALUEIDENTIFIER"}

type vRule struct {
	lhs string
	rhs []string
}

type vGrammar struct {
	rules map[string][]int
	all   []vRule
	start string
	null  map[string]bool
}

// vLoadGrammar reads the frozen grammar: one production a line.
func vLoadGrammar(text string) *vGrammar {
	g := &vGrammar{rules: map[string][]int{}, null: map[string]bool{}}
	for _, l := range strings.Split(text, "\n") {
		f := strings.Fields(l)
		if len(f) < 2 || f[1] != ":" {
			continue
		}
		if g.start == "" {
			g.start = f[0]
		}
		g.rules[f[0]] = append(g.rules[f[0]], len(g.all))
		g.all = append(g.all, vRule{f[0], f[2:]})
	}
	for changed := true; changed; {
		changed = false
		for _, r := range g.all {
			ok := true
			for _, s := range r.rhs {
				ok = ok && g.null[s]
			}
			if ok && !g.null[r.lhs] {
				g.null[r.lhs] = true
				changed = true
			}
		}
	}
	return g
}

type vItem struct{ rule, dot, from int }

// accepts is Earley's algorithm.
func (g *vGrammar) accepts(toks []string) bool {
	sets := make([][]vItem, len(toks)+1)
	has := make([]map[vItem]bool, len(toks)+1)
	want := make([]map[string][]vItem, len(toks)+1)
	for i := range has {
		has[i] = map[vItem]bool{}
		want[i] = map[string][]vItem{}
	}
	add := func(i int, it vItem) {
		if !has[i][it] {
			has[i][it] = true
			sets[i] = append(sets[i], it)
		}
	}
	for _, r := range g.rules[g.start] {
		add(0, vItem{r, 0, 0})
	}
	for i := 0; i <= len(toks); i++ {
		for j := 0; j < len(sets[i]); j++ {
			it := sets[i][j]
			r := g.all[it.rule]
			if it.dot == len(r.rhs) {
				for _, p := range want[it.from][r.lhs] {
					add(i, vItem{p.rule, p.dot + 1, p.from})
				}
				continue
			}
			s := r.rhs[it.dot]
			if rs, nt := g.rules[s]; nt {
				want[i][s] = append(want[i][s], it)
				for _, x := range rs {
					add(i, vItem{x, 0, i})
				}
				if g.null[s] {
					add(i, vItem{it.rule, it.dot + 1, it.from})
				}
			} else if i < len(toks) && toks[i] == s {
				add(i+1, vItem{it.rule, it.dot + 1, it.from})
			}
		}
		if i < len(toks) && len(sets[i+1]) == 0 {
			return false
		}
	}
	for _, it := range sets[len(toks)] {
		if it.from == 0 && g.all[it.rule].lhs == g.start && it.dot == len(g.all[it.rule].rhs) {
			return true
		}
	}
	return false
}

func vTerminals(s string) (l []string, ok bool) {
	toks, bad, ok := vTokens(s)
	if !ok || bad >= 0 {
		return nil, false
	}
	for _, t := range toks {
		n, ok := vTermNames[t.code]
		if !ok {
			n = strings.ReplaceAll(t.text, "-", "_")
		}
		l = append(l, n)
	}
	return l, true
}

// vDeriver makes sentences of a grammar.
type vDeriver struct {
	*vGrammar
	cost map[string]int    // of the smallest derivation of a nonterminal
	via  map[string][]vUse // where nonterminals are used
	up   map[string]int    // distance from the start
}

type vUse struct{ rule, pos int }

func vNewDeriver(g *vGrammar) *vDeriver {
	d := &vDeriver{g, map[string]int{}, map[string][]vUse{}, map[string]int{g.start: 0}}
	for changed := true; changed; {
		changed = false
		for _, r := range g.all {
			if c, ok := d.ruleCost(r); ok {
				if old, has := d.cost[r.lhs]; !has || c < old {
					d.cost[r.lhs] = c
					changed = true
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, r := range g.all {
			u, ok := d.up[r.lhs]
			for _, s := range r.rhs {
				if old, has := d.up[s]; ok && (!has || u+1 < old) {
					d.up[s] = u + 1
					changed = true
				}
			}
		}
	}
	for i, r := range g.all {
		if _, ok := d.up[r.lhs]; !ok {
			continue
		}
		if _, ok := d.ruleCost(r); !ok {
			continue
		}
		for j, s := range r.rhs {
			d.via[s] = append(d.via[s], vUse{i, j})
		}
	}
	return d
}

func (d *vDeriver) ruleCost(r vRule) (int, bool) {
	c := 1
	for _, s := range r.rhs {
		if _, nt := d.rules[s]; !nt {
			c++
			continue
		}
		k, ok := d.cost[s]
		if !ok {
			return 0, false
		}
		c += k
	}
	return c, true
}

// derive expands a symbol; with no budget left, in the cheapest way.
func (d *vDeriver) derive(g *vgen, sym string, budget int) []string {
	rules, nt := d.rules[sym]
	if !nt {
		return []string{sym}
	}
	r := rules[g.n(len(rules))]
	if c, ok := d.ruleCost(d.all[r]); !ok || c > budget {
		for _, k := range rules {
			if c, ok := d.ruleCost(d.all[k]); ok && c == d.cost[sym] {
				r = k
			}
		}
	}
	return d.apply(g, r, budget, -1, nil)
}

// apply is the sentence of a rule, with given text for the symbol at hole.
func (d *vDeriver) apply(g *vgen, rule, budget, hole int, text []string) (t []string) {
	for i, s := range d.all[rule].rhs {
		if i == hole {
			t = append(t, text...)
		} else {
			t = append(t, d.derive(g, s, budget/len(d.all[rule].rhs))...)
		}
	}
	return t
}

// using is a sentence with the rule somewhere in it.
func (d *vDeriver) using(g *vgen, rule int) []string {
	t := d.apply(g, rule, 40, -1, nil)
	for sym := d.all[rule].lhs; sym != d.start; {
		uses := d.via[sym]
		u := uses[g.n(len(uses))]
		if g.n(4) > 0 { // usually upwards
			for _, k := range uses {
				if lhs := d.all[k.rule].lhs; d.up[lhs] < d.up[d.all[u.rule].lhs] {
					u = k
				}
			}
		}
		t = d.apply(g, u.rule, 20, u.pos, t)
		sym = d.all[u.rule].lhs
		if len(t) > 300 {
			return nil
		}
	}
	return t
}

// vSpell is a text of a terminal.
func vSpell(g *vgen, term string) string {
	for code, n := range vTermNames {
		if n != term {
			continue
		}
		switch code {
		case NUMBER:
			return strconv.Itoa(g.n(40))
		case EXPONENT:
			return "e"
		case TYPEORMODULEREFERENCE:
			return g.typeName()
		case VALUEIDENTIFIER:
			return g.valName()
		}
		for _, s := range vAllTokens {
			if ts, bad, ok := vTokens(s); ok && bad < 0 && len(ts) == 1 && ts[0].code == code {
				return s
			}
		}
	}
	for w := range RESERVED_WORDS {
		if strings.ReplaceAll(w, "-", "_") == term {
			return w
		}
	}
	return strings.ReplaceAll(term, "_", "-")
}

// vNewSentences parses sentences that use productions which are not in the frozen grammar.
func vNewSentences(h *vh, gr *vGrammar) {
	b, err := os.ReadFile(os.Getenv("VERIF_GRAMMAR_NOW"))
	if err != nil {
		return
	}
	now := vLoadGrammar(string(b))
	if now.start == "" {
		return
	}
	frozen := map[string]bool{}
	for _, r := range gr.all {
		frozen[r.lhs+" : "+strings.Join(r.rhs, " ")] = true
	}
	d := vNewDeriver(now)
	for i, r := range now.all {
		_, reached := d.up[r.lhs]
		if _, ok := d.ruleCost(r); !ok || !reached || frozen[r.lhs+" : "+strings.Join(r.rhs, " ")] {
			continue
		}
		for k := 0; k < 400; k++ {
			g := &vgen{r: h.rnd}
			terms := d.using(g, i)
			if terms == nil {
				continue
			}
			var t []string
			for _, s := range terms {
				t = append(t, vSpell(g, s))
			}
			vCheckAccepted(h, gr, strings.Join(t, " "))
		}
	}
}

func vCheckAccepted(h *vh, gr *vGrammar, s string) {
	terms, ok := vTerminals(s)
	h.try("accepted", s, true, func() string {
		m, err := ParseString(s)
		if err != nil || m == nil {
			return ""
		}
		if !ok {
			return "is accepted although it has text that is no token"
		}
		if !gr.accepts(terms) {
			return "is accepted although it is not in the grammar"
		}
		return ""
	})
}

func replayGrammar(h *vh) {
	h.rep.Rule = "random modules with up to three tokens inserted, removed, replaced, swapped or repeated, text before and after them; what is accepted must be derivable in the frozen grammar (Earley's algorithm), and every unchanged text must be; non-trivial if the text was changed and accepted or refused by both"
	b, err := os.ReadFile(os.Getenv("VERIF_GRAMMAR"))
	if err != nil {
		h.rep.Rule = "no grammar: " + err.Error()
		return
	}
	gr := vLoadGrammar(string(b))
	vNewSentences(h, gr)
	for k := 0; !h.over(); k++ {
		g := &vgen{r: h.rnd}
		_, t := g.module()
		if len(t) > 150 {
			continue
		}
		for i := 0; i < g.n(4); i++ {
			t = vMutate(g, t)
		}
		s := g.text(t, k%2)
		if k%3 == 0 {
			s = g.text(t, vNoisy)
		}
		switch g.n(12) {
		case 0:
			s = s + " " + vAllTokens[g.n(len(vAllTokens))]
		case 1:
			s = vAllTokens[g.n(len(vAllTokens))] + " " + s
		}
		vCheckAccepted(h, gr, s)
	}
}
