package asn1go

import (
	"bytes"
	"errors"
	"fmt"
	goast "go/ast"
	goparser "go/parser"
	goprinter "go/printer"
	gotoken "go/token"
	"sort"
	"strconv"
	"strings"
)

func init() {
	for _, p := range []string{"C11", "C12", "C13", "C14", "C15", "C16", "C17"} {
		vProps[p] = replayGenerator
	}
}

var vPackages = []string{"time", "encoding/asn1", "math/big", "math"}

func vShow(e goast.Node) string {
	if e == nil {
		return "nothing"
	}
	var b bytes.Buffer
	goprinter.Fprint(&b, gotoken.NewFileSet(), e)
	return b.String()
}

// vUntag is a type without struct tags, and the tags in the order of the fields.
func vUntag(e goast.Expr, tags *[]string) {
	goast.Inspect(e, func(n goast.Node) bool {
		if f, ok := n.(*goast.StructType); ok {
			for _, x := range f.Fields.List {
				t := ""
				if x.Tag != nil {
					t, _ = strconv.Unquote(x.Tag.Value)
					x.Tag = nil
				}
				name := "?"
				if len(x.Names) > 0 {
					name = x.Names[0].Name
				}
				parts := []string{}
				if t != "" {
					if strings.HasPrefix(t, `asn1:"`) && strings.HasSuffix(t, `"`) {
						parts = strings.Split(t[6:len(t)-1], ",")
						sort.Strings(parts)
					} else {
						parts = []string{"not an asn1 tag: " + t}
					}
				}
				*tags = append(*tags, name+" "+strings.Join(parts, ","))
			}
		}
		return true
	})
}

type vFile struct {
	pkg     string
	imports []string
	order   []string // type declarations: name, alias or not, struct or not
	types   map[string]string
	tags    map[string]string
	vars    []string
	used    map[string]bool
}

func vNormal(e goast.Expr) string {
	s := vShow(e)
	if b, ok := e.(*goast.BasicLit); ok || strings.HasPrefix(s, "-") {
		if ok {
			s = b.Value
		}
		if n, err := strconv.ParseInt(s, 0, 64); err == nil {
			return fmt.Sprint(n)
		}
		if f, err := strconv.ParseFloat(s, 64); err == nil {
			return fmt.Sprintf("%b", f)
		}
	}
	if c, ok := e.(*goast.CallExpr); ok && len(c.Args) == 1 {
		return vShow(c.Fun) + "(" + vNormal(c.Args[0]) + ")"
	}
	return s
}

func vParse(text string) (*vFile, error) {
	f, err := goparser.ParseFile(gotoken.NewFileSet(), "x.go", text, goparser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	r := &vFile{pkg: f.Name.Name, types: map[string]string{}, tags: map[string]string{}, used: map[string]bool{}}
	goast.Inspect(f, func(n goast.Node) bool {
		if s, ok := n.(*goast.SelectorExpr); ok {
			if x, ok := s.X.(*goast.Ident); ok {
				r.used[x.Name] = true
			}
		}
		return true
	})
	seen := map[string]int{}
	for _, d := range f.Decls {
		g, ok := d.(*goast.GenDecl)
		if !ok {
			return nil, fmt.Errorf("declares something other than packages, types and variables: %s", vShow(d))
		}
		for _, s := range g.Specs {
			switch s := s.(type) {
			case *goast.ImportSpec:
				p, _ := strconv.Unquote(s.Path.Value)
				if s.Name != nil {
					p = s.Name.Name + " " + p
				}
				r.imports = append(r.imports, p)
			case *goast.TypeSpec:
				kind := "defined"
				if s.Assign != 0 {
					kind = "alias"
				}
				if _, ok := s.Type.(*goast.StructType); ok {
					kind += " struct"
				}
				key := fmt.Sprintf("%s#%d", s.Name.Name, seen[s.Name.Name])
				seen[s.Name.Name]++
				r.order = append(r.order, s.Name.Name+" "+kind)
				var tags []string
				vUntag(s.Type, &tags)
				r.types[key] = vShow(s.Type)
				r.tags[key] = strings.Join(tags, "; ")
			case *goast.ValueSpec:
				if g.Tok != gotoken.VAR || len(s.Names) != 1 || len(s.Values) != 1 {
					return nil, fmt.Errorf("not one variable with one value: %s", vShow(s))
				}
				var tags []string
				vt := "untyped"
				if s.Type != nil {
					vUntag(s.Type, &tags)
					vt = vShow(s.Type)
				}
				r.vars = append(r.vars, s.Names[0].Name+" "+vt+" = "+vNormal(s.Values[0]))
				r.types["var "+s.Names[0].Name] = vt
				r.tags["var "+s.Names[0].Name] = strings.Join(tags, "; ")
			}
		}
	}
	sort.Strings(r.vars)
	return r, nil
}

// vAmbiguous: whether an alternative which can not be resolved is reached depends on the order of evaluation.
func vAmbiguous(l AssignmentList, t Type) bool {
	switch tt := t.(type) {
	case ConstraintedType:
		return vAmbiguous(l, tt.Type)
	case TaggedType:
		return vAmbiguous(l, tt.Type)
	case SequenceOfType:
		return vAmbiguous(l, tt.Type)
	case SetOfType:
		return vAmbiguous(l, tt.Type)
	case SequenceType:
		return vAmbiguousC(l, tt.Components, tt.ExtensionAdditions)
	case SetType:
		return vAmbiguousC(l, tt.Components, tt.ExtensionAdditions)
	case ChoiceType:
		for _, a := range tt.AlternativeTypeList {
			if specAltBad(l, a.Type) && specChoiceTagged(l, tt.AlternativeTypeList, 0) || vAmbiguous(l, a.Type) {
				return true
			}
		}
	}
	return false
}

func vAmbiguousC(l AssignmentList, c ComponentTypeList, e ExtensionAdditions) bool {
	for _, x := range c {
		if f, ok := x.(NamedComponentType); ok && vAmbiguous(l, f.NamedType.Type) {
			return true
		}
	}
	for _, x := range e {
		if f, ok := x.(NamedComponentType); ok && vAmbiguous(l, f.NamedType.Type) {
			return true
		}
	}
	return false
}

type vFailing struct {
	after int
	n     int
}

var errVerif = errors.New("no space left on the verification device")

func (w *vFailing) Write(p []byte) (int, error) {
	if w.n+len(p) > w.after {
		k := w.after - w.n
		w.n = w.after
		return k, errVerif
	}
	w.n += len(p)
	return len(p), nil
}

type vCounting struct {
	bytes.Buffer
	calls int
}

func (w *vCounting) Write(p []byte) (int, error) {
	w.calls++
	return w.Buffer.Write(p)
}

func vSetList(m map[string]string) map[string]string { return m }

// vGenerate compares what is generated for a module with the specification.
func vGenerate(prop string, p GenParams, m ModuleDefinition, again ModuleDefinition) string {
	l := m.ModuleBody.AssignmentList
	eff := p
	if eff.IntegerRepr == "" {
		eff.IntegerRepr = "int64"
	}
	gen := NewCodeGenerator(p)
	var w vCounting
	err := gen.Generate(m, &w)
	bad := specModuleBad(eff, again)
	if prop == "C17" {
		if !eq(m, again) {
			return "the module is changed by generating"
		}
		if err == nil {
			var w2, w3 bytes.Buffer
			if e := gen.Generate(again, &w2); e != nil || w2.String() != w.String() {
				return fmt.Sprintf("generating again with the same generator gives something else: %v %s", e, w2.String())
			}
			if e := NewCodeGenerator(p).Generate(again, &w3); e != nil || w3.String() != w.String() {
				return fmt.Sprintf("generating again gives something else: %v %s", e, w3.String())
			}
		}
		return ""
	}
	if prop == "C14" {
		if bad != (err != nil) {
			return fmt.Sprintf("reports %v; that the module can not be generated is %v", err, bad)
		}
		if err != nil && (w.calls > 0 || w.Len() > 0) {
			return fmt.Sprintf("reports %v but writes %q", err, w.String())
		}
		if err == nil {
			if _, e := vParse(w.String()); e != nil {
				return fmt.Sprintf("what is written is not a whole file: %v", e)
			}
			for _, k := range []int{0, w.Len() / 2, w.Len() - 1} {
				if e := NewCodeGenerator(p).Generate(m, &vFailing{after: k}); !errors.Is(e, errVerif) {
					return fmt.Sprintf("writing fails after %d of %d bytes, reported is %v", k, w.Len(), e)
				}
			}
			if e := NewCodeGenerator(p).Generate(m, &vFailing{after: w.Len()}); e != nil {
				return fmt.Sprintf("writing works, reported is %v", e)
			}
		}
		return ""
	}
	if bad || err != nil {
		return ""
	}
	var mods []string
	for _, x := range vPackages {
		if specDeclsNeed(l, eff.IntegerRepr, l, len(l), x) {
			mods = append(mods, x)
		}
	}
	var eb bytes.Buffer
	if e := goprinter.Fprint(&eb, gotoken.NewFileSet(), specFile(eff, m, mods)); e != nil {
		return "" // not expressible
	}
	want, e := vParse(eb.String())
	if e != nil {
		return ""
	}
	got, e := vParse(w.String())
	if e != nil {
		return fmt.Sprintf("generates something which is not Go: %v\n%s", e, w.String())
	}
	differ := func(what string, g, w interface{}) string {
		return fmt.Sprintf("%s: generated %v, specified %v", what, g, w)
	}
	switch prop {
	case "C11":
		for k, v := range want.types {
			if g, ok := got.types[k]; ok && g != v {
				return differ("type of "+k, g, v)
			}
		}
	case "C12":
		for k, v := range want.tags {
			if g, ok := got.tags[k]; ok && g != v && got.types[k] == want.types[k] {
				return differ("tags of "+k, g, v)
			}
		}
	case "C13":
		g := append([]string{}, got.imports...)
		sort.Strings(g)
		sort.Strings(mods)
		if strings.Join(g, " ") != strings.Join(mods, " ") {
			return differ("imports", g, mods)
		}
		var used []string
		for _, x := range vPackages {
			if got.used[x[strings.LastIndex(x, "/")+1:]] {
				used = append(used, x)
			}
		}
		sort.Strings(used)
		if strings.Join(g, " ") != strings.Join(used, " ") {
			return differ("imports against use", g, used)
		}
	case "C15":
		if got.pkg != want.pkg {
			return differ("package", got.pkg, want.pkg)
		}
		if strings.Join(got.order, "; ") != strings.Join(want.order, "; ") {
			return differ("type declarations", got.order, want.order)
		}
		for k, v := range want.types {
			if strings.HasPrefix(k, "var ") {
				continue
			}
			if g := got.types[k]; g != v && (strings.HasSuffix(v, "SET") || strings.HasSuffix(g, "SET")) {
				return differ("alias "+k, g, v)
			}
		}
	case "C16":
		if strings.Join(got.vars, "\n") != strings.Join(want.vars, "\n") {
			return differ("variables", strings.Join(got.vars, "; "), strings.Join(want.vars, "; "))
		}
	}
	return ""
}

// vBuilder makes the same module again and again.
type vBuilder func() ModuleDefinition

func vSeq(fields ...NamedComponentType) Type {
	var c ComponentTypeList
	for _, f := range fields {
		c = append(c, f)
	}
	return SequenceType{Components: c}
}

func vField(i int, t Type) NamedComponentType {
	return NamedComponentType{NamedType: NamedType{Identifier(fmt.Sprintf("field-%d", i)), t}}
}

func vNum(n int) *Value {
	var v Value = Number(n)
	return &v
}

func vLeaves() []Type {
	r := []Type{NullType{}, BooleanType{}, IntegerType{}, RealType{}, CharacterStringType{}, OctetStringType{}, BitStringType{}, EnumeratedType{},
		ObjectIdentifierType{}, AnyType{}, AnyType{"x"}, TypeReference("GeneralizedTime"), TypeReference("UTCTime"), TypeReference("Undefined"),
		SequenceType{}, SetType{}, ChoiceType{}, IntegerType{[]NamedNumber{{"one-a", Number(1)}, {"two", Number(-7)}, {"ref", DefinedValue{"", "some-value"}}}},
		IntegerType{[]NamedNumber{{"one", DefinedValue{"Other", "v"}}}}}
	for _, l := range vStringLex {
		r = append(r, RestrictedStringType{l})
	}
	for _, n := range []string{"To-int", "To-ref", "To-tagged", "To-ctr", "To-time", "To-utc", "To-bits", "To-set", "To-seq", "To-choice", "To-loop", "To-nothing", "To-null", "To-real"} {
		r = append(r, TypeReference(n))
	}
	return r
}

func vConstraint() Constraint {
	return Constraint{SubtypeConstraint{Unions{Intersections{IntersectionElements{Elements: SingleValue{Number(1)}}}}}}
}

func vTarget() []Assignment {
	return []Assignment{
		TypeAssignment{"To-int", IntegerType{}},
		TypeAssignment{"To-real", ConstraintedType{RealType{}, vConstraint()}},
		TypeAssignment{"To-ref", TypeReference("To-int")},
		TypeAssignment{"To-tagged", TaggedType{Tag: Tag{ClassNumber: Number(5)}, Type: TypeReference("To-ref")}},
		TypeAssignment{"To-ctr", ConstraintedType{TypeReference("To-tagged"), vConstraint()}},
		TypeAssignment{"To-time", ConstraintedType{TypeReference("GeneralizedTime"), vConstraint()}},
		TypeAssignment{"To-utc", TypeReference("UTCTime")},
		TypeAssignment{"To-bits", TaggedType{Tag: Tag{ClassNumber: Number(6)}, Type: BitStringType{}}},
		TypeAssignment{"To-set", SetType{}},
		TypeAssignment{"To-seq", SequenceType{}},
		TypeAssignment{"To-choice", ChoiceType{AlternativeTypeList: []NamedType{{"a", BooleanType{}}, {"b", IntegerType{}}}}},
		ValueAssignment{"some-value", IntegerType{}, Number(9)},
	}
}

func vWrappers() []func(t Type) Type {
	w := []func(t Type) Type{
		func(t Type) Type { return t },
		func(t Type) Type { return ConstraintedType{t, vConstraint()} },
		func(t Type) Type { return SequenceOfType{t} },
		func(t Type) Type { return SetOfType{t} },
		func(t Type) Type { return vSeq(vField(1, t)) },
		func(t Type) Type {
			return SetType{Components: ComponentTypeList{vField(1, t), vField(2, BooleanType{})}}
		},
		func(t Type) Type {
			return SequenceType{Components: ComponentTypeList{vField(1, BooleanType{})}, ExtensionAdditions: ExtensionAdditions{vField(2, t), vField(3, IntegerType{})}}
		},
		func(t Type) Type { return ChoiceType{AlternativeTypeList: []NamedType{{"a", t}}} },
		func(t Type) Type { return ChoiceType{AlternativeTypeList: []NamedType{{"a", t}, {"b", BooleanType{}}}} },
		func(t Type) Type { return ChoiceType{AlternativeTypeList: []NamedType{{"b", BooleanType{}}, {"a", t}}} },
		func(t Type) Type { f := vField(1, t); f.IsOptional = true; return vSeq(f) },
		func(t Type) Type { f := vField(1, t); f.Default = vNum(5); return vSeq(f) },
		func(t Type) Type { f := vField(1, t); f.Default = vNum(-12); return vSeq(f) },
		func(t Type) Type {
			f := vField(1, t)
			var v Value = Boolean(true)
			f.Default = &v
			return vSeq(f, vField(2, t))
		},
		func(t Type) Type { return vSeq(vField(1, SetOfType{t}), vField(2, t)) },
		func(t Type) Type { return SequenceType{Components: ComponentTypeList{ComponentsOfComponentType{t}}} },
		func(t Type) Type { return TaggedType{Tag: Tag{ClassNumber: DefinedValue{"", "some-value"}}, Type: t} },
	}
	for _, cl := range []int{CLASS_CONTEXT_SPECIFIC, CLASS_APPLICATION, CLASS_PRIVATE} {
		cl := cl
		w = append(w, func(t Type) Type { return TaggedType{Tag: Tag{cl, Number(3)}, Type: t} },
			func(t Type) Type {
				return TaggedType{Tag: Tag{cl, Number(0)}, Type: t, HasTagType: true, TagType: TAGS_EXPLICIT}
			},
			func(t Type) Type {
				return TaggedType{Tag: Tag{cl, Number(31)}, Type: t, HasTagType: true, TagType: TAGS_IMPLICIT}
			})
	}
	return w
}

func replayGenerator(h *vh) {
	h.rep.Rule = "all types built by up to two constructors over every leaf type and kind of reference, in a module with targets for the references, tagging defaults and integer representations in turn, then random modules; non-trivial if generating succeeds"
	n := 0
	one := func(id string, p GenParams, b vBuilder) {
		m := b()
		for _, a := range m.ModuleBody.AssignmentList {
			t, ok := a.(TypeAssignment)
			v, vok := a.(ValueAssignment)
			if ok && vAmbiguous(m.ModuleBody.AssignmentList, t.Type) || vok && vAmbiguous(m.ModuleBody.AssignmentList, v.Type) {
				return
			}
		}
		eff := p
		if eff.IntegerRepr == "" {
			eff.IntegerRepr = "int64"
		}
		h.try(id, fmt.Sprintf("%#v generated with %#v", vDisplay(m), p), !specModuleBad(eff, m), func() string {
			return vGenerate(h.prop, p, b(), m)
		})
	}
	reprs := []IntegerRepr{"int64", "big.Int", "", "int32"}
	pkgs := []string{"", "pkg", "p", "package_with_a_long_name_0"}
	ws, ls := vWrappers(), vLeaves()
	// one combined module per chunk of the good types, and one module per bad type
	systematic := func(t Type) {
		n++
		p := GenParams{Type: GEN_DECLARATIONS, Package: pkgs[n/5%4], IntegerRepr: reprs[n%3]}
		if n%41 == 0 {
			p.IntegerRepr = "int32"
		}
		td := n / 3 % 2
		if n%97 == 0 {
			td = TAGS_AUTOMATIC
		}
		one("systematic", p, func() ModuleDefinition {
			al := AssignmentList{TypeAssignment{"Tested-type", t}}
			if n%2 == 1 {
				var v Value = Number(n)
				if _, ok := specUnwrap(t).(IntegerType); !ok {
					v = ObjectIdentifierValue{{ID: n}}
				}
				al = append(al, ValueAssignment{"tested-value", t, v}, TypeAssignment{"After", BooleanType{}})
			}
			al = append(al, vTarget()...)
			if n%3 == 0 {
				al = append(vTarget(), al[:len(al)-len(vTarget())]...)
			}
			al = append(al, TypeAssignment{"To-loop", TypeReference("To-loop2")}, TypeAssignment{"To-loop2", ConstraintedType{TypeReference("To-loop"), vConstraint()}})
			if n%5 != 0 { // circular references are errors of their own
				al = al[:len(al)-2]
			}
			return ModuleDefinition{ModuleIdentifier: ModuleIdentifier{Reference: "My-Module-a"}, TagDefault: td, ModuleBody: ModuleBody{AssignmentList: al}}
		})
	}
	for _, w := range ws {
		for _, l := range ls {
			if h.over() {
				return
			}
			systematic(w(l))
		}
	}
	for _, v := range []Value{Number(0), Number(-9223372036854775808), Boolean(true), Boolean(false), Real(0), Real(-1.5), Real(1e300), Real(5e-324), Real(123456789), Real(0.1),
		Real(1e21), specInfinity(1), specInfinity(-1), DefinedValue{"", "x"}, IdentifiedIntegerValue{Name: "x"}, ObjectIdentifierValue{{ID: 1}}} {
		for i, t := range []Type{IntegerType{}, BooleanType{}, RealType{}, TypeReference("T"), TaggedType{Tag: Tag{ClassNumber: Number(1)}, Type: TypeReference("T")}, NullType{}, ObjectIdentifierType{}} {
			for _, tt := range []Type{IntegerType{}, RealType{}, BooleanType{}} {
				for _, r := range reprs {
					_, isb := v.(Boolean)
					_, isr := v.(Real)
					k := specUnwrap(t)
					if _, ok := k.(TypeReference); ok {
						k = tt
					} else if tt != (Type)(RealType{}) && false {
						continue
					}
					_, kb := k.(BooleanType)
					_, kr := k.(RealType)
					if isb != kb || isr && !kr {
						continue
					}
					p := GenParams{Type: GEN_DECLARATIONS, IntegerRepr: r}
					one("value", p, func() ModuleDefinition {
						return ModuleDefinition{ModuleIdentifier: ModuleIdentifier{Reference: "V-m-" + fmt.Sprint(i)}, TagDefault: i % 2, ModuleBody: ModuleBody{AssignmentList: AssignmentList{
							ValueAssignment{"the-value", t, v}, TypeAssignment{"T", tt}, ValueAssignment{"x", IntegerType{}, Number(3)}}}}
					})
				}
			}
		}
	}
	rounds := 0
	random := func() {
		rounds++
		seed := h.rnd.Int63()
		g := &vgen{r: vRand(seed), cg: true}
		m0, _ := g.module()
		_ = m0
		p := GenParams{Type: GEN_DECLARATIONS, Package: pkgs[rounds%4], IntegerRepr: reprs[g.n(3)]}
		if g.p(3) {
			p.IntegerRepr = "int32"
		}
		one("random", p, func() ModuleDefinition {
			g := &vgen{r: vRand(seed), cg: true}
			m, _ := g.module()
			return m
		})
	}
	for i := 0; i < 500 && !h.over(); i++ {
		random()
	}
	for i, w := range ws {
		for j, w2 := range ws {
			for k, l := range ls {
				if h.over() {
					return
				}
				if !h.thorough && (i+j*3+k*7+int(h.seed))%3 != 0 {
					continue
				}
				systematic(w(w2(l)))
			}
		}
	}
	for !h.over() {
		random()
	}
}
