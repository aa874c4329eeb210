package asn1go

import (
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"
)

// vgen makes random modules, the AST and the tokens of its text at the same time.
type vgen struct {
	r *rand.Rand
	// for code generation: only what has a specified meaning there
	cg    bool
	types []string
	vals  []string
	depth int
	long  int
}

// up is the length of a list that is not empty: mostly at most k+1, seldom any length.
func (g *vgen) up(k int) int {
	if g.long < 2 && g.p(4) {
		g.long++
		return 1 + vCount(g.r, 60)
	}
	c := 0
	for c <= g.n(k) {
		c++
	}
	return c
}

func (g *vgen) n(n int) int           { return g.r.Intn(n) }
func (g *vgen) p(percent int) bool    { return g.r.Intn(100) < percent }
func (g *vgen) of(l ...string) string { return l[g.n(len(l))] }

// tail continues a word at random.
func (g *vgen) tail() string {
	s := ""
	for n := g.n(12); n > 0; n-- {
		if g.p(40) {
			s += "-"
		}
		s += g.of("a", "B", "z", "0", "7", "Ab", "xyz", "N1")
	}
	if g.p(50) {
		s += g.of("", "-") + vWord(g.r, func(w string) bool { return !strings.Contains(w, "_") && !strings.Contains(w, "--") })
		s = strings.TrimRight(strings.Replace(s, "--", "-", -1), "-")
	}
	return s
}

func (g *vgen) typeName() string {
	if g.p(4) {
		return g.of("T", "X", "Long") + g.tail()
	}
	return g.of("A", "B", "Cc", "D-e", "E", "Type-One", "INTEGERs", "End", "Z9", "Long-Type-Name-2", "UTF8StringX", "M")
}

func (g *vgen) valName() string {
	if g.p(4) {
		return g.of("t", "x", "long") + g.tail()
	}
	return g.of("a", "b", "c", "d-e", "e", "e1", "value-one", "integer", "end", "z9", "xY", "optionaL")
}

// field names are distinct within a list
func (g *vgen) field(i int) string {
	if g.p(4) {
		return fmt.Sprintf("%s%s-%d", g.of("g", "long"), g.tail(), i)
	}
	if g.p(15) {
		return fmt.Sprintf("%s-%d", g.of("f", "fieldName", "e", "x1"), i)
	}
	return fmt.Sprintf("%s%d", g.of("f", "field", "e", "my-f", "xY"), i)
}

func (g *vgen) ref() string {
	if g.cg && len(g.types) > 0 && g.p(97) || len(g.types) > 0 && g.p(50) {
		return g.types[g.n(len(g.types))]
	}
	return g.typeName()
}

func (g *vgen) nat() (Number, string) {
	switch g.n(8) {
	case 0:
		return 0, "0"
	case 1:
		return math.MaxInt64, "9223372036854775807"
	case 2:
		n := g.n(100)
		return Number(n), "0" + strconv.Itoa(n)
	case 3:
		n := g.r.Int63()
		return Number(n), strconv.FormatInt(n, 10)
	}
	n := g.n(70)
	if g.p(10) {
		n = g.known()
	}
	return Number(n), strconv.Itoa(n)
}

// known is a number like one in the program.
func (g *vgen) known() int {
	if len(vDict.Ints) == 0 {
		return g.n(1000)
	}
	n := vDict.Ints[g.n(len(vDict.Ints))] + g.n(5) - 2
	if n < 0 {
		n = 0
	}
	if g.p(20) && n < 1<<40 {
		n *= 1 + g.n(1000)
	}
	return n
}

func (g *vgen) small() (Number, string) {
	n := g.n(200)
	return Number(n), strconv.Itoa(n)
}

func (g *vgen) signed() (Number, []string) {
	n, t := g.nat()
	if g.p(30) {
		return -n, []string{"-", t}
	}
	return n, []string{t}
}

func (g *vgen) digits(n int) string {
	s, ln := "", 1
	for ln <= g.n(n) {
		ln++
	}
	if g.p(4) {
		ln = 1 + g.n(18)
	}
	for i := 0; i < ln; i++ {
		s += strconv.Itoa(g.n(10))
	}
	return s
}

func (g *vgen) real() (Value, []string) {
	switch g.n(8) {
	case 0:
		return Real(math.Inf(1)), []string{"PLUS-INFINITY"}
	case 1:
		return Real(math.Inf(-1)), []string{"MINUS-INFINITY"}
	}
	t, text := "", ""
	for {
		i, f := g.digits(6), g.digits(9)
		if g.p(20) {
			f = "0" + f
		}
		e := ""
		if g.p(60) {
			e = g.of("e", "E") + g.of("", "", "-") + strconv.Itoa(g.n(25))
			if k := g.known(); k < 400 && g.p(15) {
				e = g.of("e", "E") + g.of("", "-") + strconv.Itoa(k)
			} else if g.p(5) {
				e = g.of("e", "E") + g.of("", "-") + strconv.Itoa(g.n(400))
			}
		}
		if e != "" && g.p(30) {
			text = i + e
			t = i + ".0" + e
		} else {
			text = i + "." + f + e
			t = text
		}
		if v, err := strconv.ParseFloat(t, 64); err == nil {
			if g.p(30) {
				return Real(-v), []string{"-", text}
			}
			return Real(v), []string{text}
		}
	}
}

func (g *vgen) defined() (DefinedValue, []string) {
	v := g.valName()
	if len(g.vals) > 0 && g.p(60) {
		v = g.vals[g.n(len(g.vals))]
	}
	if g.p(20) {
		m := g.typeName()
		return DefinedValue{ModuleReference(m), ValueReference(v)}, []string{m, ".", v}
	}
	return DefinedValue{ValueName: ValueReference(v)}, []string{v}
}

func (g *vgen) oid() (ObjectIdentifierValue, []string) {
	var o ObjectIdentifierValue
	t := []string{"{"}
	for i, ln := 0, g.up(4); i < ln; i++ {
		switch g.n(4) {
		case 0:
			n, s := g.nat()
			o = append(o, ObjectIdElement{ID: int(n)})
			t = append(t, s)
		case 1:
			d, s := g.defined()
			o = append(o, ObjectIdElement{Reference: &d})
			t = append(t, s...)
		case 2:
			n, s := g.nat()
			v := g.valName()
			o = append(o, ObjectIdElement{Name: v, ID: int(n)})
			t = append(t, v, "(", s, ")")
		default:
			d, s := g.defined()
			v := g.valName()
			o = append(o, ObjectIdElement{Name: v, Reference: &d})
			t = append(append(append(t, v, "("), s...), ")")
		}
	}
	return o, append(t, "}")
}

func (g *vgen) value() (Value, []string) {
	switch g.n(9) {
	case 0:
		if g.p(50) {
			return Boolean(true), []string{"TRUE"}
		}
		return Boolean(false), []string{"FALSE"}
	case 1, 2, 3:
		n, t := g.signed()
		return n, t
	case 4:
		v := g.valName()
		return IdentifiedIntegerValue{Name: v}, []string{v}
	case 5, 6:
		return g.real()
	case 7:
		v, t := g.oid()
		return v, t
	}
	n, t := g.small()
	return n, []string{t}
}

// ---------------------------------------------------------------------------------------------------- constraints

func (g *vgen) constraint() (Constraint, []string) {
	g.depth++
	defer func() { g.depth-- }()
	var sc SubtypeConstraint
	e, t := g.elementSet()
	sc = append(sc, e)
	if g.p(20) {
		t = append(t, ",", "...")
		if g.p(60) {
			e2, t2 := g.elementSet()
			sc = append(sc, e2)
			t = append(append(t, ","), t2...)
		}
	}
	if g.p(10) {
		t = append(t, g.exception()...)
	}
	return Constraint{sc}, append(append([]string{"("}, t...), ")")
}

func (g *vgen) exception() []string {
	switch g.n(3) {
	case 0:
		_, t := g.signed()
		return append([]string{"!"}, t...)
	case 1:
		_, t := g.defined()
		return append([]string{"!"}, t...)
	}
	n, t := g.small()
	_ = n
	return []string{"!", "INTEGER", ":", t}
}

func (g *vgen) elementSet() (ElementSetSpec, []string) {
	if g.p(8) {
		e, t := g.elements()
		return Exclusions{e}, append([]string{"ALL", "EXCEPT"}, t...)
	}
	var u Unions
	var t []string
	for i := 0; ; i++ {
		var in Intersections
		for j := 0; ; j++ {
			e, te := g.elements()
			ie := IntersectionElements{Elements: e}
			t = append(t, te...)
			if g.p(15) {
				x, tx := g.elements()
				ie.Exclusions = Exclusions{x}
				t = append(append(t, "EXCEPT"), tx...)
			}
			in = append(in, ie)
			if j >= 3 || !g.p(22) {
				break
			}
			t = append(t, g.of("^", "INTERSECTION"))
		}
		u = append(u, in)
		if i >= 3 || !g.p(30) {
			break
		}
		t = append(t, g.of("|", "UNION"))
	}
	return u, t
}

func (g *vgen) endpoint(lower bool) (RangeEndpoint, []string) {
	var e RangeEndpoint
	var t []string
	if g.p(20) {
		t = []string{"MAX"}
		if lower {
			t = []string{"MIN"}
		}
	} else {
		e.Value, t = g.value()
	}
	if g.p(25) {
		e.IsOpen = true
		if lower {
			t = append(t, "<")
		} else {
			t = append([]string{"<"}, t...)
		}
	}
	return e, t
}

func (g *vgen) elements() (Elements, []string) {
	k := g.n(12)
	if g.depth > 3 && k >= 7 {
		k = g.n(7)
	}
	switch k {
	case 0, 1, 2:
		v, t := g.value()
		return SingleValue{v}, t
	case 3, 4, 5, 6:
		lo, t1 := g.endpoint(true)
		hi, t2 := g.endpoint(false)
		return ValueRange{lo, hi}, append(append(t1, ".."), t2...)
	case 7, 8:
		c, t := g.constraint()
		return SizeConstraint{c}, append([]string{"SIZE"}, t...)
	case 9:
		ty, t := g.typ()
		return TypeConstraint{ty}, t
	case 10:
		g.depth++
		defer func() { g.depth-- }()
		e, t := g.elementSet()
		return e, append(append([]string{"("}, t...), ")")
	}
	// not represented
	if g.p(40) {
		_, t := g.constraint()
		return InnerTypeConstraint{}, append([]string{"WITH", "COMPONENT"}, t...)
	}
	t := []string{"WITH", "COMPONENTS", "{"}
	if g.p(50) {
		t = append(t, "...", ",")
	}
	for i, ln := 0, g.up(3); i < ln; i++ {
		if i > 0 {
			t = append(t, ",")
		}
		t = append(t, g.valName())
		if g.p(40) {
			_, tc := g.constraint()
			t = append(t, tc...)
		}
		if g.p(60) {
			t = append(t, g.of("PRESENT", "ABSENT", "OPTIONAL"))
		}
	}
	return InnerTypeConstraint{}, append(t, "}")
}

// ---------------------------------------------------------------------------------------------------- types

var vStrings = []string{"BMPString", "GeneralString", "GraphicString", "IA5String", "ISO646String", "NumericString", "PrintableString",
	"TeletexString", "T61String", "UniversalString", "UTF8String", "VideotexString", "VisibleString"}
var vStringLex = []int{BMPString, GeneralString, GraphicString, IA5String, ISO646String, NumericString, PrintableString,
	TeletexString, T61String, UniversalString, UTF8String, VideotexString, VisibleString}

func (g *vgen) leaf() (Type, []string) {
	k := g.n(17)
	if g.cg && k == 0 && g.p(90) {
		k = 1
	}
	switch k {
	case 0:
		return NullType{}, []string{"NULL"}
	case 1:
		return BooleanType{}, []string{"BOOLEAN"}
	case 2, 3:
		return g.integer()
	case 4:
		return RealType{}, []string{"REAL"}
	case 5:
		i := g.n(len(vStrings))
		return RestrictedStringType{vStringLex[i]}, []string{vStrings[i]}
	case 6:
		i := []int{3, 5, 10}[g.n(3)]
		return RestrictedStringType{vStringLex[i]}, []string{vStrings[i]}
	case 7:
		return CharacterStringType{}, []string{"CHARACTER", "STRING"}
	case 8:
		return OctetStringType{}, []string{"OCTET", "STRING"}
	case 9:
		return g.bits()
	case 10:
		return g.enumerated()
	case 11:
		return ObjectIdentifierType{}, []string{"OBJECT", "IDENTIFIER"}
	case 12:
		if g.p(50) {
			v := g.valName()
			return AnyType{Identifier(v)}, []string{"ANY", "DEFINED", "BY", v}
		}
		return AnyType{}, []string{"ANY"}
	case 13:
		u := g.of("GeneralizedTime", "UTCTime")
		return TypeReference(u), []string{u}
	}
	r := g.ref()
	return TypeReference(r), []string{r}
}

func (g *vgen) namedNumber(name string) (NamedNumber, []string) {
	if g.p(20) {
		d, t := g.defined()
		if g.cg && g.p(90) {
			d.ModuleName = ""
			t = []string{string(d.ValueName)}
		}
		return NamedNumber{Identifier(name), d}, append(append([]string{name, "("}, t...), ")")
	}
	n, t := g.signed()
	return NamedNumber{Identifier(name), n}, append(append([]string{name, "("}, t...), ")")
}

func (g *vgen) integer() (Type, []string) {
	if g.p(60) {
		return IntegerType{}, []string{"INTEGER"}
	}
	var l []NamedNumber
	t := []string{"INTEGER", "{"}
	for i, ln := 0, g.up(4); i < ln; i++ {
		if i > 0 {
			t = append(t, ",")
		}
		n, tn := g.namedNumber(g.field(i))
		l = append(l, n)
		t = append(t, tn...)
	}
	return IntegerType{l}, append(t, "}")
}

func (g *vgen) items(prefix string) ([]EnumerationItem, []string) {
	var l []EnumerationItem
	var t []string
	for i, ln := 0, g.up(5); i < ln; i++ {
		if i > 0 {
			t = append(t, ",")
		}
		name := prefix + g.field(i)
		if g.p(50) {
			l = append(l, Identifier(name))
			t = append(t, name)
			continue
		}
		n, tn := g.namedNumber(name)
		l = append(l, n)
		t = append(t, tn...)
	}
	return l, t
}

func (g *vgen) enumerated() (Type, []string) {
	var e EnumeratedType
	l, t := g.items("")
	e.RootEnumeration = l
	t = append([]string{"ENUMERATED", "{"}, t...)
	if g.cg && g.p(40) { // the tables of the parser refuse the marker
		t = append(t, ",", "...")
		if g.p(30) {
			t = append(t, g.exception()...)
		}
		if g.p(60) {
			l2, t2 := g.items("x")
			e.AdditionalEnumeration = l2
			t = append(append(t, ","), t2...)
		}
	}
	return e, append(t, "}")
}

func (g *vgen) bits() (Type, []string) {
	if g.p(60) {
		return BitStringType{}, []string{"BIT", "STRING"}
	}
	var l []NamedBit
	t := []string{"BIT", "STRING", "{"}
	for i, ln := 0, g.up(4); i < ln; i++ {
		if i > 0 {
			t = append(t, ",")
		}
		b := NamedBit{Name: Identifier(g.field(i))}
		t = append(t, string(b.Name), "(")
		if g.p(30) {
			d, td := g.defined()
			b.Index = d
			t = append(t, td...)
		} else {
			n, s := g.nat()
			b.Index = n
			t = append(t, s)
		}
		t = append(t, ")")
		l = append(l, b)
	}
	return BitStringType{l}, append(t, "}")
}

func (g *vgen) component(i int, group bool) (ComponentType, []string) {
	if g.p(4) && (!g.cg || g.p(10)) {
		ty, t := g.typ()
		return ComponentsOfComponentType{ty}, append([]string{"COMPONENTS", "OF"}, t...)
	}
	id := g.field(i)
	ty, t := g.typ()
	c := NamedComponentType{NamedType: NamedType{Identifier(id), ty}}
	t = append([]string{id}, t...)
	switch g.n(5) {
	case 0:
		c.IsOptional = true
		t = append(t, "OPTIONAL")
	case 1:
		v, tv := g.value()
		c.Default = &v
		t = append(append(t, "DEFAULT"), tv...)
	}
	return c, t
}

func (g *vgen) components() (ComponentTypeList, ExtensionAdditions, []string) {
	var c ComponentTypeList
	var e ExtensionAdditions
	if g.p(8) {
		return nil, nil, nil
	}
	if g.p(6) {
		t := []string{"..."}
		if g.p(30) {
			t = append(t, g.exception()...)
		}
		if g.p(40) {
			t = append(t, ",", "...")
		}
		return nil, nil, t
	}
	var t []string
	k := 0
	for i, ln := 0, g.up(4); i < ln; i++ {
		if i > 0 {
			t = append(t, ",")
		}
		x, tx := g.component(k, false)
		k++
		c = append(c, x)
		t = append(t, tx...)
	}
	if g.p(30) {
		t = append(t, ",", "...")
		if g.p(20) {
			t = append(t, g.exception()...)
		}
		for i, ln := 1, g.up(4); i < ln; i++ {
			t = append(t, ",")
			x, tx := g.component(k, false)
			k++
			if g.p(20) {
				t = append(t, "[[")
				if g.p(40) {
					t = append(t, "2", ":")
				}
				t = append(append(t, tx...), "]]")
				continue
			}
			e = append(e, x)
			t = append(t, tx...)
		}
	}
	return c, e, t
}

func (g *vgen) choice() (Type, []string) {
	var c ChoiceType
	t := []string{"CHOICE", "{"}
	k := 0
	nt := func() (NamedType, []string) {
		id := g.field(k)
		k++
		ty, tt := g.typ()
		return NamedType{Identifier(id), ty}, append([]string{id}, tt...)
	}
	first := true
	if !g.p(6) || g.cg {
		for i, ln := 0, g.up(3); i < ln; i++ {
			if i > 0 {
				t = append(t, ",")
			}
			x, tx := nt()
			c.AlternativeTypeList = append(c.AlternativeTypeList, x)
			t = append(t, tx...)
		}
		first = false
	}
	if first || !g.cg && g.p(30) {
		if !first {
			t = append(t, ",")
		}
		t = append(t, "...")
		if g.p(20) {
			t = append(t, g.exception()...)
		}
		for i, ln := 1, g.up(3); i < ln; i++ {
			x, tx := nt()
			c.ExtensionTypes = append(c.ExtensionTypes, x)
			t = append(append(t, ","), tx...)
		}
	}
	return c, append(t, "}")
}

func (g *vgen) tag() (Tag, []string) {
	var tg Tag
	t := []string{"["}
	switch g.n(5) {
	case 0:
		tg.Class = CLASS_APPLICATION
		t = append(t, "APPLICATION")
	case 1:
		tg.Class = CLASS_PRIVATE
		t = append(t, "PRIVATE")
	case 2:
		if !g.cg {
			tg.Class = CLASS_UNIVERSAL
			t = append(t, "UNIVERSAL")
		}
	}
	if g.p(10) && (!g.cg || g.p(10)) {
		d, td := g.defined()
		tg.ClassNumber = d
		t = append(t, td...)
		if d.ModuleName != "" && false {
			return tg, t
		}
	} else {
		n, s := g.nat()
		tg.ClassNumber = n
		t = append(t, s)
	}
	return tg, append(t, "]")
}

func (g *vgen) element() (Type, []string) {
	if !g.cg && g.p(25) {
		id := g.valName()
		ty, t := g.typ()
		return NamedType{Identifier(id), ty}, append([]string{id}, t...)
	}
	return g.typ()
}

// typ is any type as it can be written anywhere.
func (g *vgen) typ() (Type, []string) {
	g.depth++
	defer func() { g.depth-- }()
	k := g.n(16)
	if g.depth > 4 || g.depth > 2 && g.p(40) {
		return g.leaf()
	}
	switch k {
	case 0, 1:
		tg, t1 := g.tag()
		ty, t2 := g.typ()
		r := TaggedType{Tag: tg, Type: ty}
		switch g.n(3) {
		case 0:
			r.TagType, r.HasTagType = TAGS_EXPLICIT, true
			t1 = append(t1, "EXPLICIT")
		case 1:
			r.TagType, r.HasTagType = TAGS_IMPLICIT, true
			t1 = append(t1, "IMPLICIT")
		}
		return r, append(t1, t2...)
	case 2:
		ty, t := g.element()
		if g.p(50) {
			return SequenceOfType{ty}, append([]string{"SEQUENCE", "OF"}, t...)
		}
		return SetOfType{ty}, append([]string{"SET", "OF"}, t...)
	case 3:
		c, tc := g.constraint()
		if g.p(40) {
			tc = append([]string{"SIZE"}, tc...)
			c = Constraint{SubtypeConstraint{Unions{Intersections{IntersectionElements{Elements: SizeConstraint{c}}}}}}
		}
		ty, t := g.element()
		tc = append(append(tc, "OF"), t...)
		if g.p(50) {
			return ConstraintedType{SequenceOfType{ty}, c}, append([]string{"SEQUENCE"}, tc...)
		}
		return ConstraintedType{SetOfType{ty}, c}, append([]string{"SET"}, tc...)
	case 4, 5:
		ty, t := g.plain()
		for i, ln := 0, g.up(2); i < ln; i++ {
			c, tc := g.constraint()
			ty = ConstraintedType{ty, c}
			t = append(t, tc...)
		}
		return ty, t
	}
	return g.plain()
}

// plain is a type directly followed by its constraint.
func (g *vgen) plain() (Type, []string) {
	switch g.n(10) {
	case 0, 1:
		if g.depth < 5 {
			c, e, t := g.components()
			return SequenceType{c, e}, append(append([]string{"SEQUENCE", "{"}, t...), "}")
		}
	case 2:
		if g.depth < 5 {
			c, e, t := g.components()
			return SetType{c, e}, append(append([]string{"SET", "{"}, t...), "}")
		}
	case 3:
		if g.depth < 5 {
			return g.choice()
		}
	}
	return g.leaf()
}

// ---------------------------------------------------------------------------------------------------- modules

func (g *vgen) imports() ([]SymbolsFromModule, []string) {
	l := []SymbolsFromModule{}
	if g.p(50) {
		return l, nil
	}
	t := []string{"IMPORTS"}
	k := g.up(4) - 1
	for i := 0; i < k; i++ {
		var s SymbolsFromModule
		for j, ln := 0, g.up(4); j < ln; j++ {
			if j > 0 {
				t = append(t, ",")
			}
			if g.p(50) {
				n := g.typeName()
				s.SymbolList = append(s.SymbolList, TypeReference(n))
				t = append(t, n)
			} else {
				n := g.valName()
				s.SymbolList = append(s.SymbolList, ValueReference(n))
				t = append(t, n)
			}
		}
		s.Module.Reference = g.typeName()
		if i > 0 && g.p(30) {
			s.Module.Reference = l[g.n(i)].Module.Reference
		}
		t = append(t, "FROM", s.Module.Reference)
		switch x := g.n(3); {
		case x == 0:
			o, to := g.oid()
			s.Module.AssignedIdentifier = o
			t = append(t, to...)
		case x == 1 || i+1 < k:
			d, td := g.defined()
			s.Module.AssignedIdentifier = d
			t = append(t, td...)
		}
		l = append(l, s)
	}
	return l, append(t, ";")
}

func (g *vgen) module() (ModuleDefinition, []string) {
	var m ModuleDefinition
	m.ModuleIdentifier.Reference = g.typeName()
	t := []string{m.ModuleIdentifier.Reference}
	if g.p(40) {
		t = append(t, "{")
		for i, ln := 0, g.up(4); i < ln; i++ {
			var c DefinitiveObjIdComponent
			switch g.n(3) {
			case 0:
				c.Name = g.valName()
				t = append(t, c.Name)
			case 1:
				n, s := g.nat()
				c.Id = int(n)
				t = append(t, s)
			default:
				n, s := g.nat()
				c.Name, c.Id = g.valName(), int(n)
				t = append(t, c.Name, "(", s, ")")
			}
			m.ModuleIdentifier.DefinitiveIdentifier = append(m.ModuleIdentifier.DefinitiveIdentifier, c)
		}
		t = append(t, "}")
	}
	t = append(t, "DEFINITIONS")
	switch g.n(4) {
	case 0:
		t = append(t, "EXPLICIT", "TAGS")
	case 1:
		m.TagDefault = TAGS_IMPLICIT
		t = append(t, "IMPLICIT", "TAGS")
	case 2:
		if !g.cg || g.p(15) {
			m.TagDefault = TAGS_AUTOMATIC
			t = append(t, "AUTOMATIC", "TAGS")
		}
	}
	if g.p(20) {
		m.ExtensibilityImplied = true
		t = append(t, "EXTENSIBILITY", "IMPLIED")
	}
	t = append(t, "::=", "BEGIN")
	if g.p(4) {
		return m, append(t, "END")
	}
	if g.p(20) {
		t = append(t, "EXPORTS")
		switch g.n(3) {
		case 0:
			t = append(t, "ALL")
		case 1:
			t = append(t, g.typeName(), ",", g.valName())
		}
		t = append(t, ";")
	}
	im, ti := g.imports()
	m.ModuleBody.Imports = im
	t = append(t, ti...)
	n := 1 + g.n(5)
	if g.p(10) {
		n += g.n(12)
	}
	g.types, g.vals = nil, nil
	for i := 0; i < n; i++ {
		if g.p(65) {
			g.types = append(g.types, g.typeName())
		} else {
			g.vals = append(g.vals, g.valName())
		}
	}
	ti2, vi := 0, 0
	for i := 0; i < n; i++ {
		if ti2 < len(g.types) && (vi >= len(g.vals) || g.p(60)) {
			name := g.types[ti2]
			ti2++
			ty, tt := g.typ()
			m.ModuleBody.AssignmentList = append(m.ModuleBody.AssignmentList, TypeAssignment{TypeReference(name), ty})
			t = append(append(t, name, "::="), tt...)
			continue
		}
		name := g.vals[vi]
		vi++
		ty, tt := g.typ()
		v, tv := g.value()
		if g.cg && g.p(75) {
			ty, tt, v, tv = g.typedValue()
		} else if g.cg {
			v = IdentifiedIntegerValue{Name: g.valName()}
		}
		m.ModuleBody.AssignmentList = append(m.ModuleBody.AssignmentList, ValueAssignment{ValueReference(name), ty, v})
		t = append(append(append(append(t, name), tt...), "::="), tv...)
	}
	return m, append(t, "END")
}

// typedValue is a value with a type of its own kind.
func (g *vgen) typedValue() (Type, []string, Value, []string) {
	wrap := func(ty Type, t []string) (Type, []string) {
		if g.p(20) {
			c, tc := g.constraint()
			ty, t = ConstraintedType{ty, c}, append(t, tc...)
		}
		if g.p(15) {
			tg, t1 := g.tag()
			ty, t = TaggedType{Tag: tg, Type: ty}, append(t1, t...)
		}
		return ty, t
	}
	switch g.n(5) {
	case 0:
		ty, t := wrap(BooleanType{}, []string{"BOOLEAN"})
		if g.p(50) {
			return ty, t, Boolean(true), []string{"TRUE"}
		}
		return ty, t, Boolean(false), []string{"FALSE"}
	case 1:
		ty, t := wrap(RealType{}, []string{"REAL"})
		v, tv := g.real()
		return ty, t, v, tv
	case 2:
		ty, t := wrap(RealType{}, []string{"REAL"})
		v, tv := g.signed()
		return ty, t, v, tv
	}
	ty, t := wrap(IntegerType{}, []string{"INTEGER"})
	v, tv := g.signed()
	return ty, t, v, tv
}

// ---------------------------------------------------------------------------------------------------- text

const (
	vPlain  = iota // one space between tokens
	vSparse        // no space where none is needed
	vNoisy         // any white space and comments
)

func vTight(a, b string) bool {
	one := func(s string) bool {
		switch s {
		case "{", "}", "(", ")", ",", ";", "|", "^", "!", "]", "[":
			return true
		}
		return false
	}
	if a == "[" && b == "[" || a == "]" && b == "]" || a == "[" && b == "[[" || a == "]]" && b == "]" || a == "]" && b == "]]" || a == "[[" && b == "[" {
		return false
	}
	return one(a) || one(b)
}

func (g *vgen) space() string {
	s := ""
	for i, ln := 0, g.up(3); i < ln; i++ {
		switch g.n(9) {
		case 0:
			s += "\n"
		case 1:
			s += g.of("\t", "\v", "\f", "\r", "\r\n")
		case 2:
			if g.p(30) {
				s += "-- "
				for j := g.n(4); j > 0; j-- {
					s += g.of("x", "- ", "*", "/", "/*", "*/", "\"", "é", "\t", " ") + g.of("", " ")
				}
				s += g.of(" --", "\n", "\r", "\v", "\f", " -\n")
				break
			}
			s += g.of("-- x --", "--x\n", "----", "-- ::= END -- ", "--- -\n", "-- /* --", "--\"\n")
		case 3:
			if g.p(30) {
				s += "/* "
				for j := g.n(5); j > 0; j-- {
					s += g.of("x", "*", "/", "\n", "\r", "\v", "\f", "--", "-", "é", "\"", "/**/", "/* \v*/", "**", "//") + g.of(" ", "x")
				}
				s += g.of("*/", "**/", "***/", "/***//**/*/")
				break
			}
			s += g.of("/* x */", "/**/", "/* /* */ */", "/* -- */", "/***/", "/* END\n */", "/*/**/*/")
		default:
			s += " "
		}
	}
	if s[0] == '-' {
		s = " " + s
	}
	return s
}

func (g *vgen) text(t []string, mode int) string {
	var sb strings.Builder
	for i, x := range t {
		if i > 0 {
			switch {
			case mode == vNoisy:
				if !(vTight(t[i-1], x) && g.p(30)) {
					sb.WriteString(g.space())
				}
			case mode == vSparse && vTight(t[i-1], x):
			default:
				sb.WriteString(" ")
			}
		}
		sb.WriteString(x)
	}
	return sb.String()
}

func vRand(seed int64) *rand.Rand { return rand.New(rand.NewSource(seed)) }

func specInfinity(sign int) Value { return Real(math.Inf(sign)) }

// vDisplay shows what pointers point to.
func vDisplay(m ModuleDefinition) string { return vDump(m, 0) }
