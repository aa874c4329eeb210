package asn1go

import (
	"fmt"
	goast "go/ast"
	gotoken "go/token"
	"math"
	"strconv"
	"strings"
)

// ======================================================================================================== references

func specWrapped(t Type) bool {
	switch t.(type) {
	case TaggedType:
		return true
	case ConstraintedType:
		return true
	}
	return false
}

// specUnwrap is the type behind tags and constraints.
func specUnwrap(t Type) Type {
	switch tt := t.(type) {
	case TaggedType:
		return specUnwrap(tt.Type)
	case ConstraintedType:
		return specUnwrap(tt.Type)
	}
	return t
}

// specResolve follows at most n references starting from name; the result has no type if there is no assignment, or if
// references do not end.
func specResolve(l AssignmentList, name TypeReference, n int) TypeAssignment {
	if n <= 0 {
		return TypeAssignment{name, nil}
	}
	a := specGetType(l, string(name))
	if a == nil {
		return TypeAssignment{name, nil}
	}
	if next, ok := specUnwrap(a.Type).(TypeReference); ok {
		return specResolve(l, next, n-1)
	}
	return TypeAssignment{a.TypeReference, a.Type}
}

func specLeaf(l AssignmentList, name TypeReference) TypeAssignment {
	return specResolve(l, name, len(l))
}

func specIsTime(name TypeReference) bool {
	return name == "GeneralizedTime" || name == "UTCTime"
}

// specResolved tells whether the references starting at name end at a type.
func specResolved(l AssignmentList, name TypeReference) bool {
	leaf := specLeaf(l, name)
	return leaf.Type != nil || specIsTime(leaf.TypeReference)
}

//@ func specDist(l AssignmentList, name TypeReference, n int) (result int)
//@ props C11 C13 C14
//@ ensures nonneg: result >= 0
//@ decreases n

// specDist is the number of references passed starting from name.
func specDist(l AssignmentList, name TypeReference, n int) int {
	if n <= 0 || specIsTime(name) {
		return 0
	}
	a := specGetType(l, string(name))
	if a == nil {
		return 0
	}
	if next, ok := specUnwrap(a.Type).(TypeReference); ok {
		return 1 + specDist(l, next, n-1)
	}
	return 1
}

// specWithin tells whether references starting at name reach a time type or a type within n steps.
func specWithin(l AssignmentList, name TypeReference, n int) bool {
	if specIsTime(name) {
		return true
	}
	if n <= 0 {
		return false
	}
	a := specGetType(l, string(name))
	if a == nil {
		return false
	}
	if next, ok := specUnwrap(a.Type).(TypeReference); ok {
		return specWithin(l, next, n-1)
	}
	return true
}

//@ lemma lemmaWithin(l AssignmentList, name TypeReference, n int)
//@ props C11 C13 C14
//@ requires specResolve(l, name, n).Type != nil || specIsTime(specResolve(l, name, n).TypeReference)
//@ ensures specWithin(l, name, n)
//@ decreases n
func lemmaWithin(l AssignmentList, name TypeReference, n int) {
	if n <= 0 || specIsTime(name) {
		return
	}
	a := specGetType(l, string(name))
	if a == nil {
		return
	}
	if next, ok := specUnwrap(a.Type).(TypeReference); ok {
		lemmaWithin(l, next, n-1)
	}
}

//@ lemma lemmaStable(l AssignmentList, name TypeReference, n int)
//@ props C11 C13 C14
//@ requires n >= 0 && specWithin(l, name, n)
//@ ensures specDist(l, name, n+1) == specDist(l, name, n)
//@ decreases n
func lemmaStable(l AssignmentList, name TypeReference, n int) {
	if n <= 0 || specIsTime(name) {
		return
	}
	a := specGetType(l, string(name))
	if a == nil {
		return
	}
	if next, ok := specUnwrap(a.Type).(TypeReference); ok {
		lemmaStable(l, next, n-1)
	}
}

// specTypeDist is the number of references passed starting from a type.
func specTypeDist(l AssignmentList, t Type) int {
	if r, ok := specUnwrap(t).(TypeReference); ok {
		return specDist(l, r, len(l))
	}
	return 0
}

// specStepOK: following a reference that resolves comes closer to its end.
func specStepOK(l AssignmentList, t Type) bool {
	r, ok := t.(TypeReference)
	if !ok || specIsTime(r) || !specResolved(l, r) {
		return true
	}
	a := specGetType(l, string(r))
	if a == nil {
		return true
	}
	return specTypeDist(l, a.Type) < specTypeDist(l, t)
}

//@ lemma lemmaStep(l AssignmentList, t Type)
//@ props C11 C13 C14
//@ ensures specStepOK(l, t)
func lemmaStep(l AssignmentList, t Type) {
	r, ok := t.(TypeReference)
	if !ok || specIsTime(r) || !specResolved(l, r) {
		return
	}
	lemmaWithin(l, r, len(l))
	a := specGetType(l, string(r))
	if a == nil {
		return
	}
	if next, ok := specUnwrap(a.Type).(TypeReference); ok {
		lemmaStable(l, next, len(l)-1)
	}
}

// ======================================================================================================== names

func specGoName(name string) string {
	return strings.Title(strings.Replace(name, "-", "_", -1))
}

func specIdent(name string) *goast.Ident { return &goast.Ident{Name: name} }

// ======================================================================================================== types

// specAltTagged tells whether a CHOICE alternative is tagged, seen through constraints and references.
func specAltTagged(l AssignmentList, t Type) bool {
	switch tt := t.(type) {
	case TaggedType:
		return true
	case ConstraintedType:
		return specAltTagged(l, tt.Type)
	case TypeReference:
		if specIsTime(tt) || !specResolved(l, tt) {
			return false
		}
		a := specGetType(l, string(tt))
		if a == nil {
			return false
		}
		return specAltTagged(l, a.Type)
	}
	return false
}

// specAltBad tells whether an alternative can not be resolved.
func specAltBad(l AssignmentList, t Type) bool {
	switch tt := t.(type) {
	case ConstraintedType:
		return specAltBad(l, tt.Type)
	case TypeReference:
		if specIsTime(tt) {
			return false
		}
		if !specResolved(l, tt) {
			return true
		}
		a := specGetType(l, string(tt))
		if a == nil {
			return false
		}
		return specAltBad(l, a.Type)
	}
	return false
}

// specChoiceTagged: one of the alternatives from index i on is tagged.
func specChoiceTagged(l AssignmentList, alts []NamedType, i int) bool {
	if i < 0 || i >= len(alts) {
		return false
	}
	if specAltTagged(l, alts[i].Type) {
		return true
	}
	return specChoiceTagged(l, alts, i+1)
}

// specChoiceBad: an alternative from index i on, looked at before a tagged one is found, can not be resolved.
func specChoiceBad(l AssignmentList, alts []NamedType, i int) bool {
	if i < 0 || i >= len(alts) {
		return false
	}
	if specAltBad(l, alts[i].Type) {
		return true
	}
	if specAltTagged(l, alts[i].Type) {
		return false
	}
	return specChoiceBad(l, alts, i+1)
}

func specEmptyInterface() goast.Expr {
	return &goast.InterfaceType{Methods: &goast.FieldList{}}
}

// specSpecial is the type replacing references that end at certain types, or nil.
func specSpecial(l AssignmentList, name TypeReference) goast.Expr {
	return specSpecialOf(specLeaf(l, name))
}

func specSpecialOf(leaf TypeAssignment) goast.Expr {
	if specIsTime(leaf.TypeReference) {
		return specIdent("time.Time")
	}
	if _, ok := specUnwrap(leaf.Type).(BitStringType); ok {
		return specIdent("asn1.BitString")
	}
	return nil
}

func specSpecialNeeds(leaf TypeAssignment, m string) bool {
	if specIsTime(leaf.TypeReference) {
		return m == "time"
	}
	if _, ok := specUnwrap(leaf.Type).(BitStringType); ok {
		return m == "encoding/asn1"
	}
	return false
}

// specGoType is the Go type of an ASN.1 type.
func specGoType(l AssignmentList, repr IntegerRepr, td int, t Type) goast.Expr {
	switch tt := t.(type) {
	case BooleanType:
		return specIdent("bool")
	case IntegerType:
		if repr == "big.Int" {
			return &goast.StarExpr{X: specIdent("big.Int")}
		}
		return specIdent("int64")
	case RealType:
		return specIdent("float64")
	case CharacterStringType, RestrictedStringType:
		return specIdent("string")
	case OctetStringType:
		return &goast.ArrayType{Elt: specIdent("byte")}
	case BitStringType:
		return specIdent("asn1.BitString")
	case EnumeratedType:
		return specIdent("asn1.Enumerated")
	case ObjectIdentifierType:
		return specIdent("asn1.ObjectIdentifier")
	case AnyType:
		return specEmptyInterface()
	case SequenceType:
		return specStruct(l, repr, td, tt.Components, tt.ExtensionAdditions)
	case SetType:
		return specStruct(l, repr, td, tt.Components, tt.ExtensionAdditions)
	case SequenceOfType:
		return &goast.ArrayType{Elt: specGoType(l, repr, td, tt.Type)}
	case SetOfType:
		return &goast.ArrayType{Elt: specGoType(l, repr, td, tt.Type)}
	case TaggedType:
		return specGoType(l, repr, td, tt.Type)
	case ConstraintedType:
		return specGoType(l, repr, td, tt.Type)
	case TypeReference:
		if s := specSpecial(l, tt); s != nil {
			return s
		}
		return specIdent(specGoName(string(tt)))
	case ChoiceType:
		if specChoiceTagged(l, tt.AlternativeTypeList, 0) {
			return specIdent("asn1.RawValue")
		}
		if len(tt.AlternativeTypeList) == 1 {
			return specGoType(l, repr, td, tt.AlternativeTypeList[0].Type)
		}
		return specEmptyInterface()
	}
	return nil
}

func specStruct(l AssignmentList, repr IntegerRepr, td int, c ComponentTypeList, e ExtensionAdditions) goast.Expr {
	return &goast.StructType{Fields: &goast.FieldList{List: specExtFields(l, repr, td, specFields(l, repr, td, c, len(c)), e, len(e))}}
}

// specFields are the fields for the first n components.
func specFields(l AssignmentList, repr IntegerRepr, td int, c ComponentTypeList, n int) []*goast.Field {
	if n <= 0 || n > len(c) {
		return nil
	}
	if f, ok := c[n-1].(NamedComponentType); ok {
		return append(specFields(l, repr, td, c, n-1), specField(l, repr, td, f))
	}
	return specFields(l, repr, td, c, n-1)
}

func specExtFields(l AssignmentList, repr IntegerRepr, td int, acc []*goast.Field, c ExtensionAdditions, n int) []*goast.Field {
	if n <= 0 || n > len(c) {
		return acc
	}
	if f, ok := c[n-1].(NamedComponentType); ok {
		return append(specExtFields(l, repr, td, acc, c, n-1), specField(l, repr, td, f))
	}
	return specExtFields(l, repr, td, acc, c, n-1)
}

func specField(l AssignmentList, repr IntegerRepr, td int, f NamedComponentType) *goast.Field {
	return &goast.Field{
		Names: []*goast.Ident{specIdent(specGoName(string(f.NamedType.Identifier)))},
		Type:  specGoType(l, repr, td, f.NamedType.Type),
		Tag:   specTag(l, td, f),
	}
}

// ======================================================================================================== packages

// specNeeds tells whether the Go type of t refers to package m.
func specNeeds(l AssignmentList, repr IntegerRepr, t Type, m string) bool {
	switch tt := t.(type) {
	case IntegerType:
		return repr == "big.Int" && m == "math/big"
	case BitStringType, EnumeratedType, ObjectIdentifierType:
		return m == "encoding/asn1"
	case SequenceType:
		return specNeedsFields(l, repr, tt.Components, len(tt.Components), m) ||
			specNeedsExt(l, repr, tt.ExtensionAdditions, len(tt.ExtensionAdditions), m)
	case SetType:
		return specNeedsFields(l, repr, tt.Components, len(tt.Components), m) ||
			specNeedsExt(l, repr, tt.ExtensionAdditions, len(tt.ExtensionAdditions), m)
	case SequenceOfType:
		return specNeeds(l, repr, tt.Type, m)
	case SetOfType:
		return specNeeds(l, repr, tt.Type, m)
	case TaggedType:
		return specNeeds(l, repr, tt.Type, m)
	case ConstraintedType:
		return specNeeds(l, repr, tt.Type, m)
	case TypeReference:
		return specSpecialNeeds(specLeaf(l, tt), m)
	case ChoiceType:
		if specChoiceTagged(l, tt.AlternativeTypeList, 0) {
			return m == "encoding/asn1"
		}
		if len(tt.AlternativeTypeList) == 1 {
			return specNeeds(l, repr, tt.AlternativeTypeList[0].Type, m)
		}
	}
	return false
}

func specNeedsFields(l AssignmentList, repr IntegerRepr, c ComponentTypeList, n int, m string) bool {
	if n <= 0 || n > len(c) {
		return false
	}
	if f, ok := c[n-1].(NamedComponentType); ok && specNeeds(l, repr, f.NamedType.Type, m) {
		return true
	}
	return specNeedsFields(l, repr, c, n-1, m)
}

func specNeedsExt(l AssignmentList, repr IntegerRepr, c ExtensionAdditions, n int, m string) bool {
	if n <= 0 || n > len(c) {
		return false
	}
	if f, ok := c[n-1].(NamedComponentType); ok && specNeeds(l, repr, f.NamedType.Type, m) {
		return true
	}
	return specNeedsExt(l, repr, c, n-1, m)
}

// ======================================================================================================== errors

// specBad tells whether generating t is an error.
func specBad(l AssignmentList, repr IntegerRepr, td int, t Type) bool {
	switch tt := t.(type) {
	case BooleanType, RealType, CharacterStringType, RestrictedStringType, OctetStringType, BitStringType, EnumeratedType, ObjectIdentifierType, AnyType:
		return false
	case IntegerType:
		return repr != "int64" && repr != "big.Int"
	case SequenceType:
		return specBadFields(l, repr, td, tt.Components, len(tt.Components)) ||
			specBadExt(l, repr, td, tt.ExtensionAdditions, len(tt.ExtensionAdditions))
	case SetType:
		return specBadFields(l, repr, td, tt.Components, len(tt.Components)) ||
			specBadExt(l, repr, td, tt.ExtensionAdditions, len(tt.ExtensionAdditions))
	case SequenceOfType:
		return specBad(l, repr, td, tt.Type)
	case SetOfType:
		return specBad(l, repr, td, tt.Type)
	case TaggedType:
		return specBad(l, repr, td, tt.Type)
	case ConstraintedType:
		return specBad(l, repr, td, tt.Type)
	case TypeReference:
		return !specResolved(l, tt)
	case ChoiceType:
		if specChoiceBad(l, tt.AlternativeTypeList, 0) {
			return true
		}
		if specChoiceTagged(l, tt.AlternativeTypeList, 0) {
			return false
		}
		return len(tt.AlternativeTypeList) == 1 && specBad(l, repr, td, tt.AlternativeTypeList[0].Type)
	}
	return true // NULL, and what is no type
}

func specBadFields(l AssignmentList, repr IntegerRepr, td int, c ComponentTypeList, n int) bool {
	if n <= 0 || n > len(c) {
		return false
	}
	if specBadComponent(l, repr, td, c[n-1]) {
		return true
	}
	return specBadFields(l, repr, td, c, n-1)
}

func specBadExt(l AssignmentList, repr IntegerRepr, td int, c ExtensionAdditions, n int) bool {
	if n <= 0 || n > len(c) {
		return false
	}
	if specBadComponent(l, repr, td, c[n-1]) {
		return true
	}
	return specBadExt(l, repr, td, c, n-1)
}

func specStructBad(l AssignmentList, repr IntegerRepr, td int, c ComponentTypeList, e ExtensionAdditions) bool {
	return specBadFields(l, repr, td, c, len(c)) || specBadExt(l, repr, td, e, len(e))
}

func specBadComponent(l AssignmentList, repr IntegerRepr, td int, c ExtensionAddition) bool {
	switch f := c.(type) {
	case NamedComponentType:
		return specBad(l, repr, td, f.NamedType.Type) || specTagBad(td, f.NamedType.Type)
	case ComponentsOfComponentType:
		return true
	}
	return false
}

// specTagBad tells whether the tags of a field's type can not be expressed.
func specTagBad(td int, t Type) bool {
	switch tt := t.(type) {
	case TaggedType:
		if tt.HasTagType && tt.TagType == TAGS_AUTOMATIC || !tt.HasTagType && td == TAGS_AUTOMATIC {
			return true
		}
		if _, ok := tt.Tag.ClassNumber.(Number); !ok {
			return true
		}
		return specTagBad(td, tt.Type)
	case ConstraintedType:
		return specTagBad(td, tt.Type)
	}
	return false
}

// ======================================================================================================== field tags

func specOptionality(f NamedComponentType) []string {
	if f.Default == nil {
		if f.IsOptional {
			return []string{"optional"}
		}
		return []string{}
	}
	n, ok := (*f.Default).(Number)
	if !ok {
		return []string{"optional"}
	}
	if f.IsOptional {
		return []string{"optional", "default:" + strconv.Itoa(int(n))}
	}
	return []string{"default:" + strconv.Itoa(int(n)), "optional"}
}

// specTagOne are the parameters of one tag.
func specTagOne(td int, t TaggedType) []string {
	parts := []string{}
	if t.Tag.Class == CLASS_APPLICATION {
		parts = append(parts, "application")
	} else if t.Tag.Class == CLASS_PRIVATE {
		parts = append(parts, "private")
	}
	if t.HasTagType && t.TagType == TAGS_EXPLICIT || !t.HasTagType && td == TAGS_EXPLICIT {
		parts = append(parts, "explicit")
	}
	if n, ok := t.Tag.ClassNumber.(Number); ok {
		parts = append(parts, "tag:"+strconv.Itoa(int(n)))
	}
	return parts
}

// specTags appends the parameters of all tags of t.
func specTags(td int, t Type, acc []string) []string {
	switch tt := t.(type) {
	case TaggedType:
		return specTags(td, tt.Type, append(acc, specTagOne(td, tt)...))
	case ConstraintedType:
		return specTags(td, tt.Type, acc)
	}
	return acc
}

// specTagKind are the parameters a type calls for.
func specTagKind(l AssignmentList, t Type) []string {
	switch tt := specUnwrap(t).(type) {
	case RestrictedStringType:
		if tt.LexType == IA5String {
			return []string{"ia5"}
		}
		if tt.LexType == UTF8String {
			return []string{"utf8"}
		}
		if tt.LexType == NumericString {
			return []string{"numeric"}
		}
	case SetType, SetOfType:
		return []string{"set"}
	case TypeReference:
		leaf := specLeaf(l, tt)
		if leaf.TypeReference == "GeneralizedTime" {
			return []string{"generalized"}
		}
		if leaf.TypeReference == "UTCTime" {
			return []string{"utc"}
		}
	}
	return []string{}
}

func specTag(l AssignmentList, td int, f NamedComponentType) *goast.BasicLit {
	parts := append(specTags(td, f.NamedType.Type, specOptionality(f)), specTagKind(l, f.NamedType.Type)...)
	if len(parts) == 0 {
		return nil
	}
	return &goast.BasicLit{Value: "`asn1:\"" + strings.Join(parts, ",") + "\"`", Kind: gotoken.STRING}
}

// ======================================================================================================== declarations

// specIsSet tells whether a type is a SET or SET OF.
func specIsSet(l AssignmentList, t Type) bool {
	switch tt := t.(type) {
	case SetType, SetOfType:
		return true
	case TaggedType:
		return specIsSet(l, tt.Type)
	case ConstraintedType:
		return specIsSet(l, tt.Type)
	case ChoiceType:
		if !specChoiceTagged(l, tt.AlternativeTypeList, 0) && len(tt.AlternativeTypeList) == 1 {
			return specIsSet(l, tt.AlternativeTypeList[0].Type)
		}
	}
	return false
}

// specTypeDecl is the declaration of a type named name with Go type body.
func specTypeDecl(name string, body goast.Expr, isSet bool) goast.Decl {
	if isSet {
		return &goast.GenDecl{Tok: gotoken.TYPE, Specs: []goast.Spec{
			&goast.TypeSpec{Name: specIdent(specGoName(name) + "SET"), Type: body},
			&goast.TypeSpec{Name: specIdent(specGoName(name)), Assign: 1, Type: specIdent(specGoName(name) + "SET")},
		}}
	}
	if _, ok := body.(*goast.StructType); ok {
		return &goast.GenDecl{Tok: gotoken.TYPE, Specs: []goast.Spec{&goast.TypeSpec{Name: specIdent(specGoName(name)), Type: body}}}
	}
	return &goast.GenDecl{Tok: gotoken.TYPE, Specs: []goast.Spec{&goast.TypeSpec{Name: specIdent(specGoName(name)), Assign: 1, Type: body}}}
}

func specInt(repr IntegerRepr, n Number) goast.Expr {
	if repr == "big.Int" {
		return &goast.CallExpr{Fun: specIdent("big.NewInt"), Args: []goast.Expr{&goast.BasicLit{Value: strconv.Itoa(int(n))}}}
	}
	return &goast.BasicLit{Value: strconv.Itoa(int(n))}
}

func specBool(b Boolean) goast.Expr {
	if b {
		return &goast.BasicLit{Value: "true"}
	}
	return &goast.BasicLit{Value: "false"}
}

func specReal(r Real) goast.Expr {
	if math.IsInf(float64(r), 0) {
		if r < 0 {
			return &goast.CallExpr{Fun: specIdent("math.Inf"), Args: []goast.Expr{&goast.BasicLit{Value: "-1"}}}
		}
		return &goast.CallExpr{Fun: specIdent("math.Inf"), Args: []goast.Expr{&goast.BasicLit{Value: "1"}}}
	}
	return &goast.BasicLit{Value: fmt.Sprint(r)}
}

func specValName(name string) string { return "Val" + specGoName(name) }

// specValExpr is the Go expression of a value, nil for values which are not generated.
func specValExpr(repr IntegerRepr, v Value) goast.Expr {
	switch vv := v.(type) {
	case Number:
		return specInt(repr, vv)
	case Boolean:
		return specBool(vv)
	case Real:
		return specReal(vv)
	}
	return nil
}

// specIsReal tells whether a type is REAL, or a reference ends there.
func specIsReal(l AssignmentList, t Type) bool {
	u := specUnwrap(t)
	if r, ok := u.(TypeReference); ok {
		_, isReal := specUnwrap(specLeaf(l, r).Type).(RealType)
		return isReal
	}
	_, isReal := u.(RealType)
	return isReal
}

// specValRepr is the representation of integer literals given for a type: those for REAL are plain numbers.
func specValRepr(l AssignmentList, repr IntegerRepr, t Type) IntegerRepr {
	if specIsReal(l, t) {
		return "int64"
	}
	return repr
}

func specValueDecl(l AssignmentList, repr IntegerRepr, td int, a ValueAssignment) goast.Decl {
	e := specValExpr(specValRepr(l, repr, a.Type), a.Value)
	if e == nil {
		return nil
	}
	return &goast.GenDecl{Tok: gotoken.VAR, Specs: []goast.Spec{&goast.ValueSpec{
		Names:  []*goast.Ident{specIdent(specValName(string(a.ValueReference)))},
		Type:   specGoType(l, repr, td, a.Type),
		Values: []goast.Expr{e},
	}}}
}

func specNamedValue(repr IntegerRepr, v NamedNumberValue) goast.Expr {
	switch vv := v.(type) {
	case Number:
		return specInt(repr, vv)
	case DefinedValue:
		return specIdent(specValName(string(vv.ValueName)))
	}
	return nil
}

// specNamedSpecs are the variables for the first n named numbers.
func specNamedSpecs(repr IntegerRepr, name string, nn []NamedNumber, n int) []goast.Spec {
	if n <= 0 || n > len(nn) {
		return nil
	}
	return append(specNamedSpecs(repr, name, nn, n-1), &goast.ValueSpec{
		Type:   specIdent(specGoName(name)),
		Names:  []*goast.Ident{specIdent(specGoName(name) + "Val" + specGoName(string(nn[n-1].Name)))},
		Values: []goast.Expr{specNamedValue(repr, nn[n-1].Value)},
	})
}

func specNamedBad(nn []NamedNumber, n int) bool {
	if n <= 0 || n > len(nn) {
		return false
	}
	if v, ok := nn[n-1].Value.(DefinedValue); ok && v.ModuleName != "" {
		return true
	}
	return specNamedBad(nn, n-1)
}

// specNamedDecl declares the named numbers of an INTEGER type, if it has some.
func specNamedDecl(repr IntegerRepr, name string, t Type) goast.Decl {
	if it, ok := specUnwrap(t).(IntegerType); ok && len(it.NamedNumberList) > 0 {
		return &goast.GenDecl{Tok: gotoken.VAR, Specs: specNamedSpecs(repr, name, it.NamedNumberList, len(it.NamedNumberList))}
	}
	return nil
}

// specNumbers are the named numbers of a type.
func specNumbers(t Type) []NamedNumber {
	if it, ok := specUnwrap(t).(IntegerType); ok {
		return it.NamedNumberList
	}
	return nil
}

func specNamedDeclBad(t Type) bool {
	if it, ok := specUnwrap(t).(IntegerType); ok {
		return specNamedBad(it.NamedNumberList, len(it.NamedNumberList))
	}
	return false
}

// specDecls are the declarations for the first n of the assignments al of a module with assignments l.
func specDecls(l AssignmentList, repr IntegerRepr, td int, al AssignmentList, n int) []goast.Decl {
	if n <= 0 || n > len(al) {
		return nil
	}
	switch a := al[n-1].(type) {
	case TypeAssignment:
		d := append(specDecls(l, repr, td, al, n-1), specTypeDecl(string(a.TypeReference), specGoType(l, repr, td, a.Type), specIsSet(l, a.Type)))
		if v := specNamedDecl(repr, string(a.TypeReference), a.Type); v != nil {
			return append(d, v)
		}
		return d
	case ValueAssignment:
		if v := specValueDecl(l, repr, td, a); v != nil {
			return append(specDecls(l, repr, td, al, n-1), v)
		}
	}
	return specDecls(l, repr, td, al, n-1)
}

func specIsInf(v Value) bool {
	r, ok := v.(Real)
	return ok && math.IsInf(float64(r), 0)
}

func specDeclsNeed(l AssignmentList, repr IntegerRepr, al AssignmentList, n int, m string) bool {
	if n <= 0 || n > len(al) {
		return false
	}
	if specDeclNeeds(l, repr, al[n-1], m) {
		return true
	}
	return specDeclsNeed(l, repr, al, n-1, m)
}

func specDeclNeeds(l AssignmentList, repr IntegerRepr, a Assignment, m string) bool {
	switch a := a.(type) {
	case TypeAssignment:
		return specNeeds(l, repr, a.Type, m)
	case ValueAssignment:
		if specValExpr(repr, a.Value) == nil {
			return false
		}
		return specNeeds(l, repr, a.Type, m) || specIsInf(a.Value) && m == "math"
	}
	return false
}

func specDeclsBad(l AssignmentList, repr IntegerRepr, td int, al AssignmentList, n int) bool {
	if n <= 0 || n > len(al) {
		return false
	}
	if specDeclBad(l, repr, td, al[n-1]) {
		return true
	}
	return specDeclsBad(l, repr, td, al, n-1)
}

func specDeclBad(l AssignmentList, repr IntegerRepr, td int, a Assignment) bool {
	switch a := a.(type) {
	case TypeAssignment:
		return specBad(l, repr, td, a.Type) || specNamedDeclBad(a.Type)
	case ValueAssignment:
		return specValExpr(repr, a.Value) != nil && specBad(l, repr, td, a.Type)
	}
	return false
}

// specImportDecls are the imports of the first n packages.
func specImportDecls(mods []string, n int) []goast.Decl {
	if n <= 0 || n > len(mods) {
		return nil
	}
	return append(specImportDecls(mods, n-1), &goast.GenDecl{Tok: gotoken.IMPORT, Specs: []goast.Spec{
		&goast.ImportSpec{Path: &goast.BasicLit{Kind: gotoken.STRING, Value: "\"" + mods[n-1] + "\""}},
	}})
}

func specPackage(p GenParams, m ModuleDefinition) string {
	if p.Package != "" {
		return p.Package
	}
	return specGoName(m.ModuleIdentifier.Reference)
}

// specFile is the file generated for module m importing mods.
func specFile(p GenParams, m ModuleDefinition, mods []string) *goast.File {
	l := m.ModuleBody.AssignmentList
	return &goast.File{
		Name:  specIdent(specPackage(p, m)),
		Decls: append(specImportDecls(mods, len(mods)), specDecls(l, p.IntegerRepr, m.TagDefault, l, len(l))...),
	}
}

func specModuleBad(p GenParams, m ModuleDefinition) bool {
	l := m.ModuleBody.AssignmentList
	return m.TagDefault == TAGS_AUTOMATIC || specDeclsBad(l, p.IntegerRepr, m.TagDefault, l, len(l))
}

// ======================================================================================================== contracts

//@ func (ctx *moduleContext) removeWrapperTypes(t Type) (result Type)
//@ props C11 C12 C13 C14 C15 C16
//@ ensures unwrapped: eq(result, specUnwrap(t))
//@ inv (u Type) eq(specUnwrap(t), specUnwrap(u))

//@ func (ctx *moduleContext) unwrapToLeafType(reference TypeReference) (result TypeAssignment)
//@ props C11 C12 C13 C14
//@ ensures leaf: eq(result, specLeaf(ctx.lookupContext.AssignmentList, reference))
//@ inv (r TypeReference, i int) eq(specLeaf(ctx.lookupContext.AssignmentList, reference), specResolve(ctx.lookupContext.AssignmentList, r, len(ctx.lookupContext.AssignmentList)-i-1))
//@ inv (r TypeReference, i int) eq(specLeaf(ctx.lookupContext.AssignmentList, reference), specResolve(ctx.lookupContext.AssignmentList, r, len(ctx.lookupContext.AssignmentList)-i))
//@ inv (r TypeReference, i int) eq(specLeaf(ctx.lookupContext.AssignmentList, reference), specResolve(ctx.lookupContext.AssignmentList, r, i))
//@ inv (r TypeReference, i int) eq(specLeaf(ctx.lookupContext.AssignmentList, reference), specResolve(ctx.lookupContext.AssignmentList, r, i+1))

//@ func (ctx *moduleContext) appendError(err error)
//@ props C14
//@ requires given: err != nil
//@ modifies ctx.errors
//@ ensures error: len(ctx.errors) == len(old(ctx.errors)) + 1

//@ func (ctx *moduleContext) requireModule(module string)
//@ props C13 C14
//@ modifies ctx.requiredModules
//@ ensures all: forall m string :: has(ctx.requiredModules, m) == (has(old(ctx.requiredModules), m) || m == module)
//@ ensures once: nodup(old(ctx.requiredModules)) ==> nodup(ctx.requiredModules)
//@ inv (i int) !hasUpto(ctx.requiredModules, i+1, module)
//@ inv (i int) !hasUpto(ctx.requiredModules, i, module)
//@ inv (i int) has(ctx.requiredModules, module) == hasUpto(ctx.requiredModules, i+1, module)
//@ inv (i int) has(ctx.requiredModules, module) == hasUpto(ctx.requiredModules, i, module)
//@ inv (i int, f bool) has(ctx.requiredModules, module) == (f || hasUpto(ctx.requiredModules, i+1, module))
//@ inv (i int, f bool) has(ctx.requiredModules, module) == (f || hasUpto(ctx.requiredModules, i, module))
//@ inv (i int, f bool) f == hasUpto(ctx.requiredModules, i+1, module)
//@ inv (i int, f bool) f == hasUpto(ctx.requiredModules, i, module)

//@ func (ctx *moduleContext) lookupUsefulType(reference TypeReference) (result Type)
//@ props C11 C12 C13 C14
//@ ensures known: (result != nil) == specIsTime(reference)

//@ func (ctx *moduleContext) resolveTypeReference(reference TypeReference) (result *TypeAssignment)
//@ props C11 C12 C13 C14
//@ modifies ctx.errors
//@ ensures found: (result != nil) == specResolved(ctx.lookupContext.AssignmentList, reference)
//@ ensures name: result != nil ==> eq(result.TypeReference, specLeaf(ctx.lookupContext.AssignmentList, reference).TypeReference)
//@ ensures type: result != nil && specLeaf(ctx.lookupContext.AssignmentList, reference).Type != nil ==> eq(result.Type, specLeaf(ctx.lookupContext.AssignmentList, reference).Type)
//@ ensures time: result != nil && specLeaf(ctx.lookupContext.AssignmentList, reference).Type == nil ==> specIsTime(result.TypeReference)
//@ ensures errors: (len(ctx.errors) > 0) == (len(old(ctx.errors)) > 0 || !specResolved(ctx.lookupContext.AssignmentList, reference))

//@ func (ctx *moduleContext) generateSpecialCase(resolved TypeAssignment) (result goast.Expr)
//@ props C11 C13 C14
//@ modifies ctx.requiredModules
//@ ensures expr: eq(result, specSpecialOf(resolved))
//@ ensures modules: forall m string :: has(ctx.requiredModules, m) == (has(old(ctx.requiredModules), m) || specSpecialNeeds(resolved, m))
//@ ensures once: nodup(old(ctx.requiredModules)) ==> nodup(ctx.requiredModules)

//@ func (ctx *moduleContext) taggedChoiceTypeAlternative(name Identifier, t Type) (result bool)
//@ props C11 C13 C14
//@ modifies ctx.errors
//@ ensures tagged: result == specAltTagged(ctx.lookupContext.AssignmentList, t)
//@ ensures errors: (len(ctx.errors) > 0) == (len(old(ctx.errors)) > 0 || specAltBad(ctx.lookupContext.AssignmentList, t))
//@ uses lemmaStep(ctx.lookupContext.AssignmentList, t)
//@ uses (u Type) lemmaStep(ctx.lookupContext.AssignmentList, u)
//@ decreases specTypeDist(ctx.lookupContext.AssignmentList, t), size(t)
//@ inv (u Type) specAltTagged(ctx.lookupContext.AssignmentList, t) == specAltTagged(ctx.lookupContext.AssignmentList, u)
//@ inv (u Type) (len(old(ctx.errors)) > 0 || specAltBad(ctx.lookupContext.AssignmentList, t)) == (len(ctx.errors) > 0 || specAltBad(ctx.lookupContext.AssignmentList, u))
//@ measure (u Type) specTypeDist(ctx.lookupContext.AssignmentList, u), size(u)

//@ func (ctx *moduleContext) hasTaggedAlternatives(t ChoiceType) (result bool)
//@ props C11 C13 C14
//@ modifies ctx.errors
//@ ensures tagged: result == specChoiceTagged(ctx.lookupContext.AssignmentList, t.AlternativeTypeList, 0)
//@ ensures errors: (len(ctx.errors) > 0) == (len(old(ctx.errors)) > 0 || specChoiceBad(ctx.lookupContext.AssignmentList, t.AlternativeTypeList, 0))
//@ inv (i int) specChoiceTagged(ctx.lookupContext.AssignmentList, t.AlternativeTypeList, 0) == specChoiceTagged(ctx.lookupContext.AssignmentList, t.AlternativeTypeList, i+1)
//@ inv (i int) specChoiceTagged(ctx.lookupContext.AssignmentList, t.AlternativeTypeList, 0) == specChoiceTagged(ctx.lookupContext.AssignmentList, t.AlternativeTypeList, i)
//@ inv (i int) (len(old(ctx.errors)) > 0 || specChoiceBad(ctx.lookupContext.AssignmentList, t.AlternativeTypeList, 0)) == (len(ctx.errors) > 0 || specChoiceBad(ctx.lookupContext.AssignmentList, t.AlternativeTypeList, i+1))
//@ inv (i int) (len(old(ctx.errors)) > 0 || specChoiceBad(ctx.lookupContext.AssignmentList, t.AlternativeTypeList, 0)) == (len(ctx.errors) > 0 || specChoiceBad(ctx.lookupContext.AssignmentList, t.AlternativeTypeList, i))

// the module's assignments, tagging default and integer representation are those of ctx

//@ func (ctx *moduleContext) generateTypeBody(typeDescr Type, isSet *bool) (result goast.Expr)
//@ props C11 C12 C13 C14 C15 C16
//@ modifies ctx.errors, ctx.requiredModules, *isSet
//@ ensures [C11 C12 C16] expr: len(ctx.errors) > 0 || eq(result, specGoType(ctx.lookupContext.AssignmentList, ctx.params.IntegerRepr, ctx.tagDefault, typeDescr))
//@ ensures [C15] set: *isSet == (*old(isSet) || specIsSet(ctx.lookupContext.AssignmentList, typeDescr))
//@ ensures [C14] errors: (len(ctx.errors) > 0) == (len(old(ctx.errors)) > 0 || specBad(ctx.lookupContext.AssignmentList, ctx.params.IntegerRepr, ctx.tagDefault, typeDescr))
//@ ensures [C13] modules: forall m string :: len(ctx.errors) > 0 || has(ctx.requiredModules, m) == (has(old(ctx.requiredModules), m) || specNeeds(ctx.lookupContext.AssignmentList, ctx.params.IntegerRepr, typeDescr, m))
//@ ensures [C13] once: nodup(old(ctx.requiredModules)) ==> nodup(ctx.requiredModules)
//@ decreases size(typeDescr)

//@ func (ctx *moduleContext) generateChoiceType(t ChoiceType, isSet *bool) (result goast.Expr)
//@ props C11 C12 C13 C14 C15 C16
//@ modifies ctx.errors, ctx.requiredModules, *isSet
//@ ensures [C11 C12 C16] expr: len(ctx.errors) > 0 || eq(result, specGoType(ctx.lookupContext.AssignmentList, ctx.params.IntegerRepr, ctx.tagDefault, t))
//@ ensures [C15] set: *isSet == (*old(isSet) || specIsSet(ctx.lookupContext.AssignmentList, t))
//@ ensures [C14] errors: (len(ctx.errors) > 0) == (len(old(ctx.errors)) > 0 || specBad(ctx.lookupContext.AssignmentList, ctx.params.IntegerRepr, ctx.tagDefault, t))
//@ ensures [C13] modules: forall m string :: len(ctx.errors) > 0 || has(ctx.requiredModules, m) == (has(old(ctx.requiredModules), m) || specNeeds(ctx.lookupContext.AssignmentList, ctx.params.IntegerRepr, t, m))
//@ ensures [C13] once: nodup(old(ctx.requiredModules)) ==> nodup(ctx.requiredModules)
//@ decreases size(t)

//@ func (ctx *moduleContext) structFromComponents(components ComponentTypeList, extensions ExtensionAdditions) (result goast.Expr)
//@ props C11 C12 C13 C14 C15 C16
//@ modifies ctx.errors, ctx.requiredModules
//@ ensures [C11 C12 C16] expr: len(ctx.errors) > 0 || eq(result, specStruct(ctx.lookupContext.AssignmentList, ctx.params.IntegerRepr, ctx.tagDefault, components, extensions))
//@ ensures [C14] errors: (len(ctx.errors) > 0) == (len(old(ctx.errors)) > 0 || specStructBad(ctx.lookupContext.AssignmentList, ctx.params.IntegerRepr, ctx.tagDefault, components, extensions))
//@ ensures [C13] modules: forall m string :: len(ctx.errors) > 0 || has(ctx.requiredModules, m) == (has(old(ctx.requiredModules), m) || specNeedsFields(ctx.lookupContext.AssignmentList, ctx.params.IntegerRepr, components, len(components), m) || specNeedsExt(ctx.lookupContext.AssignmentList, ctx.params.IntegerRepr, extensions, len(extensions), m))
//@ ensures [C13] once: nodup(old(ctx.requiredModules)) ==> nodup(ctx.requiredModules)
//@ decreases size(components) + size(extensions)
//@ inv (i int, f []*goast.Field) len(ctx.errors) > 0 || eq(f, specFields(ctx.lookupContext.AssignmentList, ctx.params.IntegerRepr, ctx.tagDefault, components, i+1))
//@ inv (i int, f []*goast.Field) len(ctx.errors) > 0 || eq(f, specFields(ctx.lookupContext.AssignmentList, ctx.params.IntegerRepr, ctx.tagDefault, components, i))
//@ inv (i int, f []*goast.Field) len(ctx.errors) > 0 || eq(f, specExtFields(ctx.lookupContext.AssignmentList, ctx.params.IntegerRepr, ctx.tagDefault, specFields(ctx.lookupContext.AssignmentList, ctx.params.IntegerRepr, ctx.tagDefault, components, len(components)), extensions, i+1))
//@ inv (i int, f []*goast.Field) len(ctx.errors) > 0 || eq(f, specExtFields(ctx.lookupContext.AssignmentList, ctx.params.IntegerRepr, ctx.tagDefault, specFields(ctx.lookupContext.AssignmentList, ctx.params.IntegerRepr, ctx.tagDefault, components, len(components)), extensions, i))
//@ inv (i int, f []*goast.Field) len(ctx.errors) > 0 || eq(append(specFields(ctx.lookupContext.AssignmentList, ctx.params.IntegerRepr, ctx.tagDefault, components, len(components)), f...), specExtFields(ctx.lookupContext.AssignmentList, ctx.params.IntegerRepr, ctx.tagDefault, specFields(ctx.lookupContext.AssignmentList, ctx.params.IntegerRepr, ctx.tagDefault, components, len(components)), extensions, i))
//@ inv (i int, f []*goast.Field) len(ctx.errors) > 0 || eq(append(specFields(ctx.lookupContext.AssignmentList, ctx.params.IntegerRepr, ctx.tagDefault, components, len(components)), f...), specExtFields(ctx.lookupContext.AssignmentList, ctx.params.IntegerRepr, ctx.tagDefault, specFields(ctx.lookupContext.AssignmentList, ctx.params.IntegerRepr, ctx.tagDefault, components, len(components)), extensions, i+1))
//@ inv (i int) (len(ctx.errors) > 0) == (len(old(ctx.errors)) > 0 || specBadFields(ctx.lookupContext.AssignmentList, ctx.params.IntegerRepr, ctx.tagDefault, components, i+1))
//@ inv (i int) (len(ctx.errors) > 0) == (len(old(ctx.errors)) > 0 || specBadFields(ctx.lookupContext.AssignmentList, ctx.params.IntegerRepr, ctx.tagDefault, components, i))
//@ inv (i int) (len(ctx.errors) > 0) == (len(old(ctx.errors)) > 0 || specBadFields(ctx.lookupContext.AssignmentList, ctx.params.IntegerRepr, ctx.tagDefault, components, len(components)) || specBadExt(ctx.lookupContext.AssignmentList, ctx.params.IntegerRepr, ctx.tagDefault, extensions, i+1))
//@ inv (i int) (len(ctx.errors) > 0) == (len(old(ctx.errors)) > 0 || specBadFields(ctx.lookupContext.AssignmentList, ctx.params.IntegerRepr, ctx.tagDefault, components, len(components)) || specBadExt(ctx.lookupContext.AssignmentList, ctx.params.IntegerRepr, ctx.tagDefault, extensions, i))
//@ inv (i int) forall m string :: len(ctx.errors) > 0 || has(ctx.requiredModules, m) == (has(old(ctx.requiredModules), m) || specNeedsFields(ctx.lookupContext.AssignmentList, ctx.params.IntegerRepr, components, i+1, m))
//@ inv (i int) forall m string :: len(ctx.errors) > 0 || has(ctx.requiredModules, m) == (has(old(ctx.requiredModules), m) || specNeedsFields(ctx.lookupContext.AssignmentList, ctx.params.IntegerRepr, components, i, m))
//@ inv (i int) forall m string :: len(ctx.errors) > 0 || has(ctx.requiredModules, m) == (has(old(ctx.requiredModules), m) || specNeedsFields(ctx.lookupContext.AssignmentList, ctx.params.IntegerRepr, components, len(components), m) || specNeedsExt(ctx.lookupContext.AssignmentList, ctx.params.IntegerRepr, extensions, i+1, m))
//@ inv (i int) forall m string :: len(ctx.errors) > 0 || has(ctx.requiredModules, m) == (has(old(ctx.requiredModules), m) || specNeedsFields(ctx.lookupContext.AssignmentList, ctx.params.IntegerRepr, components, len(components), m) || specNeedsExt(ctx.lookupContext.AssignmentList, ctx.params.IntegerRepr, extensions, i, m))
//@ inv nodup(old(ctx.requiredModules)) ==> nodup(ctx.requiredModules)

//@ func (ctx *moduleContext) generateStructField(f NamedComponentType) (result *goast.Field)
//@ props C11 C12 C13 C14 C15 C16
//@ modifies ctx.errors, ctx.requiredModules
//@ ensures [C11 C12 C16] field: len(ctx.errors) > 0 || eq(result, specField(ctx.lookupContext.AssignmentList, ctx.params.IntegerRepr, ctx.tagDefault, f))
//@ ensures [C14] errors: (len(ctx.errors) > 0) == (len(old(ctx.errors)) > 0 || specBadComponent(ctx.lookupContext.AssignmentList, ctx.params.IntegerRepr, ctx.tagDefault, f))
//@ ensures [C13] modules: forall m string :: len(ctx.errors) > 0 || has(ctx.requiredModules, m) == (has(old(ctx.requiredModules), m) || specNeeds(ctx.lookupContext.AssignmentList, ctx.params.IntegerRepr, f.NamedType.Type, m))
//@ ensures [C13] once: nodup(old(ctx.requiredModules)) ==> nodup(ctx.requiredModules)
//@ decreases size(f)

//@ func (ctx *moduleContext) asn1TagFromType(nt NamedComponentType) (result *goast.BasicLit)
//@ props C12 C14
//@ modifies ctx.errors
//@ ensures [C12] tag: len(ctx.errors) > 0 || eq(result, specTag(ctx.lookupContext.AssignmentList, ctx.tagDefault, nt))
//@ ensures [C14] errors: (len(ctx.errors) > 0) == (len(old(ctx.errors)) > 0 || specTagBad(ctx.tagDefault, nt.NamedType.Type))
//@ inv (u Type) eq(specUnwrap(nt.NamedType.Type), specUnwrap(u))
//@ inv (u Type, w bool) w || !specWrapped(u)
//@ inv (u Type, w bool) !w || !specWrapped(u)
//@ inv (u Type) (len(old(ctx.errors)) > 0 || specTagBad(ctx.tagDefault, nt.NamedType.Type)) == (len(ctx.errors) > 0 || specTagBad(ctx.tagDefault, u))
//@ inv (u Type, c []string) eq(specTags(ctx.tagDefault, nt.NamedType.Type, specOptionality(nt)), specTags(ctx.tagDefault, u, append(specOptionality(nt), c...)))
//@ inv (u Type, c []string) eq(specTags(ctx.tagDefault, nt.NamedType.Type, specOptionality(nt)), specTags(ctx.tagDefault, u, c))

//@ func (ctx *moduleContext) generateTypeDecl(reference TypeReference, typeDescr Type) (result goast.Decl)
//@ props C11 C12 C13 C14 C15
//@ modifies ctx.errors, ctx.requiredModules
//@ ensures [C11 C12 C15] decl: len(ctx.errors) > 0 || eq(result, specTypeDecl(string(reference), specGoType(ctx.lookupContext.AssignmentList, ctx.params.IntegerRepr, ctx.tagDefault, typeDescr), specIsSet(ctx.lookupContext.AssignmentList, typeDescr)))
//@ ensures [C14] errors: (len(ctx.errors) > 0) == (len(old(ctx.errors)) > 0 || specBad(ctx.lookupContext.AssignmentList, ctx.params.IntegerRepr, ctx.tagDefault, typeDescr))
//@ ensures [C13] modules: forall m string :: len(ctx.errors) > 0 || has(ctx.requiredModules, m) == (has(old(ctx.requiredModules), m) || specNeeds(ctx.lookupContext.AssignmentList, ctx.params.IntegerRepr, typeDescr, m))
//@ ensures [C13] once: nodup(old(ctx.requiredModules)) ==> nodup(ctx.requiredModules)

//@ func goifyName(name string) (result string)
//@ props C11 C15 C16 C14
//@ ensures name: result == specGoName(name)

//@ func valueRefToIdent(ref ValueReference) (result *goast.Ident)
//@ props C16 C14
//@ ensures ident: eq(result, specIdent(specValName(string(ref))))

//@ func (ctx *moduleContext) isRealType(t Type) (result bool)
//@ props C16 C14
//@ ensures real: result == specIsReal(ctx.lookupContext.AssignmentList, t)

//@ func numberToExpr(val Number, repr IntegerRepr) (result goast.Expr)
//@ props C16 C14
//@ ensures expr: eq(result, specInt(repr, val))

//@ func (ctx *moduleContext) realToExpr(val Real) (result goast.Expr)
//@ props C13 C16 C14
//@ modifies ctx.requiredModules
//@ ensures [C16] expr: eq(result, specReal(val))
//@ ensures [C13] modules: forall m string :: has(ctx.requiredModules, m) == (has(old(ctx.requiredModules), m) || specIsInf(val) && m == "math")
//@ ensures [C13] once: nodup(old(ctx.requiredModules)) ==> nodup(ctx.requiredModules)

//@ func (ctx *moduleContext) tryGenerateValueAssignment(ref ValueReference, t Type, val Value) (result goast.Decl)
//@ props C13 C14 C15 C16
//@ modifies ctx.errors, ctx.requiredModules
//@ ensures [C15 C16] decl: len(ctx.errors) > 0 || eq(result, specValueDecl(ctx.lookupContext.AssignmentList, ctx.params.IntegerRepr, ctx.tagDefault, ValueAssignment{ref, t, val}))
//@ ensures [C15 C16] nothing: (result == nil) == (specValExpr(ctx.params.IntegerRepr, val) == nil)
//@ ensures [C14] errors: (len(ctx.errors) > 0) == (len(old(ctx.errors)) > 0 || specDeclBad(ctx.lookupContext.AssignmentList, ctx.params.IntegerRepr, ctx.tagDefault, ValueAssignment{ref, t, val}))
//@ ensures [C13] modules: forall m string :: len(ctx.errors) > 0 || has(ctx.requiredModules, m) == (has(old(ctx.requiredModules), m) || specDeclNeeds(ctx.lookupContext.AssignmentList, ctx.params.IntegerRepr, ValueAssignment{ref, t, val}, m))
//@ ensures [C13] once: nodup(old(ctx.requiredModules)) ==> nodup(ctx.requiredModules)

//@ func (ctx *moduleContext) generateAssociatedValuesIfNeeded(reference TypeReference, typeDescr Type) (result goast.Decl)
//@ props C14 C15 C16
//@ modifies ctx.errors
//@ ensures [C15 C16] decl: eq(result, specNamedDecl(ctx.params.IntegerRepr, string(reference), typeDescr))
//@ ensures [C14] errors: (len(ctx.errors) > 0) == (len(old(ctx.errors)) > 0 || specNamedDeclBad(typeDescr))
//@ inv (i int, s []goast.Spec) eq(s, specNamedSpecs(ctx.params.IntegerRepr, string(reference), specNumbers(typeDescr), i+1))
//@ inv (i int, s []goast.Spec) eq(s, specNamedSpecs(ctx.params.IntegerRepr, string(reference), specNumbers(typeDescr), i))
//@ inv (i int) (len(ctx.errors) > 0) == (len(old(ctx.errors)) > 0 || specNamedBad(specNumbers(typeDescr), i+1))
//@ inv (i int) (len(ctx.errors) > 0) == (len(old(ctx.errors)) > 0 || specNamedBad(specNumbers(typeDescr), i))

//@ func (ctx *moduleContext) generateDeclarations(module ModuleDefinition) (result []goast.Decl)
//@ props C11 C12 C13 C14 C15 C16
//@ modifies ctx.errors, ctx.requiredModules
//@ ensures [C11 C12 C15 C16] decls: len(ctx.errors) > 0 || eq(result, specDecls(ctx.lookupContext.AssignmentList, ctx.params.IntegerRepr, ctx.tagDefault, module.ModuleBody.AssignmentList, len(module.ModuleBody.AssignmentList)))
//@ ensures [C14] errors: (len(ctx.errors) > 0) == (len(old(ctx.errors)) > 0 || specDeclsBad(ctx.lookupContext.AssignmentList, ctx.params.IntegerRepr, ctx.tagDefault, module.ModuleBody.AssignmentList, len(module.ModuleBody.AssignmentList)))
//@ ensures [C13] modules: forall m string :: len(ctx.errors) > 0 || has(ctx.requiredModules, m) == (has(old(ctx.requiredModules), m) || specDeclsNeed(ctx.lookupContext.AssignmentList, ctx.params.IntegerRepr, module.ModuleBody.AssignmentList, len(module.ModuleBody.AssignmentList), m))
//@ ensures [C13] once: nodup(old(ctx.requiredModules)) ==> nodup(ctx.requiredModules)
//@ inv (i int, d []goast.Decl) len(ctx.errors) > 0 || eq(d, specDecls(ctx.lookupContext.AssignmentList, ctx.params.IntegerRepr, ctx.tagDefault, module.ModuleBody.AssignmentList, i+1))
//@ inv (i int, d []goast.Decl) len(ctx.errors) > 0 || eq(d, specDecls(ctx.lookupContext.AssignmentList, ctx.params.IntegerRepr, ctx.tagDefault, module.ModuleBody.AssignmentList, i))
//@ inv (i int) (len(ctx.errors) > 0) == (len(old(ctx.errors)) > 0 || specDeclsBad(ctx.lookupContext.AssignmentList, ctx.params.IntegerRepr, ctx.tagDefault, module.ModuleBody.AssignmentList, i+1))
//@ inv (i int) (len(ctx.errors) > 0) == (len(old(ctx.errors)) > 0 || specDeclsBad(ctx.lookupContext.AssignmentList, ctx.params.IntegerRepr, ctx.tagDefault, module.ModuleBody.AssignmentList, i))
//@ inv (i int) forall m string :: len(ctx.errors) > 0 || has(ctx.requiredModules, m) == (has(old(ctx.requiredModules), m) || specDeclsNeed(ctx.lookupContext.AssignmentList, ctx.params.IntegerRepr, module.ModuleBody.AssignmentList, i+1, m))
//@ inv (i int) forall m string :: len(ctx.errors) > 0 || has(ctx.requiredModules, m) == (has(old(ctx.requiredModules), m) || specDeclsNeed(ctx.lookupContext.AssignmentList, ctx.params.IntegerRepr, module.ModuleBody.AssignmentList, i, m))
//@ inv nodup(old(ctx.requiredModules)) ==> nodup(ctx.requiredModules)

//@ func NewCodeGenerator(params GenParams) (result CodeGenerator)
//@ props C11 C12 C13 C14 C15 C16
//@ ensures none: (result == nil) == (params.Type != GEN_DECLARATIONS)
//@ ensures params: result != nil ==> eq(result, specGenerator(params))

// specGenerator generates with the default integer representation filled in.
func specGenerator(p GenParams) CodeGenerator {
	if p.IntegerRepr == "" {
		p.IntegerRepr = "int64"
	}
	return &declCodeGen{p}
}

//@ func (gen declCodeGen) Generate(module ModuleDefinition, writer io.Writer) (result error)
//@ props C11 C12 C13 C14 C15 C16 C17
//@ effects
//@ ensures [C14] error: specModuleBad(gen.Params, module) ==> result != nil
//@ ensures [C14] nothing: specModuleBad(gen.Params, module) ==> eq(trace(), oldTrace())
//@ ensures [C11 C12 C13 C14 C15 C16] file: exists mods []string :: forall m string :: specModuleBad(gen.Params, module) || eq(trace(), append(oldTrace(), "print", writer, specFile(gen.Params, module, mods), result)) && nodup(mods) && has(mods, m) == specDeclsNeed(module.ModuleBody.AssignmentList, gen.Params.IntegerRepr, module.ModuleBody.AssignmentList, len(module.ModuleBody.AssignmentList), m)
//@ ensures [C14 C18] printed: exists mods []string :: specModuleBad(gen.Params, module) || eq(trace(), append(oldTrace(), "print", writer, specFile(gen.Params, module, mods), result))
//@ inv (i int, d []goast.Decl, mods =[]string) eq(d, specImportDecls(mods, i+1))
//@ inv (i int, d []goast.Decl, mods =[]string) eq(d, specImportDecls(mods, i))
