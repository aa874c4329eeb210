package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync"
)

// StructInfo describes the datatype of a struct sort. For go/ast types only the listed view fields are kept:
// positions, comments and resolution data are not part of the compared value.
type StructInfo struct {
	Sort   string
	Typ    types.Type
	Fields []FieldInfo
	byIdx  map[int]int // Go field index -> view index
	Opaque bool
}

type FieldInfo struct {
	Name string
	Sort string
	Typ  types.Type
	Idx  int    // Go field index
	View string // "" or "nz" (only whether it is zero)
}

var (
	tyMu      sync.Mutex
	structs   = map[string]*StructInfo{} // by sort
	ptrElem   = map[string]string{}      // pointer sort -> element sort
	ptrElemT  = map[string]types.Type{}  // pointer sort -> Go element type
	ifaceSort = map[string]string{}      // dynamic type name -> payload sort
	ifaceType = map[string]types.Type{}  // dynamic type name -> Go type
)

var astView = map[string][]string{
	"Ident": {"Name"}, "BasicLit": {"Value"}, "StarExpr": {"X"}, "ArrayType": {"Len", "Elt"},
	"StructType": {"Fields"}, "FieldList": {"List"}, "Field": {"Names", "Type", "Tag"},
	"InterfaceType": {"Methods"}, "CallExpr": {"Fun", "Args"}, "GenDecl": {"Tok", "Specs"},
	"TypeSpec": {"Name", "Assign", "Type"}, "ValueSpec": {"Names", "Type", "Values"},
	"ImportSpec": {"Name", "Path"}, "File": {"Name", "Decls"}, "SelectorExpr": {"X", "Sel"},
	"UnaryExpr": {"Op", "X"}, "ParenExpr": {"X"},
}

func pkgShort(p *types.Package) string {
	if p == nil {
		return "u"
	}
	switch p.Path() {
	case "go/ast":
		return "goast"
	}
	return strings.NewReplacer("/", "_", ".", "_", "-", "_").Replace(p.Name())
}

func typeName(t types.Type) string {
	switch t := types.Unalias(t).(type) {
	case *types.Named:
		o := t.Obj()
		if o.Pkg() == nil {
			return o.Name()
		}
		return pkgShort(o.Pkg()) + "." + o.Name()
	case *types.Pointer:
		return "P." + typeName(t.Elem())
	case *types.Slice:
		return "L." + typeName(t.Elem())
	case *types.Basic:
		return t.Name()
	case *types.Struct:
		return fmt.Sprintf("anon%x", fnv(t.String()))
	}
	return fmt.Sprintf("t%x", fnv(t.String()))
}

func fnv(s string) uint32 {
	h := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint32(s[i])) * 16777619
	}
	return h
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r == '.' || r == '/' || r == '-' || r == '*' || r == '[' || r == ']' || r == ' ' || r == '{' || r == '}' {
			return '_'
		}
		return r
	}, s)
}

// inProgram tells whether struct types of the package are modelled field by field.
func inProgram(p *types.Package) bool {
	return p != nil && strings.HasPrefix(p.Path(), "github.com/chemikadze/asn1go")
}

var sortMemo = map[types.Type]string{}

func sortOf(t types.Type) string {
	tyMu.Lock()
	defer tyMu.Unlock()
	return sortOf0(t)
}

func sortOf0(t types.Type) string {
	if s, ok := sortMemo[t]; ok {
		return s
	}
	s := sortOf1(t)
	sortMemo[t] = s
	return s
}

func sortOf1(t types.Type) string {
	t = types.Unalias(t)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return sBool
		case u.Info()&types.IsInteger != 0:
			return sInt
		case u.Info()&types.IsString != 0:
			return sStr
		case u.Info()&types.IsFloat != 0:
			return sF64
		case u.Kind() == types.UntypedNil:
			return sV
		}
	case *types.Interface:
		return sV
	case *types.Slice:
		return seqOf(sortOf0(u.Elem()))
	case *types.Array:
		return seqOf(sortOf0(u.Elem()))
	case *types.Pointer:
		es := sortOf0(u.Elem())
		s := "P_" + sanitize(strings.NewReplacer("(", "", ")", "").Replace(es))
		ptrElem[s] = es
		ptrElemT[s] = u.Elem()
		return s
	case *types.Struct:
		s := "S_" + sanitize(typeName(t))
		if _, ok := structs[s]; ok {
			return s
		}
		info := &StructInfo{Sort: s, Typ: t, byIdx: map[int]int{}}
		structs[s] = info
		sortMemo[t] = s
		n, named := t.(*types.Named)
		var view []string
		if named && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "go/ast" {
			view = astView[n.Obj().Name()]
			if view == nil {
				info.Opaque = true
			}
		} else if named && !inProgram(n.Obj().Pkg()) {
			info.Opaque = true
		}
		if info.Opaque {
			return s
		}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if view != nil {
				keep := false
				for _, v := range view {
					keep = keep || v == f.Name()
				}
				if !keep {
					continue
				}
			}
			fi := FieldInfo{Name: f.Name(), Typ: f.Type(), Idx: i}
			if view != nil && f.Name() == "Assign" {
				fi.View = "nz"
				fi.Sort = sBool
			} else {
				fi.Sort = sortOf0(f.Type())
			}
			info.byIdx[i] = len(info.Fields)
			info.Fields = append(info.Fields, fi)
		}
		return s
	}
	// maps, channels, functions, complex numbers
	return "O_" + sanitize(typeName(t))
}

// dynName registers a concrete type that can be stored in an interface.
func dynName(t types.Type) string {
	n := sanitize(typeName(types.Unalias(t)))
	s := sortOf(t)
	tyMu.Lock()
	ifaceSort[n] = s
	ifaceType[n] = t
	tyMu.Unlock()
	return n
}

func structInfo(sort string) *StructInfo {
	tyMu.Lock()
	defer tyMu.Unlock()
	return structs[sort]
}

func ptrElemSort(ps string) string {
	tyMu.Lock()
	defer tyMu.Unlock()
	return ptrElem[ps]
}

// zeroTerm is the zero value of a type.
func zeroTerm(t types.Type) *Term {
	s := sortOf(t)
	return zeroOfSort(s)
}

func zeroOfSort(s string) *Term {
	switch s {
	case sBool:
		return tFalse
	case sInt:
		return mkInt(0)
	case sStr:
		return mkStr("")
	case sV:
		return tNilV
	case sF64:
		return mkUF("f64lit_0", sF64)
	}
	if isSeq(s) {
		return mkEmpty(s)
	}
	if strings.HasPrefix(s, "P_") {
		return mkNilPtr(s)
	}
	if strings.HasPrefix(s, "S_") {
		info := structInfo(s)
		if info.Opaque {
			return mkUF("zero_"+s, s)
		}
		var args []*Term
		for _, f := range info.Fields {
			args = append(args, zeroOfSort(f.Sort))
		}
		return raw("mk:"+s, s, 0, "", args...)
	}
	return mkUF("zero_"+s, s)
}
