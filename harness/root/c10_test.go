package asn1go

import "fmt"

func init() { vProps["C10"] = replayLookup }

// the oracle is independent of the specification functions used by the proof
func replayLookup(h *vh) {
	h.rep.Rule = "all assignment lists up to length 4 over two names and both kinds, then random longer ones; every name and one absent; non-trivial if the list is not empty"
	mk := func(code []int) AssignmentList {
		var l AssignmentList
		for i, c := range code {
			name := []string{"A", "a", "B-c", "Bc", "b"}[c/2]
			if c%2 == 0 {
				var t Type = IntegerType{}
				if i%2 == 1 {
					t = SequenceType{Components: ComponentTypeList{NamedComponentType{NamedType: NamedType{Identifier: Identifier(fmt.Sprint("f", i)), Type: TypeReference("X")}}}}
				}
				l = append(l, TypeAssignment{TypeReference(name), t})
			} else {
				var v Value = Number(i)
				if i%3 == 1 {
					v = DefinedValue{ValueName: ValueReference([]string{"A", "a", "B-c", "Bc", "b"}[(c/2+i)%5])}
				}
				var t Type = BooleanType{}
				if i%4 == 2 {
					t = TypeReference([]string{"A", "a", "B-c"}[i%3])
				}
				l = append(l, ValueAssignment{ValueReference(name), t, v})
			}
		}
		return l
	}
	one := func(code []int) {
		for _, n := range []string{"A", "a", "B-c", "Bc", "b", "", "C"} {
			h.try("lookup", fmt.Sprintf("%#v looking up %q", mk(code), n), len(code) > 0, func() string {
				l, ref := mk(code), mk(code)
				var want Assignment
				for _, a := range ref {
					nm := ""
					switch t := a.(type) {
					case TypeAssignment:
						nm = string(t.TypeReference)
					case ValueAssignment:
						nm = string(t.ValueReference)
					}
					if nm == n {
						want = a
						break
					}
				}
				got, gt, gv := l.Get(n), l.GetType(n), l.GetValue(n)
				if !eq(got, want) {
					return fmt.Sprintf("Get gives %#v, first match is %#v", got, want)
				}
				if wt, ok := want.(TypeAssignment); ok != (gt != nil) || ok && !eq(*gt, wt) {
					return fmt.Sprintf("GetType gives %#v, first match is %#v", gt, want)
				}
				if wv, ok := want.(ValueAssignment); ok != (gv != nil) || ok && !eq(*gv, wv) {
					return fmt.Sprintf("GetValue gives %#v, first match is %#v", gv, want)
				}
				if !eq(l, ref) {
					return fmt.Sprintf("lookup changed the list to %#v", l)
				}
				return ""
			})
		}
	}
	var rec func(code []int, n int)
	rec = func(code []int, n int) {
		one(code)
		if n == 0 {
			return
		}
		for c := 0; c < 4; c++ {
			rec(append(append([]int{}, code...), c), n-1)
		}
	}
	rec(nil, 4)
	for i := 0; i < 300 && !h.over(); i++ {
		code := make([]int, 1+h.rnd.Intn(70))
		for j := range code {
			code[j] = h.rnd.Intn(10)
		}
		one(code)
	}
}
