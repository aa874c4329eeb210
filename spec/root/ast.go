package asn1go

// ---- C10: assignments are looked up by name

func specName(a Assignment) string {
	switch t := a.(type) {
	case TypeAssignment:
		return string(t.TypeReference)
	case ValueAssignment:
		return string(t.ValueReference)
	}
	return ""
}

// specGet is the first assignment named name at index i or later.
func specGet(l AssignmentList, name string, i int) Assignment {
	if i < 0 || i >= len(l) {
		return nil
	}
	if specName(l[i]) == name {
		return l[i]
	}
	return specGet(l, name, i+1)
}

func specGetType(l AssignmentList, name string) *TypeAssignment {
	return specTypeOf(specGet(l, name, 0))
}

func specTypeOf(a Assignment) *TypeAssignment {
	switch t := a.(type) {
	case TypeAssignment:
		return &TypeAssignment{t.TypeReference, t.Type}
	}
	return nil
}

func specGetValue(l AssignmentList, name string) *ValueAssignment {
	return specValueOf(specGet(l, name, 0))
}

func specValueOf(a Assignment) *ValueAssignment {
	switch t := a.(type) {
	case ValueAssignment:
		return &ValueAssignment{t.ValueReference, t.Type, t.Value}
	}
	return nil
}

//@ func specGet(l AssignmentList, name string, i int) (result Assignment)
//@ decreases len(l) - i
//@ props C10

//@ func (l AssignmentList) Get(name string) (result Assignment)
//@ props C10 C11 C12 C13 C14 C15
//@ ensures first: eq(result, specGet(l, name, 0))
//@ inv (i int) eq(specGet(l, name, 0), specGet(l, name, i))
//@ inv (i int) eq(specGet(l, name, 0), specGet(l, name, i+1))

//@ func (l AssignmentList) GetType(name string) (result *TypeAssignment)
//@ props C10 C11 C12 C13 C14 C15
//@ ensures type: eq(result, specGetType(l, name))
//@ inv (i int) eq(specGetType(l, name), specTypeOf(specGet(l, name, i)))
//@ inv (i int) eq(specGetType(l, name), specTypeOf(specGet(l, name, i+1)))
//@ inv (i int, p *TypeAssignment) p != nil || eq(specGetType(l, name), specTypeOf(specGet(l, name, i)))
//@ inv (i int, p *TypeAssignment) p == nil || eq(specGetType(l, name), p)

//@ func (l AssignmentList) GetValue(name string) (result *ValueAssignment)
//@ props C10
//@ ensures value: eq(result, specGetValue(l, name))
//@ inv (i int) eq(specGetValue(l, name), specValueOf(specGet(l, name, i)))
//@ inv (i int) eq(specGetValue(l, name), specValueOf(specGet(l, name, i+1)))
//@ inv (i int, p *ValueAssignment) p != nil || eq(specGetValue(l, name), specValueOf(specGet(l, name, i)))
//@ inv (i int, p *ValueAssignment) p == nil || eq(specGetValue(l, name), p)
