package main

// propagate rewrites a set of assertions with what its own members say: an asserted literal is true in the others, and an
// equation with an application or a constant on one side replaces that side in the others. The result says the same.
func propagate(asserts []*Term) []*Term {
	as := flatten(asserts)
	used := map[*Term]bool{} // equations already put into the others
	for round := 0; round < 200; round++ {
		f := newFacts()
		for _, a := range as {
			if isLiteral(a) {
				f.add(a, true)
			}
		}
		changed := false
		var next []*Term
		for _, a := range as {
			if !isLiteral(a) {
				b := f.simp(a)
				changed = changed || b != a
				a = b
			}
			next = append(next, a)
		}
		as = flatten(next)
		var eq, l, r *Term
		for _, a := range as {
			if !used[a] && a.Op == "=" {
				used[a] = true
				if l, r = orient(a); l != nil {
					eq = a
					break
				}
			}
		}
		if eq != nil {
			m := map[*Term]*Term{l: r}
			next = nil
			for _, a := range as {
				if a != eq {
					a = subst(a, m)
				}
				next = append(next, a)
			}
			as = flatten(next)
		}
		for _, a := range as {
			if a == tFalse {
				return []*Term{tFalse}
			}
		}
		if eq == nil && !changed {
			break
		}
	}
	return as
}

func isLiteral(a *Term) bool {
	if a.Op == "not" {
		a = a.Args[0]
	}
	return a.Op != "and" && a.Op != "or" && a.Op != "ite" && a.Op != "not" && a.Op != "forall"
}

func flatten(ts []*Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term)
	add = func(t *Term) {
		if t.Op == "and" {
			for _, a := range t.Args {
				add(a)
			}
			return
		}
		if t == tTrue || seen[t] {
			return
		}
		seen[t] = true
		out = append(out, t)
	}
	for _, t := range ts {
		add(t)
	}
	return out
}

// orient says which side of an equation is replaced by the other.
func orient(a *Term) (*Term, *Term) {
	l, r := a.Args[0], a.Args[1]
	if replaceable(l) && !contains(r, l) && (!replaceable(r) || rank(l) >= rank(r) || contains(l, r)) {
		return l, r
	}
	if replaceable(r) && !contains(l, r) {
		return r, l
	}
	return nil, nil
}

func replaceable(t *Term) bool {
	return t.Op == "const" || len(t.Op) > 3 && t.Op[:3] == "uf:"
}

func rank(t *Term) int {
	if t.Op == "const" {
		return 0
	}
	n := 0
	walk(func(*Term) bool { n++; return n < 1000 }, t)
	return n
}

func contains(t, sub *Term) bool {
	found := false
	walk(func(x *Term) bool {
		if x == sub {
			found = true
		}
		return !found
	}, t)
	return found
}
