package main

import "fmt"

// The elements of a slice are the entries offset+i of its array. A quantifier over i is
// equivalent to the one over j = offset+i, in which the solver finds the entries as patterns.

var shiftMemo = map[*Term]*Term{}

func shiftQuants(t *Term) *Term {
	if !hasQuant(t) {
		return t
	}
	if r, ok := shiftMemo[t]; ok {
		return r
	}
	var r *Term
	if t.Op == "forall" || t.Op == "exists" {
		r = shiftQuant(t)
	} else {
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = shiftQuants(a)
			ch = ch || args[i] != a
		}
		r = t
		if ch {
			r = rebuild(t, args)
		}
	}
	shiftMemo[t] = r
	return r
}

func shiftQuant(t *Term) *Term {
	body := shiftQuants(t.Args[0])
	bound := map[*Term]bool{}
	for _, v := range t.Bnd {
		bound[v] = true
	}
	// how the bound variables index arrays
	offs := map[*Term]*Term{} // variable -> the sum it is used in
	bad := map[*Term]bool{}
	seen := map[*Term]bool{}
	var walk func(x *Term)
	walk = func(x *Term) {
		if seen[x] || !x.hasB && x.Op != "forall" && x.Op != "exists" {
			return
		}
		seen[x] = true
		if x.Op == "select" {
			i := x.Args[1]
			if base, _ := splitOff(i); base != nil {
				i = base
			}
			if bound[i] {
				bad[i] = true
			} else if i.Op == "+" && len(i.Args) == 2 && i.S == IntS {
				for k, a := range i.Args {
					if b := i.Args[1-k]; bound[a] && closedOver(b, bound) {
						if o := offs[a]; o == nil {
							offs[a] = i
						} else if o != i {
							bad[a] = true
						}
					}
				}
			}
		}
		for _, a := range x.Args {
			walk(a)
		}
	}
	walk(body)
	m := map[*Term]*Term{}
	bnd := append([]*Term(nil), t.Bnd...)
	for k, v := range bnd {
		x := offs[v]
		if x == nil || bad[v] {
			continue
		}
		off := x.Args[0]
		if off == v {
			off = x.Args[1]
		}
		nv := *v
		nv.Name = fmt.Sprintf("%s@%d", v.Name, off.ID)
		j := intern(&nv)
		m[x] = j
		m[v] = op("-", IntS, j, off)
		bnd[k] = j
	}
	if len(m) > 0 {
		body = substDeep(body, m)
	}
	if body == True || body == False {
		return body
	}
	return intern(&Term{Op: t.Op, S: BoolS, Bnd: bnd, Args: []*Term{body}})
}

// substDeep replaces terms everywhere, under quantifiers too.
func substDeep(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = f(a)
			ch = ch || args[i] != a
		}
		r := t
		if ch {
			if t.Op == "forall" || t.Op == "exists" {
				r = intern(&Term{Op: t.Op, S: BoolS, Bnd: t.Bnd, Args: args})
			} else {
				r = rebuild(t, args)
			}
		}
		memo[t] = r
		return r
	}
	return f(t)
}

func closedOver(t *Term, bound map[*Term]bool) bool {
	for v := range freeB(t) {
		if bound[v] {
			return false
		}
	}
	return true
}
