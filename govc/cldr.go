package main

import (
	"fmt"
	"math/big"
	"strings"
)

// The specification intrinsic vCLDR(rule, n, i, v, w, f, t, c): does the CLDR plural rule
// text hold for the operands (UTS 35, plural rules syntax).  The oracle's own parser.

func cldrRule(rule string, ops map[string]*Term) (res *Term, err error) {
	if i := strings.Index(rule, "@"); i >= 0 {
		rule = rule[:i]
	}
	rule = strings.TrimSpace(rule)
	if rule == "" {
		return True, nil
	}
	var ors []*Term
	for _, o := range strings.Split(rule, " or ") {
		var ands []*Term
		for _, r := range strings.Split(o, " and ") {
			t, err := cldrRelation(strings.TrimSpace(r), ops)
			if err != nil {
				return nil, fmt.Errorf("%v in %q", err, rule)
			}
			ands = append(ands, t)
		}
		ors = append(ors, And(ands...))
	}
	return Or(ors...), nil
}

func cldrRelation(r string, ops map[string]*Term) (*Term, error) {
	neg := false
	l, list, ok := strings.Cut(r, "!=")
	if ok {
		neg = true
	} else if l, list, ok = strings.Cut(r, "="); !ok {
		return nil, fmt.Errorf("relation expected: %q", r)
	}
	name, modS, hasMod := strings.Cut(l, "%")
	x := ops[strings.TrimSpace(name)]
	if x == nil {
		return nil, fmt.Errorf("operand expected: %q", name)
	}
	num := func(s string) (*big.Int, error) {
		v, ok := new(big.Int).SetString(strings.TrimSpace(s), 10)
		if !ok {
			return nil, fmt.Errorf("number expected: %q", s)
		}
		return v, nil
	}
	isReal := x.S == RealS
	val := func(v *big.Int) *Term {
		if isReal {
			return Rat(new(big.Rat).SetInt(v))
		}
		return BigInt(v)
	}
	if hasMod {
		m, err := num(modS)
		if err != nil {
			return nil, err
		}
		if isReal { // n - m*floor(n/m) for the non-negative n
			if x.Op == "to_real" {
				x = toReal(EMod(x.Args[0], BigInt(m)))
			} else {
				x = Sub(x, Mul(val(m), realFloor(RDiv(x, val(m)))))
			}
		} else {
			x = EMod(x, BigInt(m))
		}
	}
	var cs []*Term
	for _, e := range strings.Split(list, ",") {
		a, b, isRange := strings.Cut(e, "..")
		lo, err := num(a)
		if err != nil {
			return nil, err
		}
		if !isRange {
			cs = append(cs, Eq(x, val(lo)))
			continue
		}
		hi, err := num(b)
		if err != nil {
			return nil, err
		}
		c := And(Le(val(lo), x), Le(x, val(hi)))
		if isReal {
			c = And(c, Eq(x, realFloor(x)))
		}
		cs = append(cs, c)
	}
	if neg {
		return Not(Or(cs...)), nil
	}
	return Or(cs...), nil
}
