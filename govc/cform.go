package main

import (
	"fmt"
	"math/big"
	"strings"
)

// The specification intrinsics vCForm and vCNPlurals: the value of a Plural-Forms header as
// C defines it.  This is the oracle's own parser; it shares nothing with the code under test.

type cParser struct {
	s string
	i int
	n *Term
}

type cErr struct{ msg string }

func (p *cParser) fail(f string, a ...any) { panic(cErr{fmt.Sprintf(f, a...)}) }

func (p *cParser) ws() {
	for p.i < len(p.s) && strings.ContainsRune(" \t\n\r\v\f", rune(p.s[p.i])) {
		p.i++
	}
}

func (p *cParser) eat(t string) bool {
	p.ws()
	if strings.HasPrefix(p.s[p.i:], t) {
		p.i += len(t)
		return true
	}
	return false
}

func cBool(c *Term) *Term  { return Ite(c, Int(1), Int(0)) }
func cTruth(t *Term) *Term { return Not(Eq(t, Int(0))) }

func (p *cParser) cond() *Term {
	c := p.binary(0)
	if p.eat("?") {
		t := p.cond()
		if !p.eat(":") {
			p.fail("':' expected at %d", p.i)
		}
		f := p.cond()
		return Ite(cTruth(c), t, f)
	}
	return c
}

var cLevels = [][]string{{"||"}, {"&&"}, {"==", "!="}, {"<=", ">=", "<", ">"}, {"+", "-"}, {"*", "/", "%"}}

func (p *cParser) binary(l int) *Term {
	if l == len(cLevels) {
		return p.unary()
	}
	a := p.binary(l + 1)
next:
	for {
		for _, o := range cLevels[l] {
			if p.eat(o) {
				b := p.binary(l + 1)
				switch o {
				case "||":
					a = cBool(Or(cTruth(a), cTruth(b)))
				case "&&":
					a = cBool(And(cTruth(a), cTruth(b)))
				case "==":
					a = cBool(Eq(a, b))
				case "!=":
					a = cBool(Not(Eq(a, b)))
				case "<=":
					a = cBool(Le(a, b))
				case ">=":
					a = cBool(Le(b, a))
				case "<":
					a = cBool(Lt(a, b))
				case ">":
					a = cBool(Lt(b, a))
				case "+":
					a = Add(a, b)
				case "-":
					a = Sub(a, b)
				case "%":
					if !b.IsInt() || b.I.Sign() == 0 {
						p.fail("modulus is not a constant")
					}
					a = trem(a, b)
				default:
					p.fail("operator %s", o)
				}
				continue next
			}
		}
		return a
	}
}

func (p *cParser) unary() *Term {
	p.ws()
	if p.eat("!") {
		return cBool(Not(cTruth(p.unary())))
	}
	if p.eat("(") {
		t := p.cond()
		if !p.eat(")") {
			p.fail("')' expected at %d", p.i)
		}
		return t
	}
	if p.eat("n") {
		return p.n
	}
	j := p.i
	for j < len(p.s) && p.s[j] >= '0' && p.s[j] <= '9' {
		j++
	}
	if j == p.i {
		p.fail("operand expected at %d", p.i)
	}
	v, _ := new(big.Int).SetString(p.s[p.i:j], 10)
	p.i = j
	return BigInt(v)
}

// cForm parses "nplurals=N; plural=EXPR;".
func cForm(s string, n *Term) (np int64, form *Term, err error) {
	p := &cParser{s: s, n: n}
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(cErr); ok {
				err = fmt.Errorf("%s in %q", e.msg, s)
				return
			}
			panic(r)
		}
	}()
	if !p.eat("nplurals") || !p.eat("=") {
		p.fail("nplurals expected")
	}
	p.ws()
	k := p.unary()
	if !k.IsInt() || !p.eat(";") || !p.eat("plural") || !p.eat("=") {
		p.fail("plural= expected")
	}
	np = k.I.Int64()
	form = p.cond()
	p.eat(";")
	p.ws()
	if p.i != len(s) {
		p.fail("text after the formula")
	}
	return
}

// knownString: the literal a string term stands for on this path.
func knownString(st *State, t *Term) (string, bool) {
	if t.Op == "str" {
		return t.Str, true
	}
	for _, p := range st.pc {
		if p.t.Op == "=" {
			a, b := p.t.Args[0], p.t.Args[1]
			if a == t && b.Op == "str" {
				return b.Str, true
			}
			if b == t && a.Op == "str" {
				return a.Str, true
			}
		}
	}
	return "", false
}
