package main

import (
	"fmt"
	"math/rand"
	"strings"
)

// ---- C expressions of Plural-Forms headers: model, printer and evaluator of the oracle

type cx struct {
	op      string // "n", "num", "?:", or a binary operator
	v       int64
	a, b, c *cx
}

var cPrec = map[string]int{"||": 1, "&&": 2, "==": 3, "!=": 3, "<": 4, ">": 4, "<=": 4, ">=": 4, "%": 5}

type cDivZero struct{}

// eval is the value C gives; the remainder by zero is undefined and panics with cDivZero.
func (e *cx) eval(n int64) int64 {
	t := func(b bool) int64 { return int64(b2i(b)) }
	switch e.op {
	case "n":
		return n
	case "num":
		return e.v
	case "?:":
		if e.a.eval(n) != 0 {
			return e.b.eval(n)
		}
		return e.c.eval(n)
	case "||":
		return t(e.a.eval(n) != 0 || e.b.eval(n) != 0)
	case "&&":
		return t(e.a.eval(n) != 0 && e.b.eval(n) != 0)
	case "==":
		return t(e.a.eval(n) == e.b.eval(n))
	case "!=":
		return t(e.a.eval(n) != e.b.eval(n))
	case "<":
		return t(e.a.eval(n) < e.b.eval(n))
	case ">":
		return t(e.a.eval(n) > e.b.eval(n))
	case "<=":
		return t(e.a.eval(n) <= e.b.eval(n))
	case ">=":
		return t(e.a.eval(n) >= e.b.eval(n))
	case "%":
		x, y := e.a.eval(n), e.b.eval(n)
		if y == 0 {
			panic(cDivZero{})
		}
		return x % y
	}
	panic("op " + e.op)
}

// value evaluates, ok is false when C leaves the value undefined.
func (e *cx) value(n int64) (r int64, ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(cDivZero); !is {
				panic(x)
			}
			ok = false
		}
	}()
	return e.eval(n), true
}

// text prints with the parentheses C needs and, when rnd is given, random additional ones
// and random blanks.
func (e *cx) text(min int, rnd *rand.Rand) string {
	sp := func() string {
		if rnd == nil {
			return " "
		}
		return []string{"", " ", "", "  ", "\t", " "}[rnd.Intn(6)]
	}
	var s string
	prec := 9
	switch e.op {
	case "n":
		s = "n"
	case "num":
		s = fmt.Sprint(e.v)
	case "?:":
		prec = 0
		s = e.a.text(1, rnd) + sp() + "?" + sp() + e.b.text(0, rnd) + sp() + ":" + sp() + e.c.text(0, rnd)
	default:
		prec = cPrec[e.op]
		s = e.a.text(prec, rnd) + sp() + e.op + sp() + e.b.text(prec+1, rnd)
	}
	if prec < min || (rnd != nil && rnd.Intn(9) == 0) {
		s = "(" + sp() + s + sp() + ")"
	}
	return s
}

type cxp struct {
	s string
	i int
}

func (p *cxp) eat(t string) bool {
	for p.i < len(p.s) && strings.ContainsRune(" \t\n", rune(p.s[p.i])) {
		p.i++
	}
	if strings.HasPrefix(p.s[p.i:], t) {
		p.i += len(t)
		return true
	}
	return false
}

func (p *cxp) expr() *cx {
	c := p.bin(1)
	if p.eat("?") {
		t := p.expr()
		if !p.eat(":") {
			panic("colon expected: " + p.s)
		}
		return &cx{op: "?:", a: c, b: t, c: p.expr()}
	}
	return c
}

var cLev = [][]string{1: {"||"}, {"&&"}, {"==", "!="}, {"<=", ">=", "<", ">"}, {"%"}}

func (p *cxp) bin(l int) *cx {
	if l == 6 {
		if p.eat("(") {
			e := p.expr()
			if !p.eat(")") {
				panic("parenthesis expected: " + p.s)
			}
			return e
		}
		if p.eat("n") {
			return &cx{op: "n"}
		}
		p.eat("")
		v, d := int64(0), false
		for p.i < len(p.s) && p.s[p.i] >= '0' && p.s[p.i] <= '9' {
			dig := int64(p.s[p.i] - '0')
			if v > (1<<63-1-dig)/10 {
				panic("number out of range: " + p.s)
			}
			v, d = v*10+dig, true
			p.i++
		}
		if !d {
			panic("operand expected: " + p.s)
		}
		return &cx{op: "num", v: v}
	}
	e := p.bin(l + 1)
next:
	for {
		for _, o := range cLev[l] {
			if p.eat(o) {
				e = &cx{op: o, a: e, b: p.bin(l + 1)}
				continue next
			}
		}
		return e
	}
}

// cHeaderTry is cHeader for any text: ok is false when the header is malformed.
func cHeaderTry(h string) (n int, e *cx, ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(string); !is {
				panic(x)
			}
			ok = false
		}
	}()
	n, e = cHeader(h)
	return n, e, true
}

// cHeader parses "nplurals=N; plural=EXPR;".
func cHeader(h string) (int, *cx) {
	p := &cxp{s: h}
	ok := p.eat("nplurals") && p.eat("=")
	n := p.bin(6)
	ok = ok && p.eat(";") && p.eat("plural") && p.eat("=")
	e := p.expr()
	if !ok || n.op != "num" || !p.eat(";") || (!p.eat("") && p.i != len(p.s)) || p.i != len(p.s) {
		panic("bad header " + h)
	}
	return int(n.v), e
}
