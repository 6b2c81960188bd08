package main

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"

	"github.com/vorlif/spreak/catalog/cldrplural"
)

// ---- plural operands against an independent decimal model

type oper struct {
	n                float64
	i, v, w, f, t, c int64
}

var reDecimal = regexp.MustCompile(`^[+-]?(\d+(\.\d*)?|\.\d+)(c(\d+))?$`)
var errOperands = errors.New("no operands")

// modelOperands: the operands of a decimal string; definite is false for texts that are
// neither decimal nor clearly non-numeric (exponents, hexadecimal numbers).
func modelOperands(s string) (o oper, err error) {
	if !reDecimal.MatchString(s) {
		return o, errOperands
	}
	s = strings.TrimLeft(s, "+-")
	m, e, hasE := strings.Cut(s, "c")
	ip, fp, _ := strings.Cut(m, ".")
	if hasE {
		c, ok := new(big.Int).SetString(e, 10)
		if !ok || c.Cmp(big.NewInt(18)) > 0 {
			return o, errOperands
		}
		o.c = c.Int64()
		for k := int64(0); k < o.c; k++ {
			if fp == "" {
				ip += "0"
			} else {
				ip, fp = ip+fp[:1], fp[1:]
			}
		}
	}
	num := func(d string) int64 {
		if d == "" {
			return 0
		}
		b, _ := new(big.Int).SetString(d, 10)
		if !b.IsInt64() {
			err = errOperands
			return 0
		}
		return b.Int64()
	}
	tp := strings.TrimRight(fp, "0")
	o.i, o.f, o.t = num(ip), num(fp), num(tp)
	o.v, o.w = int64(len(fp)), int64(len(tp))
	r, _ := new(big.Rat).SetString("0" + ip + "." + fp + "0")
	o.n, _ = r.Float64()
	return o, err
}

func (h *H) checkOperands(key string, a any, want oper, werr error) {
	in := fmt.Sprintf("NewOperands(%T(%v))", a, a)
	if s, ok := a.(string); ok {
		in = fmt.Sprintf("NewOperands(%q)", s)
	}
	h.Case(key, in, func() {
		got, err := cldrplural.NewOperands(a)
		if werr != nil {
			if err == nil {
				h.Fail(key, in, fmt.Sprintf("got %+v, want an error", *got))
			}
			return
		}
		if err != nil {
			h.Fail(key, in, "error "+err.Error())
			return
		}
		g := oper{got.N, got.I, got.V, got.W, got.F, got.T, got.C}
		h.Checkf(g == want, key, in, "got %+v, want %+v", g, want)
	})
}

func intOper(n int64) (oper, error) {
	if n == math.MinInt64 {
		return oper{}, errOperands
	}
	if n < 0 {
		n = -n
	}
	return oper{n: float64(n), i: n}, nil
}

func init() {
	register("C04", "plural operands of all integer and float types, decimal strings and non-numeric strings against a big-number model; distinct means different value and type", func(h *H) {
		var ns []int64
		for i := int64(-300); i <= 300; i++ {
			ns = append(ns, i)
		}
		for p := int64(1000); p < 1e18; p *= 10 {
			for d := int64(-2); d <= 2; d++ {
				ns = append(ns, p+d, -p+d, 3*p+d, p/7+d)
			}
		}
		for b := 7; b < 64; b++ {
			for d := int64(-2); d <= 2; d++ {
				ns = append(ns, int64(uint64(1)<<b)+d, -int64(uint64(1)<<b)+d)
			}
		}
		ns = append(ns, 1234567, 1<<31-1, 16777217, 9007199254740993, 1<<63-1, -1<<63)
		for i := 0; i < h.n(1500); i++ {
			ns = append(ns, int64(h.rnd.Uint64())>>uint(h.rnd.Intn(63)))
		}
		ns = append(ns, h.ints...)
		for _, n := range ns {
			o, e := intOper(n)
			h.checkOperands("c04/int64", n, o, e)
			h.checkOperands("c04/int", int(n), o, e)
			h.checkOperands("c04/pointer", &n, o, e)
			h.checkOperands("c04/string-int", strconv.FormatInt(n, 10), o, e)
			if n >= 0 {
				h.checkOperands("c04/uint64", uint64(n), o, e)
				h.checkOperands("c04/uint", uint(n), o, e)
				h.checkOperands("c04/uint32", uint32(n&(1<<32-1)), oper{n: float64(n & (1<<32 - 1)), i: n & (1<<32 - 1)}, nil)
			}
			o, e = intOper(int64(int32(n)))
			h.checkOperands("c04/int32", int32(n), o, e)
			o, e = intOper(int64(int16(n)))
			h.checkOperands("c04/int16", int16(n), o, e)
			o, e = intOper(int64(int8(n)))
			h.checkOperands("c04/int8", int8(n), o, e)
			o, e = intOper(int64(uint16(n)))
			h.checkOperands("c04/uint16", uint16(n), o, e)
			o, e = intOper(int64(uint8(n)))
			h.checkOperands("c04/uint8", uint8(n), o, e)
		}
		type named int32
		type namedF float64
		for _, n := range []int32{0, 1, -1, 2, 5, 100, 1000000, 1234567, 1<<31 - 1, -1 << 31} {
			o, _ := intOper(int64(n))
			h.checkOperands("c04/named", named(n), o, nil)
		}
		h.checkOperands("c04/uint64", uint64(1<<63), oper{}, errOperands)
		h.checkOperands("c04/uint64", uint64(math.MaxUint64), oper{}, errOperands)
		// floats
		fs := []float64{0, math.Copysign(0, -1), 1, 1.5, -1.5, 0.1, 0.5, 2.25, 100, 1e5, 999999, 1e6, 1234567, 123456.5, 1234567.25, 1e15, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22, 1e100, 1e308,
			9223372036854775807, 9223372036854774784, 1e-4, 1e-5, 1.5e-6, 1e-10, 123e-20, 1e-300, 5e-324, math.NaN(), math.Inf(1), math.Inf(-1), 0.30000000000000004, 0.9999999, 1.0000001, 16777217}
		for i := 0; i < h.n(3000); i++ {
			switch i % 4 {
			case 0:
				fs = append(fs, math.Float64frombits(h.rnd.Uint64()))
			case 1:
				fs = append(fs, float64(h.rnd.Intn(1e7))/math.Pow(10, float64(h.rnd.Intn(6))))
			case 2:
				fs = append(fs, math.Floor(h.rnd.Float64()*math.Pow(10, float64(h.rnd.Intn(22)))))
			case 3:
				fs = append(fs, -h.rnd.ExpFloat64()*math.Pow(10, float64(h.rnd.Intn(12))))
			}
		}
		for _, f := range fs {
			for _, a := range []any{f, float32(f), namedF(f)} {
				v, bits, key := f, 64, "c04/float64"
				switch x := a.(type) {
				case float32:
					v, bits, key = float64(x), 32, "c04/float32"
				case namedF:
					if i := math.Abs(f); i < 1e-4 || i >= 1e6 {
						continue
					}
					key = "c04/named"
				}
				o, e := modelOperands(strconv.FormatFloat(v, 'f', -1, bits))
				h.checkOperands(key, a, o, e)
			}
			if !math.IsNaN(f) && !math.IsInf(f, 0) {
				o, e := modelOperands(strconv.FormatFloat(f, 'f', -1, 64))
				h.checkOperands("c04/exponent-string", strconv.FormatFloat(f, 'e', -1, 64), o, e)
			}
		}
		// decimal strings
		dig := func(n int) string {
			b := make([]byte, n)
			for i := range b {
				b[i] = "0123456789005"[h.rnd.Intn(13)]
			}
			return string(b)
		}
		ss := []string{"", ".", "-", "+", "c", "0", "-0", "00", "007", "1.", ".5", "-.5", "+1.50", "1.0", "1.00", "0.0", "1.230", "1c6", "1.2c6", "1.2c0", "1.20050c3", "1.5c1", "12.345c2", "0c5", "c5", "1c", "1cc2", "1c2c3",
			"15c-1", "15c+1", "1c19", "1c18", "1c99999999999", "1.2.3", "1.2.3c1", "1.2.3c2", "1 ", " 1", "1,5", "1_000", "0x10", "0xg", "abc", "NaN", "nan", "Inf", "-inf", "Infinity", "infinityc1", "1e", "e5", "1e400", "--1", "1-", "1.-5", "1.+5", "٣",
			"9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551616", "0.9223372036854775807", "0.9223372036854775808", "1.000000000000000000000000000", "0.00000000000000000000001", "123456789012345678901234567890", "15e-1c0", "%d", "\x00", "1\n"}
		for i := 0; i < h.n(4000); i++ {
			s := []string{"", "", "-", "+"}[h.rnd.Intn(4)] + dig(h.rnd.Intn(20))
			if h.rnd.Intn(4) > 0 {
				s += "." + dig(h.rnd.Intn(20))
			}
			if h.rnd.Intn(3) == 0 {
				s += "c" + strconv.Itoa(h.rnd.Intn(21))
			}
			ss = append(ss, s)
			if h.rnd.Intn(3) == 0 && s != "" {
				b := []byte(s)
				b[h.rnd.Intn(len(b))] = ".-+c0x _,9"[h.rnd.Intn(10)]
				ss = append(ss, string(b))
			}
		}
		ss = append(ss, h.strs...)
		for _, s := range ss {
			o, e := modelOperands(s)
			if e != nil && !reDecimal.MatchString(s) {
				// texts with exponents or hexadecimal digits may be accepted, then with the operands of their value
				if f, err := strconv.ParseFloat(s, 64); err == nil && !math.IsNaN(f) && !math.IsInf(f, 0) && strings.ContainsAny(s, "eExX") {
					o, e = modelOperands(strconv.FormatFloat(f, 'f', -1, 64))
				} else if m, c, ok := strings.Cut(s, "c"); ok && strings.ContainsAny(m, "eExX") {
					continue // mixed notations are not specified
				} else if ok && len(c) > 1 && c[0] == '+' {
					o, e = modelOperands(m + "c" + c[1:])
				}
			}
			h.checkOperands("c04/string", s, o, e)
		}
		var nilInt *int
		for _, a := range []any{nil, nilInt, struct{}{}, []int{1}, map[string]int{}, "x", true, func() {}, make(chan int)} {
			h.checkOperands("c04/non-numeric", a, oper{}, errOperands)
		}
	})
}
