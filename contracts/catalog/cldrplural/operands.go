package cldrplural

import (
	"math"
	"strconv"
	"strings"
)

// Contracts of the plural operands (C04).

// vIntOperands: the operands of an integer count.
func vIntOperands(ops *Operands, err error, n int64) bool {
	if n < 0 {
		n = -n
	}
	return err == nil && ops != nil && ops.N == float64(n) && ops.I == n &&
		ops.V == 0 && ops.W == 0 && ops.F == 0 && ops.T == 0 && ops.C == 0
}

// vSameOperands: two results of NewOperands agree.
func vSameOperands(a *Operands, aerr error, b *Operands, berr error) bool {
	return (aerr == nil) == (berr == nil) && vImp(aerr == nil, *a == *b)
}

//verif:prop C04
//verif:opaque @/catalog/cldrplural.newOperandsString
func vc_Signed(i int, i8 int8, i16 int16, i32 int32, i64 int64) {
	o1, e1 := NewOperands(i)
	vEnsures("int", vImp(i != math.MinInt64, vIntOperands(o1, e1, int64(i))))
	o2, e2 := NewOperands(i8)
	vEnsures("int8", vIntOperands(o2, e2, int64(i8)))
	o3, e3 := NewOperands(i16)
	vEnsures("int16", vIntOperands(o3, e3, int64(i16)))
	o4, e4 := NewOperands(i32)
	vEnsures("int32", vIntOperands(o4, e4, int64(i32)))
	o5, e5 := NewOperands(i64)
	vEnsures("int64", vImp(i64 != math.MinInt64, vIntOperands(o5, e5, i64)))
	vEnsures("no write to shared state", vUnchanged())
}

//verif:prop C04
//verif:opaque @/catalog/cldrplural.newOperandsString
func vc_Unsigned(i uint, i8 uint8, i16 uint16, i32 uint32, i64 uint64) {
	o1, e1 := NewOperands(i)
	vEnsures("uint", vImp(i <= math.MaxInt64, vIntOperands(o1, e1, int64(i))))
	o2, e2 := NewOperands(i8)
	vEnsures("uint8", vIntOperands(o2, e2, int64(i8)))
	o3, e3 := NewOperands(i16)
	vEnsures("uint16", vIntOperands(o3, e3, int64(i16)))
	o4, e4 := NewOperands(i32)
	vEnsures("uint32", vIntOperands(o4, e4, int64(i32)))
	o5, e5 := NewOperands(i64)
	vEnsures("uint64", vImp(i64 <= math.MaxInt64, vIntOperands(o5, e5, int64(i64))))
}

//verif:prop C04
func vc_Nil() {
	_, err := NewOperands(nil)
	vEnsures("nil is an error", err != nil)
}

// A floating-point count has the operands of its shortest decimal text.
//
//verif:prop C04
//verif:opaque @/catalog/cldrplural.newOperandsString
func vc_Float(f float64, g float32) {
	o1, e1 := NewOperands(f)
	w1, x1 := newOperandsString(strconv.FormatFloat(f, 'f', -1, 64))
	vEnsures("float64", vSameOperands(o1, e1, w1, x1))
	o2, e2 := NewOperands(g)
	w2, x2 := newOperandsString(strconv.FormatFloat(float64(g), 'f', -1, 32))
	vEnsures("float32", vSameOperands(o2, e2, w2, x2))
}

//verif:prop C04
//verif:opaque @/catalog/cldrplural.newOperandsString
func vc_Text(s string) {
	o, e := NewOperands(s)
	w, x := newOperandsString(s)
	vEnsures("a text is read as it is", vSameOperands(o, e, w, x))
}

// The operands of the text [sign]ip.fp with fp = tp followed by zeros.
func vDecimal(sign, ip, tp, zeros string) {
	vRequires(vMatch(ip, "[0-9]+") && vMatch(tp, "([0-9]*[1-9])?") && vMatch(zeros, "0*"))
	vRequires(len(ip)+len(tp)+len(zeros) < 290)
	fp := tp + zeros
	vRequires(fp != "")
	ops, err := newOperandsString(sign + ip + "." + fp)
	i, ierr := strconv.ParseInt(ip, 10, 64)
	f, ferr := strconv.ParseInt(fp, 10, 64)
	t, terr := strconv.ParseInt(tp, 10, 64)
	vEnsures("an error exactly when the digits do not fit", (err == nil) == (ierr == nil && ferr == nil))
	if err == nil {
		n, _ := strconv.ParseFloat(ip+"."+fp, 64)
		vEnsures("n", ops.N == n)
		vEnsures("i", ops.I == i)
		vEnsures("v", ops.V == int64(len(fp)))
		vEnsures("w", ops.W == int64(len(tp)))
		vEnsures("f", ops.F == f)
		vEnsures("t", vImp(tp != "", terr == nil && ops.T == t))
		vEnsures("t of no digits", vImp(tp == "", ops.T == 0))
		vEnsures("c", ops.C == 0)
	}
}

//verif:prop C04
func vc_Decimal(ip, tp, zeros string) { vDecimal("", ip, tp, zeros) }

//verif:prop C04
func vc_DecimalMinus(ip, tp, zeros string) { vDecimal("-", ip, tp, zeros) }

//verif:prop C04
func vc_DecimalPlus(ip, tp, zeros string) { vDecimal("+", ip, tp, zeros) }

// The operands of an integer text.
func vDigits(sign, ip string) {
	vRequires(vMatch(ip, "[0-9]+") && len(ip) < 290)
	ops, err := newOperandsString(sign + ip)
	i, ierr := strconv.ParseInt(ip, 10, 64)
	vEnsures("an error exactly when the digits do not fit", (err == nil) == (ierr == nil))
	if err == nil {
		n, _ := strconv.ParseFloat(ip, 64)
		vEnsures("all operands", *ops == Operands{N: n, I: i})
	}
}

//verif:prop C04
func vc_Digits(ip string) { vDigits("", ip) }

//verif:prop C04
func vc_DigitsMinus(ip string) { vDigits("-", ip) }

//verif:prop C04
func vc_DigitsPlus(ip string) { vDigits("+", ip) }

// The sign does not matter.
//
//verif:prop C04
func vc_Sign(ip, fp string) {
	vRequires(vMatch(ip, "[0-9]+") && vMatch(fp, "[0-9]*") && len(ip)+len(fp) < 290)
	for _, sign := range []string{"", "-", "+"} {
		p, err := plainDecimal(sign + ip + "." + fp)
		vEnsures("no error for a decimal", err == nil)
		vEnsures("the digits without the sign", p == ip+"."+fp)
		p, err = plainDecimal(sign + ip)
		vEnsures("no error for an integer", err == nil)
		vEnsures("the digits without the sign", p == ip)
	}
}

// A text that is no finite number is an error.
//
//verif:prop C04
func vc_NotANumber(s string) {
	f, ferr := strconv.ParseFloat(s, 64)
	_, err := plainDecimal(s)
	vEnsures("an error", vImp(ferr != nil || math.IsNaN(f) || math.IsInf(f, 0), err != nil))
}

//verif:prop C04
//verif:opaque @/catalog/cldrplural.plainDecimal
func vc_NotANumberOperands(s string) {
	vRequires(!strings.Contains(s, "c"))
	_, perr := plainDecimal(s)
	vRequires(perr != nil)
	_, err := newOperandsString(s)
	vEnsures("an error", err != nil)
}
