package poplural

import "github.com/vorlif/spreak/catalog/poplural/ast"

// Contracts of the evaluation of parsed Plural-Forms formulas (C03).

func vB(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

// vEval: the value C gives a formula; the remainder by zero, undefined in C, is 0.
//
//verif:rec
func vEval(node ast.Node, n int64) int64 {
	if e, ok := node.(*ast.ValueExpr); ok {
		return e.Value
	}
	if _, ok := node.(*ast.OperandExpr); ok {
		return n
	}
	if e, ok := node.(*ast.QuestionMarkExpr); ok {
		if vEval(e.Cond, n) != 0 {
			return vEval(e.T, n)
		}
		return vEval(e.F, n)
	}
	e, ok := node.(*ast.BinaryExpr)
	if !ok {
		return 0
	}
	x, y := vEval(e.X, n), vEval(e.Y, n)
	if e.Op == "&&" {
		return vB(x != 0 && y != 0)
	}
	if e.Op == "||" {
		return vB(x != 0 || y != 0)
	}
	if e.Op == "==" {
		return vB(x == y)
	}
	if e.Op == "!=" {
		return vB(x != y)
	}
	if e.Op == ">" {
		return vB(x > y)
	}
	if e.Op == ">=" {
		return vB(x >= y)
	}
	if e.Op == "<" {
		return vB(x < y)
	}
	if e.Op == "<=" {
		return vB(x <= y)
	}
	if e.Op == "%" && y != 0 {
		return x % y
	}
	return 0
}

// vTree: a formula as the parser builds it.
//
//verif:rec
func vTree(node ast.Node) bool {
	if e, ok := node.(*ast.ValueExpr); ok {
		return e != nil
	}
	if e, ok := node.(*ast.OperandExpr); ok {
		return e != nil
	}
	if e, ok := node.(*ast.QuestionMarkExpr); ok {
		return e != nil && vTree(e.Cond) && vTree(e.T) && vTree(e.F)
	}
	e, ok := node.(*ast.BinaryExpr)
	return ok && e != nil && vTree(e.X) && vTree(e.Y)
}

//verif:prop C03
//verif:opt fuel=1
//verif:modular @/catalog/poplural.evaluateNode
func vc_EvaluateNode(node ast.Node, num int64) int64 {
	vRequires(vTree(node))
	r := evaluateNode(node, num)
	vEnsures("the value C gives", r == vEval(node, num))
	return r
}

//verif:prop C03
func vc_GenerateFormFunc(forms *ast.Forms, n int64) {
	vRequires(forms != nil && forms.Root != nil && vTree(forms.Root))
	form := generateFormFunc(forms)(n)
	vEnsures("the formula's value", int64(form) == vEval(forms.Root, n))
	vEnsures("no write to shared state", vUnchanged())
}

//verif:prop C03
//verif:opaque @/catalog/poplural/ast.Parse @/catalog/poplural/ast.CompileToString @/catalog/poplural.getBuiltInForRawRule
func vc_Parse(header string, n int64) {
	forms, perr := ast.Parse(header)
	vRequires(perr != nil || (forms != nil && forms.Root != nil && vTree(forms.Root)))
	rule, err := Parse(header)
	vEnsures("a malformed header is an error", (err != nil) == (perr != nil))
	vEnsures("no rule with an error", vImp(err != nil, rule == nil))
	if err == nil {
		built := getBuiltInForRawRule(ast.CompileToString(forms))
		vEnsures("the built-in rule of the text", vImp(built != nil, rule == built))
		if built == nil {
			vEnsures("nplurals", rule.NPlurals == forms.NPlurals)
			vEnsures("the formula's value", int64(rule.FormFunc(n)) == vEval(forms.Root, n))
		}
	}
}
