package cldrplural

import "golang.org/x/text/language"

// Contracts of the CLDR plural rules (C01).

// vOperands: operands as CLDR defines them (NewOperands yields only such, C04); the absolute
// value is finite.
func vOperands(ops *Operands) bool {
	return ops != nil && ops.N >= 0 && ops.I >= 0 && ops.V >= 0 && ops.W >= 0 && ops.F >= 0 && ops.T >= 0 && ops.C >= 0 &&
		ops.W <= ops.V && ops.T <= ops.F && (ops.W == 0) == (ops.T == 0) && (ops.T == 0) == (ops.F == 0) &&
		vImp(ops.V == 0, ops.F == 0 && ops.N == float64(ops.I))
}

// vRulesOfChain: the rules of the first language of the CLDR parent chain that has some.
//
//verif:rec
func vRulesOfChain(t language.Tag) *RuleSet {
	if t.IsRoot() {
		return nil
	}
	if r := getBuiltInForLanguage(t.String()); r != nil {
		return r
	}
	return vRulesOfChain(t.Parent())
}

// vRulesFor: the chain's rules, else those of the language's base when it is certain.
func vRulesFor(t language.Tag) *RuleSet {
	if r := vRulesOfChain(t); r != nil {
		return r
	}
	if base, conf := t.Base(); conf >= language.High {
		return getBuiltInForLanguage(base.String())
	}
	return nil
}

//verif:inv @/catalog/cldrplural.ForLanguage 1
func vi_RulesChain(lang, n language.Tag) {
	vInv("the languages left decide", vRulesOfChain(n) == vRulesOfChain(lang))
}

//verif:prop C01
//verif:opaque @/catalog/cldrplural.getBuiltInForLanguage
func vc_ForLanguage(lang language.Tag) {
	rules, found := ForLanguage(lang)
	want := vRulesFor(lang)
	vEnsures("found exactly when the chain has rules", found == (want != nil))
	vEnsures("the chain's rules", vImp(want != nil, rules == want))
	vEnsures("the English rules when the chain has none", vImp(want == nil, rules == getBuiltInForLanguage("en")))
	vEnsures("no write to shared state", vUnchanged())
}

//verif:prop C01
//verif:opaque @/catalog/cldrplural.NewOperands
func vc_Evaluate(rs *RuleSet, a any) {
	vRequires(rs != nil && rs.FormFunc != nil)
	ops, oerr := NewOperands(a) // its own contract: C04
	cat, err := rs.Evaluate(a)
	vEnsures("an error exactly when the count has no operands", (err == nil) == (oerr == nil))
	vEnsures("the category of the operands", vImp(err == nil, cat == rs.FormFunc(ops)))
}
