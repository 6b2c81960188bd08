package poplural

import "golang.org/x/text/language"

// Contracts of the built-in gettext plural rules.

//verif:prop C02
func vc_RawRule(header string, n int64) {
	vRequires(n >= 0)
	rule := getBuiltInForRawRule(header)
	if rule != nil {
		vEnsures("nplurals of the header", rule.NPlurals == vCNPlurals(header))
		vEnsures("a form function", rule.FormFunc != nil)
		form := rule.FormFunc(n)
		vEnsures("the form the header's formula gives", int64(form) == vCForm(header, n))
		vEnsures("the form is one of the header's", 0 <= form && form < rule.NPlurals)
	}
}

//verif:prop C02
func vc_AnyLanguage(lang string, n int64) {
	vRequires(n >= 0)
	rule := getBuiltInForLanguage(lang)
	if rule != nil {
		vEnsures("a form function", rule.FormFunc != nil)
		form := rule.FormFunc(n)
		vEnsures("the form is one of the rule's", 0 <= form && form < rule.NPlurals)
	}
}

// ---------------------------------------------------------------- counts

func vAbs(n int64) int64 {
	if n < 0 {
		return -n
	}
	return n
}

const vMinInt64 = -1 << 63

//verif:prop C02
func vc_EvaluateSigned(f *Rule, a int, b int8, c int16, d int32, e int64) {
	vRequires(f != nil && f.FormFunc != nil)
	r, err := f.Evaluate(a)
	vEnsures("int", vImp(a != vMinInt64, err == nil && r == f.FormFunc(vAbs(int64(a)))))
	r, err = f.Evaluate(b)
	vEnsures("int8", err == nil && r == f.FormFunc(vAbs(int64(b))))
	r, err = f.Evaluate(c)
	vEnsures("int16", err == nil && r == f.FormFunc(vAbs(int64(c))))
	r, err = f.Evaluate(d)
	vEnsures("int32", err == nil && r == f.FormFunc(vAbs(int64(d))))
	r, err = f.Evaluate(e)
	vEnsures("int64", vImp(e != vMinInt64, err == nil && r == f.FormFunc(vAbs(e))))
}

//verif:prop C02
func vc_EvaluateUnsigned(f *Rule, a uint, b uint8, c uint16, d uint32, e uint64) {
	vRequires(f != nil && f.FormFunc != nil)
	r, err := f.Evaluate(a)
	vEnsures("uint", vImp(a <= 1<<63-1, err == nil && r == f.FormFunc(int64(a))))
	r, err = f.Evaluate(b)
	vEnsures("uint8", err == nil && r == f.FormFunc(int64(b)))
	r, err = f.Evaluate(c)
	vEnsures("uint16", err == nil && r == f.FormFunc(int64(c)))
	r, err = f.Evaluate(d)
	vEnsures("uint32", err == nil && r == f.FormFunc(int64(d)))
	r, err = f.Evaluate(e)
	vEnsures("uint64", vImp(e <= 1<<63-1, err == nil && r == f.FormFunc(int64(e))))
}

//verif:prop C02
func vc_EvaluateNil(f *Rule) {
	vRequires(f != nil && f.FormFunc != nil)
	_, err := f.Evaluate(nil)
	vEnsures("nil is an error", err != nil)
}

// ---------------------------------------------------------------- the rule of a language

// vRuleOfChain: the rule of the first language of the CLDR parent chain that has one.
//
//verif:rec
func vRuleOfChain(t language.Tag) *Rule {
	if t.IsRoot() {
		return nil
	}
	if r := getBuiltInForLanguage(t.String()); r != nil {
		return r
	}
	return vRuleOfChain(t.Parent())
}

// vRuleFor: the chain's rule, else the rule of the language's base when it is certain.
func vRuleFor(t language.Tag) *Rule {
	if r := vRuleOfChain(t); r != nil {
		return r
	}
	if base, conf := t.Base(); conf >= language.High {
		return getBuiltInForLanguage(base.String())
	}
	return nil
}

//verif:inv @/catalog/poplural.pluralRuleForLanguage 1
func vi_RuleChain(lang, n language.Tag) {
	vInv("the languages left decide", vRuleOfChain(n) == vRuleOfChain(lang))
}

//verif:prop C02
//verif:opaque @/catalog/poplural.getBuiltInForLanguage
func vc_RuleForLanguage(lang language.Tag) {
	rule, found := pluralRuleForLanguage(lang)
	want := vRuleFor(lang)
	vEnsures("found exactly when the chain has a rule", found == (want != nil))
	vEnsures("the chain's rule", vImp(want != nil, rule == want))
	vEnsures("English when the chain has none", vImp(want == nil, rule == getBuiltInForLanguage("en")))
	vEnsures("no write to shared state", vUnchanged())
}

//verif:prop C02
//verif:opaque @/catalog/poplural.getBuiltInForLanguage
func vc_ForLanguage(lang language.Tag, n int) {
	en := getBuiltInForLanguage("en") // its own contract: vc_Languages_af
	want := vRuleFor(lang)
	vRequires(n != vMinInt64)
	vRequires(en != nil && en.FormFunc != nil && (want == nil || want.FormFunc != nil))
	f, found := ForLanguage(lang)
	form, err := f(n)
	vEnsures("found exactly when the chain has a rule", found == (want != nil))
	rule := en
	if want != nil {
		rule = want
	}
	vEnsures("the form of the language's rule, English otherwise", err == nil && form == rule.FormFunc(vAbs(int64(n))))
}
