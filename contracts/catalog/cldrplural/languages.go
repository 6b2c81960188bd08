package cldrplural

// Languages and their CLDR 47 cardinal plural rules (frozen oracle).

//verif:prop C01
func vc_Rules_bm(ops *Operands) {
	vRequires(vOperands(ops))
	for _, lang := range []string{"bm", "bo", "dz", "hnj", "id", "ig", "ii", "ja", "jbo", "jv", "jw", "kde", "kea", "km", "ko", "lkt", "lo", "ms", "my", "nqo", "osa", "sah", "ses", "sg", "su", "th", "to", "tpi", "und", "vi"} {
		rules := getBuiltInForLanguage(lang)
		vEnsures("the language has rules", rules != nil)
		vEnsures("the categories in CLDR order", len(rules.Categories) == 1 && rules.Categories[0] == Other)
		vEnsures("a form function", rules.FormFunc != nil)
		got := rules.FormFunc(ops)
		want := Other
		vEnsures("the category the rules give", got == want)
		vEnsures("no write to shared state", vUnchanged())
	}
}

//verif:prop C01
func vc_Rules_wo(ops *Operands) {
	vRequires(vOperands(ops))
	for _, lang := range []string{"wo", "yo", "yue", "zh"} {
		rules := getBuiltInForLanguage(lang)
		vEnsures("the language has rules", rules != nil)
		vEnsures("the categories in CLDR order", len(rules.Categories) == 1 && rules.Categories[0] == Other)
		vEnsures("a form function", rules.FormFunc != nil)
		got := rules.FormFunc(ops)
		want := Other
		vEnsures("the category the rules give", got == want)
		vEnsures("no write to shared state", vUnchanged())
	}
}

//verif:prop C01
func vc_Rules_af(ops *Operands) {
	vRequires(vOperands(ops))
	for _, lang := range []string{"af", "an", "asa", "az", "bal", "bem", "bez", "bg", "brx", "ce", "cgg", "chr", "ckb", "dv", "ee", "el", "eo", "eu", "fo", "fur", "gsw", "ha", "haw", "hu", "jgo", "jmc", "ka", "kaj", "kcg", "kk"} {
		rules := getBuiltInForLanguage(lang)
		vEnsures("the language has rules", rules != nil)
		vEnsures("the categories in CLDR order", len(rules.Categories) == 2 && rules.Categories[0] == One && rules.Categories[1] == Other)
		vEnsures("a form function", rules.FormFunc != nil)
		got := rules.FormFunc(ops)
		one := vCLDR("n = 1", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		want := Other
		if one {
			want = One
		}
		vEnsures("the category the rules give", got == want)
		vEnsures("no write to shared state", vUnchanged())
	}
}

//verif:prop C01
func vc_Rules_kkj(ops *Operands) {
	vRequires(vOperands(ops))
	for _, lang := range []string{"kkj", "kl", "ks", "ksb", "ku", "ky", "lb", "lg", "mas", "mgo", "ml", "mn", "mr", "nah", "nb", "nd", "ne", "nn", "nnh", "no", "nr", "ny", "nyn", "om", "or", "os", "pap", "ps", "rm", "rof"} {
		rules := getBuiltInForLanguage(lang)
		vEnsures("the language has rules", rules != nil)
		vEnsures("the categories in CLDR order", len(rules.Categories) == 2 && rules.Categories[0] == One && rules.Categories[1] == Other)
		vEnsures("a form function", rules.FormFunc != nil)
		got := rules.FormFunc(ops)
		one := vCLDR("n = 1", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		want := Other
		if one {
			want = One
		}
		vEnsures("the category the rules give", got == want)
		vEnsures("no write to shared state", vUnchanged())
	}
}

//verif:prop C01
func vc_Rules_rwk(ops *Operands) {
	vRequires(vOperands(ops))
	for _, lang := range []string{"rwk", "saq", "sd", "sdh", "seh", "sn", "so", "sq", "ss", "ssy", "st", "syr", "ta", "te", "teo", "tig", "tk", "tn", "tr", "ts", "ug", "uz", "ve", "vo", "vun", "wae", "xh", "xog"} {
		rules := getBuiltInForLanguage(lang)
		vEnsures("the language has rules", rules != nil)
		vEnsures("the categories in CLDR order", len(rules.Categories) == 2 && rules.Categories[0] == One && rules.Categories[1] == Other)
		vEnsures("a form function", rules.FormFunc != nil)
		got := rules.FormFunc(ops)
		one := vCLDR("n = 1", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		want := Other
		if one {
			want = One
		}
		vEnsures("the category the rules give", got == want)
		vEnsures("no write to shared state", vUnchanged())
	}
}

//verif:prop C01
func vc_Rules_ak(ops *Operands) {
	vRequires(vOperands(ops))
	for _, lang := range []string{"ak", "bho", "csw", "guw", "ln", "mg", "nso", "pa", "ti", "wa"} {
		rules := getBuiltInForLanguage(lang)
		vEnsures("the language has rules", rules != nil)
		vEnsures("the categories in CLDR order", len(rules.Categories) == 2 && rules.Categories[0] == One && rules.Categories[1] == Other)
		vEnsures("a form function", rules.FormFunc != nil)
		got := rules.FormFunc(ops)
		one := vCLDR("n = 0..1", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		want := Other
		if one {
			want = One
		}
		vEnsures("the category the rules give", got == want)
		vEnsures("no write to shared state", vUnchanged())
	}
}

//verif:prop C01
func vc_Rules_am(ops *Operands) {
	vRequires(vOperands(ops))
	for _, lang := range []string{"am", "as", "bn", "doi", "fa", "gu", "hi", "kn", "pcm", "zu"} {
		rules := getBuiltInForLanguage(lang)
		vEnsures("the language has rules", rules != nil)
		vEnsures("the categories in CLDR order", len(rules.Categories) == 2 && rules.Categories[0] == One && rules.Categories[1] == Other)
		vEnsures("a form function", rules.FormFunc != nil)
		got := rules.FormFunc(ops)
		one := vCLDR("i = 0 or n = 1", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		want := Other
		if one {
			want = One
		}
		vEnsures("the category the rules give", got == want)
		vEnsures("no write to shared state", vUnchanged())
	}
}

//verif:prop C01
func vc_Rules_ast(ops *Operands) {
	vRequires(vOperands(ops))
	for _, lang := range []string{"ast", "de", "en", "et", "fi", "fy", "gl", "ia", "io", "lij", "nl", "sc", "sv", "sw", "ur", "yi"} {
		rules := getBuiltInForLanguage(lang)
		vEnsures("the language has rules", rules != nil)
		vEnsures("the categories in CLDR order", len(rules.Categories) == 2 && rules.Categories[0] == One && rules.Categories[1] == Other)
		vEnsures("a form function", rules.FormFunc != nil)
		got := rules.FormFunc(ops)
		one := vCLDR("i = 1 and v = 0", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		want := Other
		if one {
			want = One
		}
		vEnsures("the category the rules give", got == want)
		vEnsures("no write to shared state", vUnchanged())
	}
}

//verif:prop C01
func vc_Rules_ceb(ops *Operands) {
	vRequires(vOperands(ops))
	for _, lang := range []string{"ceb", "fil", "tl"} {
		rules := getBuiltInForLanguage(lang)
		vEnsures("the language has rules", rules != nil)
		vEnsures("the categories in CLDR order", len(rules.Categories) == 2 && rules.Categories[0] == One && rules.Categories[1] == Other)
		vEnsures("a form function", rules.FormFunc != nil)
		got := rules.FormFunc(ops)
		one := vCLDR("v = 0 and i = 1,2,3 or v = 0 and i % 10 != 4,6,9 or v != 0 and f % 10 != 4,6,9", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		want := Other
		if one {
			want = One
		}
		vEnsures("the category the rules give", got == want)
		vEnsures("no write to shared state", vUnchanged())
	}
}

//verif:prop C01
func vc_Rules_da(ops *Operands) {
	vRequires(vOperands(ops))
	for _, lang := range []string{"da"} {
		rules := getBuiltInForLanguage(lang)
		vEnsures("the language has rules", rules != nil)
		vEnsures("the categories in CLDR order", len(rules.Categories) == 2 && rules.Categories[0] == One && rules.Categories[1] == Other)
		vEnsures("a form function", rules.FormFunc != nil)
		got := rules.FormFunc(ops)
		one := vCLDR("n = 1 or t != 0 and i = 0,1", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		want := Other
		if one {
			want = One
		}
		vEnsures("the category the rules give", got == want)
		vEnsures("no write to shared state", vUnchanged())
	}
}

//verif:prop C01
func vc_Rules_ff(ops *Operands) {
	vRequires(vOperands(ops))
	for _, lang := range []string{"ff", "hy", "kab"} {
		rules := getBuiltInForLanguage(lang)
		vEnsures("the language has rules", rules != nil)
		vEnsures("the categories in CLDR order", len(rules.Categories) == 2 && rules.Categories[0] == One && rules.Categories[1] == Other)
		vEnsures("a form function", rules.FormFunc != nil)
		got := rules.FormFunc(ops)
		one := vCLDR("i = 0,1", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		want := Other
		if one {
			want = One
		}
		vEnsures("the category the rules give", got == want)
		vEnsures("no write to shared state", vUnchanged())
	}
}

//verif:prop C01
func vc_Rules_is(ops *Operands) {
	vRequires(vOperands(ops))
	for _, lang := range []string{"is"} {
		rules := getBuiltInForLanguage(lang)
		vEnsures("the language has rules", rules != nil)
		vEnsures("the categories in CLDR order", len(rules.Categories) == 2 && rules.Categories[0] == One && rules.Categories[1] == Other)
		vEnsures("a form function", rules.FormFunc != nil)
		got := rules.FormFunc(ops)
		one := vCLDR("t = 0 and i % 10 = 1 and i % 100 != 11 or t % 10 = 1 and t % 100 != 11", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		want := Other
		if one {
			want = One
		}
		vEnsures("the category the rules give", got == want)
		vEnsures("no write to shared state", vUnchanged())
	}
}

//verif:prop C01
func vc_Rules_mk(ops *Operands) {
	vRequires(vOperands(ops))
	for _, lang := range []string{"mk"} {
		rules := getBuiltInForLanguage(lang)
		vEnsures("the language has rules", rules != nil)
		vEnsures("the categories in CLDR order", len(rules.Categories) == 2 && rules.Categories[0] == One && rules.Categories[1] == Other)
		vEnsures("a form function", rules.FormFunc != nil)
		got := rules.FormFunc(ops)
		one := vCLDR("v = 0 and i % 10 = 1 and i % 100 != 11 or f % 10 = 1 and f % 100 != 11", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		want := Other
		if one {
			want = One
		}
		vEnsures("the category the rules give", got == want)
		vEnsures("no write to shared state", vUnchanged())
	}
}

//verif:prop C01
func vc_Rules_si(ops *Operands) {
	vRequires(vOperands(ops))
	for _, lang := range []string{"si"} {
		rules := getBuiltInForLanguage(lang)
		vEnsures("the language has rules", rules != nil)
		vEnsures("the categories in CLDR order", len(rules.Categories) == 2 && rules.Categories[0] == One && rules.Categories[1] == Other)
		vEnsures("a form function", rules.FormFunc != nil)
		got := rules.FormFunc(ops)
		one := vCLDR("n = 0,1 or i = 0 and f = 1", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		want := Other
		if one {
			want = One
		}
		vEnsures("the category the rules give", got == want)
		vEnsures("no write to shared state", vUnchanged())
	}
}

//verif:prop C01
func vc_Rules_tzm(ops *Operands) {
	vRequires(vOperands(ops))
	for _, lang := range []string{"tzm"} {
		rules := getBuiltInForLanguage(lang)
		vEnsures("the language has rules", rules != nil)
		vEnsures("the categories in CLDR order", len(rules.Categories) == 2 && rules.Categories[0] == One && rules.Categories[1] == Other)
		vEnsures("a form function", rules.FormFunc != nil)
		got := rules.FormFunc(ops)
		one := vCLDR("n = 0..1 or n = 11..99", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		want := Other
		if one {
			want = One
		}
		vEnsures("the category the rules give", got == want)
		vEnsures("no write to shared state", vUnchanged())
	}
}

//verif:prop C01
func vc_Rules_blo(ops *Operands) {
	vRequires(vOperands(ops))
	for _, lang := range []string{"blo", "ksh"} {
		rules := getBuiltInForLanguage(lang)
		vEnsures("the language has rules", rules != nil)
		vEnsures("the categories in CLDR order", len(rules.Categories) == 3 && rules.Categories[0] == Zero && rules.Categories[1] == One && rules.Categories[2] == Other)
		vEnsures("a form function", rules.FormFunc != nil)
		got := rules.FormFunc(ops)
		zero := vCLDR("n = 0", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		one := vCLDR("n = 1", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		want := Other
		if one {
			want = One
		}
		if zero {
			want = Zero
		}
		vEnsures("the category the rules give", got == want)
		vEnsures("no write to shared state", vUnchanged())
	}
}

//verif:prop C01
func vc_Rules_bs(ops *Operands) {
	vRequires(vOperands(ops))
	for _, lang := range []string{"bs", "hr", "sh", "sr", "sr-Latn"} {
		rules := getBuiltInForLanguage(lang)
		vEnsures("the language has rules", rules != nil)
		vEnsures("the categories in CLDR order", len(rules.Categories) == 3 && rules.Categories[0] == One && rules.Categories[1] == Few && rules.Categories[2] == Other)
		vEnsures("a form function", rules.FormFunc != nil)
		got := rules.FormFunc(ops)
		one := vCLDR("v = 0 and i % 10 = 1 and i % 100 != 11 or f % 10 = 1 and f % 100 != 11", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		few := vCLDR("v = 0 and i % 10 = 2..4 and i % 100 != 12..14 or f % 10 = 2..4 and f % 100 != 12..14", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		want := Other
		if few {
			want = Few
		}
		if one {
			want = One
		}
		vEnsures("the category the rules give", got == want)
		vEnsures("no write to shared state", vUnchanged())
	}
}

//verif:prop C01
func vc_Rules_ca(ops *Operands) {
	vRequires(vOperands(ops))
	for _, lang := range []string{"ca", "it", "lld", "pt-PT", "scn", "vec"} {
		rules := getBuiltInForLanguage(lang)
		vEnsures("the language has rules", rules != nil)
		vEnsures("the categories in CLDR order", len(rules.Categories) == 3 && rules.Categories[0] == One && rules.Categories[1] == Many && rules.Categories[2] == Other)
		vEnsures("a form function", rules.FormFunc != nil)
		got := rules.FormFunc(ops)
		one := vCLDR("i = 1 and v = 0", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		many := vCLDR("e = 0 and i != 0 and i % 1000000 = 0 and v = 0 or e != 0..5", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		want := Other
		if many {
			want = Many
		}
		if one {
			want = One
		}
		vEnsures("the category the rules give", got == want)
		vEnsures("no write to shared state", vUnchanged())
	}
}

//verif:prop C01
func vc_Rules_es(ops *Operands) {
	vRequires(vOperands(ops))
	for _, lang := range []string{"es"} {
		rules := getBuiltInForLanguage(lang)
		vEnsures("the language has rules", rules != nil)
		vEnsures("the categories in CLDR order", len(rules.Categories) == 3 && rules.Categories[0] == One && rules.Categories[1] == Many && rules.Categories[2] == Other)
		vEnsures("a form function", rules.FormFunc != nil)
		got := rules.FormFunc(ops)
		one := vCLDR("n = 1", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		many := vCLDR("e = 0 and i != 0 and i % 1000000 = 0 and v = 0 or e != 0..5", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		want := Other
		if many {
			want = Many
		}
		if one {
			want = One
		}
		vEnsures("the category the rules give", got == want)
		vEnsures("no write to shared state", vUnchanged())
	}
}

//verif:prop C01
func vc_Rules_fr(ops *Operands) {
	vRequires(vOperands(ops))
	for _, lang := range []string{"fr"} {
		rules := getBuiltInForLanguage(lang)
		vEnsures("the language has rules", rules != nil)
		vEnsures("the categories in CLDR order", len(rules.Categories) == 3 && rules.Categories[0] == One && rules.Categories[1] == Many && rules.Categories[2] == Other)
		vEnsures("a form function", rules.FormFunc != nil)
		got := rules.FormFunc(ops)
		one := vCLDR("i = 0,1", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		many := vCLDR("e = 0 and i != 0 and i % 1000000 = 0 and v = 0 or e != 0..5", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		want := Other
		if many {
			want = Many
		}
		if one {
			want = One
		}
		vEnsures("the category the rules give", got == want)
		vEnsures("no write to shared state", vUnchanged())
	}
}

//verif:prop C01
func vc_Rules_he(ops *Operands) {
	vRequires(vOperands(ops))
	for _, lang := range []string{"he"} {
		rules := getBuiltInForLanguage(lang)
		vEnsures("the language has rules", rules != nil)
		vEnsures("the categories in CLDR order", len(rules.Categories) == 3 && rules.Categories[0] == One && rules.Categories[1] == Two && rules.Categories[2] == Other)
		vEnsures("a form function", rules.FormFunc != nil)
		got := rules.FormFunc(ops)
		one := vCLDR("i = 1 and v = 0 or i = 0 and v != 0", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		two := vCLDR("i = 2 and v = 0", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		want := Other
		if two {
			want = Two
		}
		if one {
			want = One
		}
		vEnsures("the category the rules give", got == want)
		vEnsures("no write to shared state", vUnchanged())
	}
}

//verif:prop C01
func vc_Rules_iu(ops *Operands) {
	vRequires(vOperands(ops))
	for _, lang := range []string{"iu", "naq", "sat", "se", "sma", "smi", "smj", "smn", "sms"} {
		rules := getBuiltInForLanguage(lang)
		vEnsures("the language has rules", rules != nil)
		vEnsures("the categories in CLDR order", len(rules.Categories) == 3 && rules.Categories[0] == One && rules.Categories[1] == Two && rules.Categories[2] == Other)
		vEnsures("a form function", rules.FormFunc != nil)
		got := rules.FormFunc(ops)
		one := vCLDR("n = 1", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		two := vCLDR("n = 2", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		want := Other
		if two {
			want = Two
		}
		if one {
			want = One
		}
		vEnsures("the category the rules give", got == want)
		vEnsures("no write to shared state", vUnchanged())
	}
}

//verif:prop C01
func vc_Rules_lag(ops *Operands) {
	vRequires(vOperands(ops))
	for _, lang := range []string{"lag"} {
		rules := getBuiltInForLanguage(lang)
		vEnsures("the language has rules", rules != nil)
		vEnsures("the categories in CLDR order", len(rules.Categories) == 3 && rules.Categories[0] == Zero && rules.Categories[1] == One && rules.Categories[2] == Other)
		vEnsures("a form function", rules.FormFunc != nil)
		got := rules.FormFunc(ops)
		zero := vCLDR("n = 0", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		one := vCLDR("i = 0,1 and n != 0", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		want := Other
		if one {
			want = One
		}
		if zero {
			want = Zero
		}
		vEnsures("the category the rules give", got == want)
		vEnsures("no write to shared state", vUnchanged())
	}
}

//verif:prop C01
func vc_Rules_lv(ops *Operands) {
	vRequires(vOperands(ops))
	for _, lang := range []string{"lv", "prg"} {
		rules := getBuiltInForLanguage(lang)
		vEnsures("the language has rules", rules != nil)
		vEnsures("the categories in CLDR order", len(rules.Categories) == 3 && rules.Categories[0] == Zero && rules.Categories[1] == One && rules.Categories[2] == Other)
		vEnsures("a form function", rules.FormFunc != nil)
		got := rules.FormFunc(ops)
		zero := vCLDR("n % 10 = 0 or n % 100 = 11..19 or v = 2 and f % 100 = 11..19", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		one := vCLDR("n % 10 = 1 and n % 100 != 11 or v = 2 and f % 10 = 1 and f % 100 != 11 or v != 2 and f % 10 = 1", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		want := Other
		if one {
			want = One
		}
		if zero {
			want = Zero
		}
		vEnsures("the category the rules give", got == want)
		vEnsures("no write to shared state", vUnchanged())
	}
}

//verif:prop C01
func vc_Rules_mo(ops *Operands) {
	vRequires(vOperands(ops))
	for _, lang := range []string{"mo", "ro", "ro-MD"} {
		rules := getBuiltInForLanguage(lang)
		vEnsures("the language has rules", rules != nil)
		vEnsures("the categories in CLDR order", len(rules.Categories) == 3 && rules.Categories[0] == One && rules.Categories[1] == Few && rules.Categories[2] == Other)
		vEnsures("a form function", rules.FormFunc != nil)
		got := rules.FormFunc(ops)
		one := vCLDR("i = 1 and v = 0", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		few := vCLDR("v != 0 or n = 0 or n != 1 and n % 100 = 1..19", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		want := Other
		if few {
			want = Few
		}
		if one {
			want = One
		}
		vEnsures("the category the rules give", got == want)
		vEnsures("no write to shared state", vUnchanged())
	}
}

//verif:prop C01
func vc_Rules_pt(ops *Operands) {
	vRequires(vOperands(ops))
	for _, lang := range []string{"pt"} {
		rules := getBuiltInForLanguage(lang)
		vEnsures("the language has rules", rules != nil)
		vEnsures("the categories in CLDR order", len(rules.Categories) == 3 && rules.Categories[0] == One && rules.Categories[1] == Many && rules.Categories[2] == Other)
		vEnsures("a form function", rules.FormFunc != nil)
		got := rules.FormFunc(ops)
		one := vCLDR("i = 0..1", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		many := vCLDR("e = 0 and i != 0 and i % 1000000 = 0 and v = 0 or e != 0..5", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		want := Other
		if many {
			want = Many
		}
		if one {
			want = One
		}
		vEnsures("the category the rules give", got == want)
		vEnsures("no write to shared state", vUnchanged())
	}
}

//verif:prop C01
func vc_Rules_shi(ops *Operands) {
	vRequires(vOperands(ops))
	for _, lang := range []string{"shi"} {
		rules := getBuiltInForLanguage(lang)
		vEnsures("the language has rules", rules != nil)
		vEnsures("the categories in CLDR order", len(rules.Categories) == 3 && rules.Categories[0] == One && rules.Categories[1] == Few && rules.Categories[2] == Other)
		vEnsures("a form function", rules.FormFunc != nil)
		got := rules.FormFunc(ops)
		one := vCLDR("i = 0 or n = 1", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		few := vCLDR("n = 2..10", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		want := Other
		if few {
			want = Few
		}
		if one {
			want = One
		}
		vEnsures("the category the rules give", got == want)
		vEnsures("no write to shared state", vUnchanged())
	}
}

//verif:prop C01
func vc_Rules_be(ops *Operands) {
	vRequires(vOperands(ops))
	for _, lang := range []string{"be"} {
		rules := getBuiltInForLanguage(lang)
		vEnsures("the language has rules", rules != nil)
		vEnsures("the categories in CLDR order", len(rules.Categories) == 4 && rules.Categories[0] == One && rules.Categories[1] == Few && rules.Categories[2] == Many && rules.Categories[3] == Other)
		vEnsures("a form function", rules.FormFunc != nil)
		got := rules.FormFunc(ops)
		one := vCLDR("n % 10 = 1 and n % 100 != 11", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		few := vCLDR("n % 10 = 2..4 and n % 100 != 12..14", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		many := vCLDR("n % 10 = 0 or n % 10 = 5..9 or n % 100 = 11..14", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		want := Other
		if many {
			want = Many
		}
		if few {
			want = Few
		}
		if one {
			want = One
		}
		vEnsures("the category the rules give", got == want)
		vEnsures("no write to shared state", vUnchanged())
	}
}

//verif:prop C01
func vc_Rules_cs(ops *Operands) {
	vRequires(vOperands(ops))
	for _, lang := range []string{"cs", "sk"} {
		rules := getBuiltInForLanguage(lang)
		vEnsures("the language has rules", rules != nil)
		vEnsures("the categories in CLDR order", len(rules.Categories) == 4 && rules.Categories[0] == One && rules.Categories[1] == Few && rules.Categories[2] == Many && rules.Categories[3] == Other)
		vEnsures("a form function", rules.FormFunc != nil)
		got := rules.FormFunc(ops)
		one := vCLDR("i = 1 and v = 0", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		few := vCLDR("i = 2..4 and v = 0", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		many := vCLDR("v != 0", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		want := Other
		if many {
			want = Many
		}
		if few {
			want = Few
		}
		if one {
			want = One
		}
		vEnsures("the category the rules give", got == want)
		vEnsures("no write to shared state", vUnchanged())
	}
}

//verif:prop C01
func vc_Rules_dsb(ops *Operands) {
	vRequires(vOperands(ops))
	for _, lang := range []string{"dsb", "hsb"} {
		rules := getBuiltInForLanguage(lang)
		vEnsures("the language has rules", rules != nil)
		vEnsures("the categories in CLDR order", len(rules.Categories) == 4 && rules.Categories[0] == One && rules.Categories[1] == Two && rules.Categories[2] == Few && rules.Categories[3] == Other)
		vEnsures("a form function", rules.FormFunc != nil)
		got := rules.FormFunc(ops)
		one := vCLDR("v = 0 and i % 100 = 1 or f % 100 = 1", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		two := vCLDR("v = 0 and i % 100 = 2 or f % 100 = 2", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		few := vCLDR("v = 0 and i % 100 = 3..4 or f % 100 = 3..4", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		want := Other
		if few {
			want = Few
		}
		if two {
			want = Two
		}
		if one {
			want = One
		}
		vEnsures("the category the rules give", got == want)
		vEnsures("no write to shared state", vUnchanged())
	}
}

//verif:prop C01
func vc_Rules_gd(ops *Operands) {
	vRequires(vOperands(ops))
	for _, lang := range []string{"gd"} {
		rules := getBuiltInForLanguage(lang)
		vEnsures("the language has rules", rules != nil)
		vEnsures("the categories in CLDR order", len(rules.Categories) == 4 && rules.Categories[0] == One && rules.Categories[1] == Two && rules.Categories[2] == Few && rules.Categories[3] == Other)
		vEnsures("a form function", rules.FormFunc != nil)
		got := rules.FormFunc(ops)
		one := vCLDR("n = 1,11", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		two := vCLDR("n = 2,12", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		few := vCLDR("n = 3..10,13..19", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		want := Other
		if few {
			want = Few
		}
		if two {
			want = Two
		}
		if one {
			want = One
		}
		vEnsures("the category the rules give", got == want)
		vEnsures("no write to shared state", vUnchanged())
	}
}

//verif:prop C01
func vc_Rules_lt(ops *Operands) {
	vRequires(vOperands(ops))
	for _, lang := range []string{"lt"} {
		rules := getBuiltInForLanguage(lang)
		vEnsures("the language has rules", rules != nil)
		vEnsures("the categories in CLDR order", len(rules.Categories) == 4 && rules.Categories[0] == One && rules.Categories[1] == Few && rules.Categories[2] == Many && rules.Categories[3] == Other)
		vEnsures("a form function", rules.FormFunc != nil)
		got := rules.FormFunc(ops)
		one := vCLDR("n % 10 = 1 and n % 100 != 11..19", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		few := vCLDR("n % 10 = 2..9 and n % 100 != 11..19", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		many := vCLDR("f != 0", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		want := Other
		if many {
			want = Many
		}
		if few {
			want = Few
		}
		if one {
			want = One
		}
		vEnsures("the category the rules give", got == want)
		vEnsures("no write to shared state", vUnchanged())
	}
}

//verif:prop C01
func vc_Rules_pl(ops *Operands) {
	vRequires(vOperands(ops))
	for _, lang := range []string{"pl"} {
		rules := getBuiltInForLanguage(lang)
		vEnsures("the language has rules", rules != nil)
		vEnsures("the categories in CLDR order", len(rules.Categories) == 4 && rules.Categories[0] == One && rules.Categories[1] == Few && rules.Categories[2] == Many && rules.Categories[3] == Other)
		vEnsures("a form function", rules.FormFunc != nil)
		got := rules.FormFunc(ops)
		one := vCLDR("i = 1 and v = 0", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		few := vCLDR("v = 0 and i % 10 = 2..4 and i % 100 != 12..14", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		many := vCLDR("v = 0 and i != 1 and i % 10 = 0..1 or v = 0 and i % 10 = 5..9 or v = 0 and i % 100 = 12..14", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		want := Other
		if many {
			want = Many
		}
		if few {
			want = Few
		}
		if one {
			want = One
		}
		vEnsures("the category the rules give", got == want)
		vEnsures("no write to shared state", vUnchanged())
	}
}

//verif:prop C01
func vc_Rules_ru(ops *Operands) {
	vRequires(vOperands(ops))
	for _, lang := range []string{"ru", "uk"} {
		rules := getBuiltInForLanguage(lang)
		vEnsures("the language has rules", rules != nil)
		vEnsures("the categories in CLDR order", len(rules.Categories) == 4 && rules.Categories[0] == One && rules.Categories[1] == Few && rules.Categories[2] == Many && rules.Categories[3] == Other)
		vEnsures("a form function", rules.FormFunc != nil)
		got := rules.FormFunc(ops)
		one := vCLDR("v = 0 and i % 10 = 1 and i % 100 != 11", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		few := vCLDR("v = 0 and i % 10 = 2..4 and i % 100 != 12..14", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		many := vCLDR("v = 0 and i % 10 = 0 or v = 0 and i % 10 = 5..9 or v = 0 and i % 100 = 11..14", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		want := Other
		if many {
			want = Many
		}
		if few {
			want = Few
		}
		if one {
			want = One
		}
		vEnsures("the category the rules give", got == want)
		vEnsures("no write to shared state", vUnchanged())
	}
}

//verif:prop C01
func vc_Rules_sl(ops *Operands) {
	vRequires(vOperands(ops))
	for _, lang := range []string{"sl"} {
		rules := getBuiltInForLanguage(lang)
		vEnsures("the language has rules", rules != nil)
		vEnsures("the categories in CLDR order", len(rules.Categories) == 4 && rules.Categories[0] == One && rules.Categories[1] == Two && rules.Categories[2] == Few && rules.Categories[3] == Other)
		vEnsures("a form function", rules.FormFunc != nil)
		got := rules.FormFunc(ops)
		one := vCLDR("v = 0 and i % 100 = 1", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		two := vCLDR("v = 0 and i % 100 = 2", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		few := vCLDR("v = 0 and i % 100 = 3..4 or v != 0", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		want := Other
		if few {
			want = Few
		}
		if two {
			want = Two
		}
		if one {
			want = One
		}
		vEnsures("the category the rules give", got == want)
		vEnsures("no write to shared state", vUnchanged())
	}
}

//verif:prop C01
func vc_Rules_br(ops *Operands) {
	vRequires(vOperands(ops))
	for _, lang := range []string{"br"} {
		rules := getBuiltInForLanguage(lang)
		vEnsures("the language has rules", rules != nil)
		vEnsures("the categories in CLDR order", len(rules.Categories) == 5 && rules.Categories[0] == One && rules.Categories[1] == Two && rules.Categories[2] == Few && rules.Categories[3] == Many && rules.Categories[4] == Other)
		vEnsures("a form function", rules.FormFunc != nil)
		got := rules.FormFunc(ops)
		one := vCLDR("n % 10 = 1 and n % 100 != 11,71,91", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		two := vCLDR("n % 10 = 2 and n % 100 != 12,72,92", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		few := vCLDR("n % 10 = 3..4,9 and n % 100 != 10..19,70..79,90..99", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		many := vCLDR("n != 0 and n % 1000000 = 0", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		want := Other
		if many {
			want = Many
		}
		if few {
			want = Few
		}
		if two {
			want = Two
		}
		if one {
			want = One
		}
		vEnsures("the category the rules give", got == want)
		vEnsures("no write to shared state", vUnchanged())
	}
}

//verif:prop C01
func vc_Rules_ga(ops *Operands) {
	vRequires(vOperands(ops))
	for _, lang := range []string{"ga"} {
		rules := getBuiltInForLanguage(lang)
		vEnsures("the language has rules", rules != nil)
		vEnsures("the categories in CLDR order", len(rules.Categories) == 5 && rules.Categories[0] == One && rules.Categories[1] == Two && rules.Categories[2] == Few && rules.Categories[3] == Many && rules.Categories[4] == Other)
		vEnsures("a form function", rules.FormFunc != nil)
		got := rules.FormFunc(ops)
		one := vCLDR("n = 1", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		two := vCLDR("n = 2", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		few := vCLDR("n = 3..6", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		many := vCLDR("n = 7..10", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		want := Other
		if many {
			want = Many
		}
		if few {
			want = Few
		}
		if two {
			want = Two
		}
		if one {
			want = One
		}
		vEnsures("the category the rules give", got == want)
		vEnsures("no write to shared state", vUnchanged())
	}
}

//verif:prop C01
func vc_Rules_gv(ops *Operands) {
	vRequires(vOperands(ops))
	for _, lang := range []string{"gv"} {
		rules := getBuiltInForLanguage(lang)
		vEnsures("the language has rules", rules != nil)
		vEnsures("the categories in CLDR order", len(rules.Categories) == 5 && rules.Categories[0] == One && rules.Categories[1] == Two && rules.Categories[2] == Few && rules.Categories[3] == Many && rules.Categories[4] == Other)
		vEnsures("a form function", rules.FormFunc != nil)
		got := rules.FormFunc(ops)
		one := vCLDR("v = 0 and i % 10 = 1", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		two := vCLDR("v = 0 and i % 10 = 2", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		few := vCLDR("v = 0 and i % 100 = 0,20,40,60,80", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		many := vCLDR("v != 0", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		want := Other
		if many {
			want = Many
		}
		if few {
			want = Few
		}
		if two {
			want = Two
		}
		if one {
			want = One
		}
		vEnsures("the category the rules give", got == want)
		vEnsures("no write to shared state", vUnchanged())
	}
}

//verif:prop C01
func vc_Rules_mt(ops *Operands) {
	vRequires(vOperands(ops))
	for _, lang := range []string{"mt"} {
		rules := getBuiltInForLanguage(lang)
		vEnsures("the language has rules", rules != nil)
		vEnsures("the categories in CLDR order", len(rules.Categories) == 5 && rules.Categories[0] == One && rules.Categories[1] == Two && rules.Categories[2] == Few && rules.Categories[3] == Many && rules.Categories[4] == Other)
		vEnsures("a form function", rules.FormFunc != nil)
		got := rules.FormFunc(ops)
		one := vCLDR("n = 1", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		two := vCLDR("n = 2", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		few := vCLDR("n = 0 or n % 100 = 3..10", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		many := vCLDR("n % 100 = 11..19", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		want := Other
		if many {
			want = Many
		}
		if few {
			want = Few
		}
		if two {
			want = Two
		}
		if one {
			want = One
		}
		vEnsures("the category the rules give", got == want)
		vEnsures("no write to shared state", vUnchanged())
	}
}

//verif:prop C01
func vc_Rules_ar(ops *Operands) {
	vRequires(vOperands(ops))
	for _, lang := range []string{"ar", "ars"} {
		rules := getBuiltInForLanguage(lang)
		vEnsures("the language has rules", rules != nil)
		vEnsures("the categories in CLDR order", len(rules.Categories) == 6 && rules.Categories[0] == Zero && rules.Categories[1] == One && rules.Categories[2] == Two && rules.Categories[3] == Few && rules.Categories[4] == Many && rules.Categories[5] == Other)
		vEnsures("a form function", rules.FormFunc != nil)
		got := rules.FormFunc(ops)
		zero := vCLDR("n = 0", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		one := vCLDR("n = 1", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		two := vCLDR("n = 2", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		few := vCLDR("n % 100 = 3..10", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		many := vCLDR("n % 100 = 11..99", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		want := Other
		if many {
			want = Many
		}
		if few {
			want = Few
		}
		if two {
			want = Two
		}
		if one {
			want = One
		}
		if zero {
			want = Zero
		}
		vEnsures("the category the rules give", got == want)
		vEnsures("no write to shared state", vUnchanged())
	}
}

//verif:prop C01
func vc_Rules_cy(ops *Operands) {
	vRequires(vOperands(ops))
	for _, lang := range []string{"cy"} {
		rules := getBuiltInForLanguage(lang)
		vEnsures("the language has rules", rules != nil)
		vEnsures("the categories in CLDR order", len(rules.Categories) == 6 && rules.Categories[0] == Zero && rules.Categories[1] == One && rules.Categories[2] == Two && rules.Categories[3] == Few && rules.Categories[4] == Many && rules.Categories[5] == Other)
		vEnsures("a form function", rules.FormFunc != nil)
		got := rules.FormFunc(ops)
		zero := vCLDR("n = 0", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		one := vCLDR("n = 1", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		two := vCLDR("n = 2", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		few := vCLDR("n = 3", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		many := vCLDR("n = 6", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		want := Other
		if many {
			want = Many
		}
		if few {
			want = Few
		}
		if two {
			want = Two
		}
		if one {
			want = One
		}
		if zero {
			want = Zero
		}
		vEnsures("the category the rules give", got == want)
		vEnsures("no write to shared state", vUnchanged())
	}
}

//verif:prop C01
func vc_Rules_kw(ops *Operands) {
	vRequires(vOperands(ops))
	for _, lang := range []string{"kw"} {
		rules := getBuiltInForLanguage(lang)
		vEnsures("the language has rules", rules != nil)
		vEnsures("the categories in CLDR order", len(rules.Categories) == 6 && rules.Categories[0] == Zero && rules.Categories[1] == One && rules.Categories[2] == Two && rules.Categories[3] == Few && rules.Categories[4] == Many && rules.Categories[5] == Other)
		vEnsures("a form function", rules.FormFunc != nil)
		got := rules.FormFunc(ops)
		zero := vCLDR("n = 0", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		one := vCLDR("n = 1", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		two := vCLDR("n % 100 = 2,22,42,62,82 or n % 1000 = 0 and n % 100000 = 1000..20000,40000,60000,80000 or n != 0 and n % 1000000 = 100000", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		few := vCLDR("n % 100 = 3,23,43,63,83", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		many := vCLDR("n != 1 and n % 100 = 1,21,41,61,81", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)
		want := Other
		if many {
			want = Many
		}
		if few {
			want = Few
		}
		if two {
			want = Two
		}
		if one {
			want = One
		}
		if zero {
			want = Zero
		}
		vEnsures("the category the rules give", got == want)
		vEnsures("no write to shared state", vUnchanged())
	}
}
