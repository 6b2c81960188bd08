package poplural

// Languages and the Plural-Forms header CLDR 47 prescribes for them (frozen oracle).

//verif:prop C02
func vc_Languages_bm(n int64) {
	vRequires(n >= 0)
	const header = "nplurals=1; plural=0;"
	for _, lang := range []string{"bm", "bo", "dz", "hnj", "id", "ig", "ii", "ja", "jbo", "jv", "kde", "kea", "km", "ko", "lkt", "lo", "ms", "my", "nqo", "osa", "sah", "ses", "sg", "su", "th", "to", "tpi", "vi", "wo", "yo"} {
		rule := getBuiltInForLanguage(lang)
		vEnsures("the language has a rule", rule != nil)
		vEnsures("nplurals", rule.NPlurals == vCNPlurals(header))
		form := rule.FormFunc(n)
		vEnsures("the form the formula gives", int64(form) == vCForm(header, n))
		vEnsures("the form is one of the language's", 0 <= form && form < rule.NPlurals)
	}
}

//verif:prop C02
func vc_Languages_yue(n int64) {
	vRequires(n >= 0)
	const header = "nplurals=1; plural=0;"
	for _, lang := range []string{"yue", "zh", "zh-Hans", "zh-Hant", "zh_Hans", "zh_Hant"} {
		rule := getBuiltInForLanguage(lang)
		vEnsures("the language has a rule", rule != nil)
		vEnsures("nplurals", rule.NPlurals == vCNPlurals(header))
		form := rule.FormFunc(n)
		vEnsures("the form the formula gives", int64(form) == vCForm(header, n))
		vEnsures("the form is one of the language's", 0 <= form && form < rule.NPlurals)
	}
}

//verif:prop C02
func vc_Languages_af(n int64) {
	vRequires(n >= 0)
	const header = "nplurals=2; plural=n != 1;"
	for _, lang := range []string{"af", "an", "asa", "ast", "az", "bal", "bem", "bez", "bg", "brx", "ce", "cgg", "chr", "ckb", "da", "de", "de-AT", "de-CH", "de_AT", "de_CH", "dv", "ee", "el", "en", "en-AU", "en-CA", "en-GB", "en-US", "en_AU", "en_CA"} {
		rule := getBuiltInForLanguage(lang)
		vEnsures("the language has a rule", rule != nil)
		vEnsures("nplurals", rule.NPlurals == vCNPlurals(header))
		form := rule.FormFunc(n)
		vEnsures("the form the formula gives", int64(form) == vCForm(header, n))
		vEnsures("the form is one of the language's", 0 <= form && form < rule.NPlurals)
	}
}

//verif:prop C02
func vc_Languages_en_GB(n int64) {
	vRequires(n >= 0)
	const header = "nplurals=2; plural=n != 1;"
	for _, lang := range []string{"en_GB", "en_US", "eo", "et", "eu", "fi", "fo", "fur", "fy", "gl", "gsw", "ha", "haw", "hu", "ia", "io", "jgo", "jmc", "ka", "kaj", "kcg", "kk", "kkj", "kl", "ks", "ksb", "ku", "ky", "lb", "lg"} {
		rule := getBuiltInForLanguage(lang)
		vEnsures("the language has a rule", rule != nil)
		vEnsures("nplurals", rule.NPlurals == vCNPlurals(header))
		form := rule.FormFunc(n)
		vEnsures("the form the formula gives", int64(form) == vCForm(header, n))
		vEnsures("the form is one of the language's", 0 <= form && form < rule.NPlurals)
	}
}

//verif:prop C02
func vc_Languages_lij(n int64) {
	vRequires(n >= 0)
	const header = "nplurals=2; plural=n != 1;"
	for _, lang := range []string{"lij", "mas", "mgo", "ml", "mn", "mr", "nah", "nb", "nd", "ne", "nl", "nl-BE", "nl_BE", "nn", "nnh", "no", "nr", "ny", "nyn", "om", "or", "os", "pap", "ps", "rm", "rof", "rwk", "saq", "sc", "sd"} {
		rule := getBuiltInForLanguage(lang)
		vEnsures("the language has a rule", rule != nil)
		vEnsures("nplurals", rule.NPlurals == vCNPlurals(header))
		form := rule.FormFunc(n)
		vEnsures("the form the formula gives", int64(form) == vCForm(header, n))
		vEnsures("the form is one of the language's", 0 <= form && form < rule.NPlurals)
	}
}

//verif:prop C02
func vc_Languages_sdh(n int64) {
	vRequires(n >= 0)
	const header = "nplurals=2; plural=n != 1;"
	for _, lang := range []string{"sdh", "seh", "sn", "so", "sq", "ss", "ssy", "st", "sv", "sw", "sw-CD", "sw_CD", "syr", "ta", "te", "teo", "tig", "tk", "tn", "tr", "ts", "ug", "ur", "uz", "ve", "vo", "vun", "wae", "xh", "xog"} {
		rule := getBuiltInForLanguage(lang)
		vEnsures("the language has a rule", rule != nil)
		vEnsures("nplurals", rule.NPlurals == vCNPlurals(header))
		form := rule.FormFunc(n)
		vEnsures("the form the formula gives", int64(form) == vCForm(header, n))
		vEnsures("the form is one of the language's", 0 <= form && form < rule.NPlurals)
	}
}

//verif:prop C02
func vc_Languages_yi(n int64) {
	vRequires(n >= 0)
	const header = "nplurals=2; plural=n != 1;"
	for _, lang := range []string{"yi"} {
		rule := getBuiltInForLanguage(lang)
		vEnsures("the language has a rule", rule != nil)
		vEnsures("nplurals", rule.NPlurals == vCNPlurals(header))
		form := rule.FormFunc(n)
		vEnsures("the form the formula gives", int64(form) == vCForm(header, n))
		vEnsures("the form is one of the language's", 0 <= form && form < rule.NPlurals)
	}
}

//verif:prop C02
func vc_Languages_ak(n int64) {
	vRequires(n >= 0)
	const header = "nplurals=2; plural=n > 1;"
	for _, lang := range []string{"ak", "am", "as", "bho", "bn", "csw", "doi", "fa", "fa-AF", "fa_AF", "ff", "gu", "guw", "hi", "hi-Latn", "hi_Latn", "hy", "kab", "kn", "ln", "mg", "nso", "pa", "pcm", "si", "ti", "wa", "zu"} {
		rule := getBuiltInForLanguage(lang)
		vEnsures("the language has a rule", rule != nil)
		vEnsures("nplurals", rule.NPlurals == vCNPlurals(header))
		form := rule.FormFunc(n)
		vEnsures("the form the formula gives", int64(form) == vCForm(header, n))
		vEnsures("the form is one of the language's", 0 <= form && form < rule.NPlurals)
	}
}

//verif:prop C02
func vc_Languages_ceb(n int64) {
	vRequires(n >= 0)
	const header = "nplurals=2; plural=n != 1 && n != 2 && n != 3 && (n % 10 == 4 || n % 10 == 6 || n % 10 == 9);"
	for _, lang := range []string{"ceb", "fil", "tl"} {
		rule := getBuiltInForLanguage(lang)
		vEnsures("the language has a rule", rule != nil)
		vEnsures("nplurals", rule.NPlurals == vCNPlurals(header))
		form := rule.FormFunc(n)
		vEnsures("the form the formula gives", int64(form) == vCForm(header, n))
		vEnsures("the form is one of the language's", 0 <= form && form < rule.NPlurals)
	}
}

//verif:prop C02
func vc_Languages_is(n int64) {
	vRequires(n >= 0)
	const header = "nplurals=2; plural=n % 10 != 1 || n % 100 == 11;"
	for _, lang := range []string{"is", "mk"} {
		rule := getBuiltInForLanguage(lang)
		vEnsures("the language has a rule", rule != nil)
		vEnsures("nplurals", rule.NPlurals == vCNPlurals(header))
		form := rule.FormFunc(n)
		vEnsures("the form the formula gives", int64(form) == vCForm(header, n))
		vEnsures("the form is one of the language's", 0 <= form && form < rule.NPlurals)
	}
}

//verif:prop C02
func vc_Languages_tzm(n int64) {
	vRequires(n >= 0)
	const header = "nplurals=2; plural=n >= 2 && (n < 11 || n > 99);"
	for _, lang := range []string{"tzm"} {
		rule := getBuiltInForLanguage(lang)
		vEnsures("the language has a rule", rule != nil)
		vEnsures("nplurals", rule.NPlurals == vCNPlurals(header))
		form := rule.FormFunc(n)
		vEnsures("the form the formula gives", int64(form) == vCForm(header, n))
		vEnsures("the form is one of the language's", 0 <= form && form < rule.NPlurals)
	}
}

//verif:prop C02
func vc_Languages_be(n int64) {
	vRequires(n >= 0)
	const header = "nplurals=3; plural=(n % 10 == 1 && n % 100 != 11) ? 0 : ((n % 10 >= 2 && n % 10 <= 4 && (n % 100 < 12 || n % 100 > 14)) ? 1 : 2);"
	for _, lang := range []string{"be", "bs", "hr", "ru", "sh", "sr", "sr-Latn", "sr-ME", "sr_ME", "uk"} {
		rule := getBuiltInForLanguage(lang)
		vEnsures("the language has a rule", rule != nil)
		vEnsures("nplurals", rule.NPlurals == vCNPlurals(header))
		form := rule.FormFunc(n)
		vEnsures("the form the formula gives", int64(form) == vCForm(header, n))
		vEnsures("the form is one of the language's", 0 <= form && form < rule.NPlurals)
	}
}

//verif:prop C02
func vc_Languages_blo(n int64) {
	vRequires(n >= 0)
	const header = "nplurals=3; plural=(n == 0) ? 0 : ((n == 1) ? 1 : 2);"
	for _, lang := range []string{"blo", "ksh", "lag"} {
		rule := getBuiltInForLanguage(lang)
		vEnsures("the language has a rule", rule != nil)
		vEnsures("nplurals", rule.NPlurals == vCNPlurals(header))
		form := rule.FormFunc(n)
		vEnsures("the form the formula gives", int64(form) == vCForm(header, n))
		vEnsures("the form is one of the language's", 0 <= form && form < rule.NPlurals)
	}
}

//verif:prop C02
func vc_Languages_ca(n int64) {
	vRequires(n >= 0)
	const header = "nplurals=3; plural=(n == 1) ? 0 : ((n != 0 && n % 1000000 == 0) ? 1 : 2);"
	for _, lang := range []string{"ca", "es", "es-419", "es-ES", "es-MX", "es_419", "es_ES", "es_MX", "it", "lld", "pt-PT", "pt_PT", "scn", "vec"} {
		rule := getBuiltInForLanguage(lang)
		vEnsures("the language has a rule", rule != nil)
		vEnsures("nplurals", rule.NPlurals == vCNPlurals(header))
		form := rule.FormFunc(n)
		vEnsures("the form the formula gives", int64(form) == vCForm(header, n))
		vEnsures("the form is one of the language's", 0 <= form && form < rule.NPlurals)
	}
}

//verif:prop C02
func vc_Languages_cs(n int64) {
	vRequires(n >= 0)
	const header = "nplurals=3; plural=(n == 1) ? 0 : ((n >= 2 && n <= 4) ? 1 : 2);"
	for _, lang := range []string{"cs", "sk"} {
		rule := getBuiltInForLanguage(lang)
		vEnsures("the language has a rule", rule != nil)
		vEnsures("nplurals", rule.NPlurals == vCNPlurals(header))
		form := rule.FormFunc(n)
		vEnsures("the form the formula gives", int64(form) == vCForm(header, n))
		vEnsures("the form is one of the language's", 0 <= form && form < rule.NPlurals)
	}
}

//verif:prop C02
func vc_Languages_fr(n int64) {
	vRequires(n >= 0)
	const header = "nplurals=3; plural=(n == 0 || n == 1) ? 0 : ((n != 0 && n % 1000000 == 0) ? 1 : 2);"
	for _, lang := range []string{"fr", "fr-CA", "fr-CH", "fr_CA", "fr_CH", "pt", "pt-BR", "pt_BR"} {
		rule := getBuiltInForLanguage(lang)
		vEnsures("the language has a rule", rule != nil)
		vEnsures("nplurals", rule.NPlurals == vCNPlurals(header))
		form := rule.FormFunc(n)
		vEnsures("the form the formula gives", int64(form) == vCForm(header, n))
		vEnsures("the form is one of the language's", 0 <= form && form < rule.NPlurals)
	}
}

//verif:prop C02
func vc_Languages_he(n int64) {
	vRequires(n >= 0)
	const header = "nplurals=3; plural=(n == 1) ? 0 : ((n == 2) ? 1 : 2);"
	for _, lang := range []string{"he", "iu", "naq", "sat", "se", "sma", "smi", "smj", "smn", "sms"} {
		rule := getBuiltInForLanguage(lang)
		vEnsures("the language has a rule", rule != nil)
		vEnsures("nplurals", rule.NPlurals == vCNPlurals(header))
		form := rule.FormFunc(n)
		vEnsures("the form the formula gives", int64(form) == vCForm(header, n))
		vEnsures("the form is one of the language's", 0 <= form && form < rule.NPlurals)
	}
}

//verif:prop C02
func vc_Languages_lt(n int64) {
	vRequires(n >= 0)
	const header = "nplurals=3; plural=(n % 10 == 1 && (n % 100 < 11 || n % 100 > 19)) ? 0 : ((n % 10 >= 2 && n % 10 <= 9 && (n % 100 < 11 || n % 100 > 19)) ? 1 : 2);"
	for _, lang := range []string{"lt"} {
		rule := getBuiltInForLanguage(lang)
		vEnsures("the language has a rule", rule != nil)
		vEnsures("nplurals", rule.NPlurals == vCNPlurals(header))
		form := rule.FormFunc(n)
		vEnsures("the form the formula gives", int64(form) == vCForm(header, n))
		vEnsures("the form is one of the language's", 0 <= form && form < rule.NPlurals)
	}
}

//verif:prop C02
func vc_Languages_lv(n int64) {
	vRequires(n >= 0)
	const header = "nplurals=3; plural=(n % 10 == 0 || n % 100 >= 11 && n % 100 <= 19) ? 0 : ((n % 10 == 1 && n % 100 != 11) ? 1 : 2);"
	for _, lang := range []string{"lv", "prg"} {
		rule := getBuiltInForLanguage(lang)
		vEnsures("the language has a rule", rule != nil)
		vEnsures("nplurals", rule.NPlurals == vCNPlurals(header))
		form := rule.FormFunc(n)
		vEnsures("the form the formula gives", int64(form) == vCForm(header, n))
		vEnsures("the form is one of the language's", 0 <= form && form < rule.NPlurals)
	}
}

//verif:prop C02
func vc_Languages_pl(n int64) {
	vRequires(n >= 0)
	const header = "nplurals=3; plural=(n == 1) ? 0 : ((n % 10 >= 2 && n % 10 <= 4 && (n % 100 < 12 || n % 100 > 14)) ? 1 : 2);"
	for _, lang := range []string{"pl"} {
		rule := getBuiltInForLanguage(lang)
		vEnsures("the language has a rule", rule != nil)
		vEnsures("nplurals", rule.NPlurals == vCNPlurals(header))
		form := rule.FormFunc(n)
		vEnsures("the form the formula gives", int64(form) == vCForm(header, n))
		vEnsures("the form is one of the language's", 0 <= form && form < rule.NPlurals)
	}
}

//verif:prop C02
func vc_Languages_ro(n int64) {
	vRequires(n >= 0)
	const header = "nplurals=3; plural=(n == 1) ? 0 : ((n == 0 || n != 1 && n % 100 >= 1 && n % 100 <= 19) ? 1 : 2);"
	for _, lang := range []string{"ro", "ro-MD", "ro_MD"} {
		rule := getBuiltInForLanguage(lang)
		vEnsures("the language has a rule", rule != nil)
		vEnsures("nplurals", rule.NPlurals == vCNPlurals(header))
		form := rule.FormFunc(n)
		vEnsures("the form the formula gives", int64(form) == vCForm(header, n))
		vEnsures("the form is one of the language's", 0 <= form && form < rule.NPlurals)
	}
}

//verif:prop C02
func vc_Languages_shi(n int64) {
	vRequires(n >= 0)
	const header = "nplurals=3; plural=(n == 0 || n == 1) ? 0 : ((n >= 2 && n <= 10) ? 1 : 2);"
	for _, lang := range []string{"shi"} {
		rule := getBuiltInForLanguage(lang)
		vEnsures("the language has a rule", rule != nil)
		vEnsures("nplurals", rule.NPlurals == vCNPlurals(header))
		form := rule.FormFunc(n)
		vEnsures("the form the formula gives", int64(form) == vCForm(header, n))
		vEnsures("the form is one of the language's", 0 <= form && form < rule.NPlurals)
	}
}

//verif:prop C02
func vc_Languages_dsb(n int64) {
	vRequires(n >= 0)
	const header = "nplurals=4; plural=(n % 100 == 1) ? 0 : ((n % 100 == 2) ? 1 : ((n % 100 == 3 || n % 100 == 4) ? 2 : 3));"
	for _, lang := range []string{"dsb", "hsb", "sl"} {
		rule := getBuiltInForLanguage(lang)
		vEnsures("the language has a rule", rule != nil)
		vEnsures("nplurals", rule.NPlurals == vCNPlurals(header))
		form := rule.FormFunc(n)
		vEnsures("the form the formula gives", int64(form) == vCForm(header, n))
		vEnsures("the form is one of the language's", 0 <= form && form < rule.NPlurals)
	}
}

//verif:prop C02
func vc_Languages_gd(n int64) {
	vRequires(n >= 0)
	const header = "nplurals=4; plural=(n == 1 || n == 11) ? 0 : ((n == 2 || n == 12) ? 1 : ((n >= 3 && n <= 10 || n >= 13 && n <= 19) ? 2 : 3));"
	for _, lang := range []string{"gd"} {
		rule := getBuiltInForLanguage(lang)
		vEnsures("the language has a rule", rule != nil)
		vEnsures("nplurals", rule.NPlurals == vCNPlurals(header))
		form := rule.FormFunc(n)
		vEnsures("the form the formula gives", int64(form) == vCForm(header, n))
		vEnsures("the form is one of the language's", 0 <= form && form < rule.NPlurals)
	}
}

//verif:prop C02
func vc_Languages_gv(n int64) {
	vRequires(n >= 0)
	const header = "nplurals=4; plural=(n % 10 == 1) ? 0 : ((n % 10 == 2) ? 1 : ((n % 100 == 0 || n % 100 == 20 || n % 100 == 40 || n % 100 == 60 || n % 100 == 80) ? 2 : 3));"
	for _, lang := range []string{"gv"} {
		rule := getBuiltInForLanguage(lang)
		vEnsures("the language has a rule", rule != nil)
		vEnsures("nplurals", rule.NPlurals == vCNPlurals(header))
		form := rule.FormFunc(n)
		vEnsures("the form the formula gives", int64(form) == vCForm(header, n))
		vEnsures("the form is one of the language's", 0 <= form && form < rule.NPlurals)
	}
}

//verif:prop C02
func vc_Languages_br(n int64) {
	vRequires(n >= 0)
	const header = "nplurals=5; plural=(n % 10 == 1 && n % 100 != 11 && n % 100 != 71 && n % 100 != 91) ? 0 : ((n % 10 == 2 && n % 100 != 12 && n % 100 != 72 && n % 100 != 92) ? 1 : ((((n % 10 == 3 || n % 10 == 4) || n % 10 == 9) && (n % 100 < 10 || n % 100 > 19) && (n % 100 < 70 || n % 100 > 79) && (n % 100 < 90 || n % 100 > 99)) ? 2 : ((n != 0 && n % 1000000 == 0) ? 3 : 4)));"
	for _, lang := range []string{"br"} {
		rule := getBuiltInForLanguage(lang)
		vEnsures("the language has a rule", rule != nil)
		vEnsures("nplurals", rule.NPlurals == vCNPlurals(header))
		form := rule.FormFunc(n)
		vEnsures("the form the formula gives", int64(form) == vCForm(header, n))
		vEnsures("the form is one of the language's", 0 <= form && form < rule.NPlurals)
	}
}

//verif:prop C02
func vc_Languages_ga(n int64) {
	vRequires(n >= 0)
	const header = "nplurals=5; plural=(n == 1) ? 0 : ((n == 2) ? 1 : ((n >= 3 && n <= 6) ? 2 : ((n >= 7 && n <= 10) ? 3 : 4)));"
	for _, lang := range []string{"ga"} {
		rule := getBuiltInForLanguage(lang)
		vEnsures("the language has a rule", rule != nil)
		vEnsures("nplurals", rule.NPlurals == vCNPlurals(header))
		form := rule.FormFunc(n)
		vEnsures("the form the formula gives", int64(form) == vCForm(header, n))
		vEnsures("the form is one of the language's", 0 <= form && form < rule.NPlurals)
	}
}

//verif:prop C02
func vc_Languages_mt(n int64) {
	vRequires(n >= 0)
	const header = "nplurals=5; plural=(n == 1) ? 0 : ((n == 2) ? 1 : ((n == 0 || n % 100 >= 3 && n % 100 <= 10) ? 2 : ((n % 100 >= 11 && n % 100 <= 19) ? 3 : 4)));"
	for _, lang := range []string{"mt"} {
		rule := getBuiltInForLanguage(lang)
		vEnsures("the language has a rule", rule != nil)
		vEnsures("nplurals", rule.NPlurals == vCNPlurals(header))
		form := rule.FormFunc(n)
		vEnsures("the form the formula gives", int64(form) == vCForm(header, n))
		vEnsures("the form is one of the language's", 0 <= form && form < rule.NPlurals)
	}
}

//verif:prop C02
func vc_Languages_ar(n int64) {
	vRequires(n >= 0)
	const header = "nplurals=6; plural=(n == 0) ? 0 : ((n == 1) ? 1 : ((n == 2) ? 2 : ((n % 100 >= 3 && n % 100 <= 10) ? 3 : ((n % 100 >= 11 && n % 100 <= 99) ? 4 : 5))));"
	for _, lang := range []string{"ar", "ar-001", "ar_001", "ars"} {
		rule := getBuiltInForLanguage(lang)
		vEnsures("the language has a rule", rule != nil)
		vEnsures("nplurals", rule.NPlurals == vCNPlurals(header))
		form := rule.FormFunc(n)
		vEnsures("the form the formula gives", int64(form) == vCForm(header, n))
		vEnsures("the form is one of the language's", 0 <= form && form < rule.NPlurals)
	}
}

//verif:prop C02
func vc_Languages_cy(n int64) {
	vRequires(n >= 0)
	const header = "nplurals=6; plural=(n == 0) ? 0 : ((n == 1) ? 1 : ((n == 2) ? 2 : ((n == 3) ? 3 : ((n == 6) ? 4 : 5))));"
	for _, lang := range []string{"cy"} {
		rule := getBuiltInForLanguage(lang)
		vEnsures("the language has a rule", rule != nil)
		vEnsures("nplurals", rule.NPlurals == vCNPlurals(header))
		form := rule.FormFunc(n)
		vEnsures("the form the formula gives", int64(form) == vCForm(header, n))
		vEnsures("the form is one of the language's", 0 <= form && form < rule.NPlurals)
	}
}

//verif:prop C02
func vc_Languages_kw(n int64) {
	vRequires(n >= 0)
	const header = "nplurals=6; plural=(n == 0) ? 0 : ((n == 1) ? 1 : (((n % 100 == 2 || n % 100 == 22 || n % 100 == 42 || n % 100 == 62 || n % 100 == 82) || n % 1000 == 0 && (n % 100000 >= 1000 && n % 100000 <= 20000 || n % 100000 == 40000 || n % 100000 == 60000 || n % 100000 == 80000) || n != 0 && n % 1000000 == 100000) ? 2 : ((n % 100 == 3 || n % 100 == 23 || n % 100 == 43 || n % 100 == 63 || n % 100 == 83) ? 3 : ((n != 1 && (n % 100 == 1 || n % 100 == 21 || n % 100 == 41 || n % 100 == 61 || n % 100 == 81)) ? 4 : 5))));"
	for _, lang := range []string{"kw"} {
		rule := getBuiltInForLanguage(lang)
		vEnsures("the language has a rule", rule != nil)
		vEnsures("nplurals", rule.NPlurals == vCNPlurals(header))
		form := rule.FormFunc(n)
		vEnsures("the form the formula gives", int64(form) == vCForm(header, n))
		vEnsures("the form is one of the language's", 0 <= form && form < rule.NPlurals)
	}
}
