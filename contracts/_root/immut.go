package spreak

import (
	"golang.org/x/text/language"
)

// Contracts for C16: queries write nothing and hand out copies.

//verif:prop C16
func vc_BundleDomains(b *Bundle) {
	vRequires(b != nil)
	d := b.Domains()
	vEnsures("Domains is a copy", vImp(len(b.domains) > 0, vFresh(d)) && len(d) == len(b.domains) && vForall(func(i int) bool {
		return vImp(0 <= i && i < len(d), d[i] == b.domains[i])
	}))
	vEnsures("no write to shared state", vUnchanged())
}

//verif:prop C16
func vc_BundleLanguages(b *Bundle) {
	vRequires(b != nil)
	ls := b.SupportedLanguages()
	vEnsures("SupportedLanguages is a new slice", vFresh(ls))
	vEnsures("exactly the loaded languages", len(ls) == len(b.locales) &&
		vForall(func(i int) bool {
			_, has := b.locales[ls[i]]
			return vImp(0 <= i && i < len(ls), has)
		}) &&
		vForall(func(t language.Tag) bool {
			_, has := b.locales[t]
			return vImp(has, vExists(func(i int) bool { return 0 <= i && i < len(ls) && ls[i] == t }))
		}))
	vEnsures("no write to shared state", vUnchanged())
}

//verif:prop C16
func vc_BundleQueries(b *Bundle, t language.Tag) {
	vRequires(b != nil && b.languageMatcher != nil)
	vEnsures("CanLocalize", b.CanLocalize() == (len(b.locales) > 0 && len(b.domains) > 0))
	_ = b.IsLanguageSupported(t)
	vEnsures("no write to shared state", vUnchanged())
}

//verif:prop C16
func vc_LocalizerDomains(l *Localizer, d string) {
	vRequires(l != nil && l.locale != nil)
	ds := l.Domains()
	cats := l.locale.domainCatalogs
	vEnsures("Domains is a new slice", vFresh(ds))
	vEnsures("exactly the domains of the locale", len(ds) == len(cats) &&
		vForall(func(i int) bool {
			_, has := cats[ds[i]]
			return vImp(0 <= i && i < len(ds), has)
		}) &&
		vForall(func(x string) bool {
			_, has := cats[x]
			return vImp(has, vExists(func(i int) bool { return 0 <= i && i < len(ds) && ds[i] == x }))
		}))
	_, has := cats[d]
	vEnsures("HasDomain", l.HasDomain(d) == has)
	vEnsures("plain getters", l.HasLocale() == l.localeFound && l.DefaultDomain() == l.defaultDomain && l.Language() == l.locale.language)
	vEnsures("no write to shared state", vUnchanged())
}

//verif:prop C16
func vc_LocalizerFromTag(b *Bundle, domain string, t language.Tag) {
	vRequires(b != nil && vForall(func(x language.Tag) bool {
		_, has := b.locales[x]
		return vImp(has, b.locales[x] != nil)
	}))
	l := newLocalizerFromTag(b, domain, t)
	lc, has := b.locales[t]
	vEnsures("new localizer", vFresh(l) && l.bundle == b && l.defaultDomain == domain)
	vEnsures("the language's own locale", vImp(has, l.locale == lc && l.localeFound))
	vEnsures("else the fallback locale", vImp(!has, l.locale == b.fallbackLocale && !l.localeFound))
	k := newLocalizerFromTag(b, domain)
	vEnsures("no tag: the fallback locale", vFresh(k) && k.bundle == b && k.defaultDomain == domain && k.locale == b.fallbackLocale && !k.localeFound)
	vEnsures("no write to shared state", vUnchanged())
}

//verif:prop C16
func vc_ChainSingularFrame(l *Localizer, domain, ctx, id string, vars []any) {
	vRequires(vLocalizerOK(l))
	_, _ = l.lookupSingularTranslation(domain, ctx, id, vars...)
	vEnsures("no write to shared state", vUnchanged())
}

//verif:prop C16
func vc_ChainPluralFrame(l *Localizer, domain, ctx, s, p string, n any, vars []any) {
	vRequires(vLocalizerOK(l))
	_, _ = l.lookupPluralTranslation(domain, ctx, s, p, n, vars...)
	vEnsures("no write to shared state", vUnchanged())
}
