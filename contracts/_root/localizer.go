package spreak

import (
	"github.com/vorlif/spreak/localize"
)

// Contracts of Localizer: the fallback chain, the routing of every variant and the
// translation of Localizables and errors.

// vLocOK is the invariant of a locale as built by buildLocale / buildSourceLocale.
func vLocOK(lc *locale) bool {
	return lc != nil && lc.bundle != nil && lc.printFunc != nil && lc.pluralFunc != nil &&
		vForall(func(d string) bool {
			_, has := lc.domainCatalogs[d]
			return vImp(has, lc.domainCatalogs[d] != nil)
		})
}

// vLocalizerOK is the invariant of a Localizer returned by a constructor on a bundle
// returned by NewBundle: the source locale never consults a catalog.
func vLocalizerOK(l *Localizer) bool {
	return l != nil && l.bundle != nil &&
		vLocOK(l.locale) && vLocOK(l.bundle.fallbackLocale) && vLocOK(l.bundle.sourceLocale) &&
		l.locale.bundle == l.bundle && l.bundle.fallbackLocale.bundle == l.bundle && l.bundle.sourceLocale.bundle == l.bundle &&
		l.bundle.sourceLocale.isSourceLanguage
}

// vTry1 is the outcome of a singular lookup in one locale.
func vTry1(lc *locale, d, c, id string, vars []any) (string, error) {
	if lc.isSourceLanguage {
		return lc.printFunc(id, vars...), nil
	}
	cat, has := lc.domainCatalogs[d]
	if !has {
		return "", &ErrMissingDomain{Language: lc.language, Domain: d}
	}
	t, err := cat.Lookup(c, id)
	if err != nil {
		return "", err
	}
	return lc.printFunc(t, vars...), nil
}

// vTryN is the outcome of a plural lookup in one locale.
func vTryN(lc *locale, d, c, s, p string, n any, vars []any) (string, error) {
	if lc.isSourceLanguage {
		i, _ := lc.pluralFunc(n)
		if i == 0 || p == "" {
			return lc.printFunc(s, vars...), nil
		}
		return lc.printFunc(p, vars...), nil
	}
	cat, has := lc.domainCatalogs[d]
	if !has {
		return "", &ErrMissingDomain{Language: lc.language, Domain: d}
	}
	t, err := cat.LookupPlural(c, s, n)
	if err != nil {
		return "", err
	}
	return lc.printFunc(t, vars...), nil
}

// vChain1: own locale, then the fallback locale (when it is another language), then the
// source text; the error is nil exactly on a hit in a matched locale.
func vChain1(l *Localizer, d, c, id string, vars []any) (string, error) {
	t, err := vTry1(l.locale, d, c, id, vars)
	if err == nil {
		if !l.localeFound {
			return t, errMissingLocale
		}
		return t, nil
	}
	if l.locale.language != l.bundle.fallbackLocale.language {
		if f, ferr := vTry1(l.bundle.fallbackLocale, d, c, id, vars); ferr == nil {
			return f, err
		}
	}
	return l.bundle.sourceLocale.printFunc(id, vars...), err
}

func vChainN(l *Localizer, d, c, s, p string, n any, vars []any) (string, error) {
	t, err := vTryN(l.locale, d, c, s, p, n, vars)
	if err == nil {
		if !l.localeFound {
			return t, errMissingLocale
		}
		return t, nil
	}
	if f, ferr := vTryN(l.bundle.fallbackLocale, d, c, s, p, n, vars); ferr == nil {
		return f, err
	}
	src, _ := vTryN(l.bundle.sourceLocale, d, c, s, p, n, vars)
	return src, err
}

func vChain1Text(l *Localizer, d, c, id string, vars ...any) string {
	t, _ := l.lookupSingularTranslation(d, c, id, vars...)
	return t
}

func vChainNText(l *Localizer, d, c, s, p string, n any, vars ...any) string {
	t, _ := l.lookupPluralTranslation(d, c, s, p, n, vars...)
	return t
}

// vSameErr: the same error value, or two missing-domain errors with equal contents.
func vSameErr(a, b error) bool {
	ea, oka := a.(*ErrMissingDomain)
	eb, okb := b.(*ErrMissingDomain)
	if oka && okb {
		return ea == eb || (ea != nil && eb != nil && *ea == *eb)
	}
	return a == b
}

// ---------------------------------------------------------------- C07 fallback chain

//verif:prop C07
func vc_ChainSingular(l *Localizer, domain, ctx, id string, vars []any) {
	vRequires(vLocalizerOK(l))
	got, err := l.lookupSingularTranslation(domain, ctx, id, vars...)
	want, werr := vChain1(l, domain, ctx, id, vars)
	vEnsures("own locale, fallback locale, source text", got == want)
	vEnsures("error is nil exactly on a hit of the matched locale, else names what is missing", vSameErr(err, werr))
	vEnsures("no write to shared state", vUnchanged())
}

//verif:prop C07
func vc_ChainPlural(l *Localizer, domain, ctx, s, p string, n any, vars []any) {
	vRequires(vLocalizerOK(l))
	got, err := l.lookupPluralTranslation(domain, ctx, s, p, n, vars...)
	want, werr := vChainN(l, domain, ctx, s, p, n, vars)
	vEnsures("own locale, fallback locale, source text", got == want)
	vEnsures("error is nil exactly on a hit of the matched locale, else names what is missing", vSameErr(err, werr))
	vEnsures("no write to shared state", vUnchanged())
}

// vLog1 states the reports to the missing-translation callback of a singular lookup.
func vReported1(l *Localizer, d, c, id string) bool {
	_, e1 := vTry1(l.locale, d, c, id, nil)
	if l.bundle.missingCallback == nil || e1 == nil {
		return vEventCount() == 0
	}
	if l.locale.language == l.bundle.fallbackLocale.language {
		return vEventCount() == 1 && vSameErr(vEventArg(0), e1)
	}
	_, e2 := vTry1(l.bundle.fallbackLocale, d, c, id, nil)
	if e2 == nil {
		return vEventCount() == 1 && vSameErr(vEventArg(0), e1)
	}
	return vEventCount() == 2 && vSameErr(vEventArg(0), e1) && vSameErr(vEventArg(1), e2)
}

//verif:prop C07
func vc_MissingReportedSingular(l *Localizer, domain, ctx, id string) {
	vRequires(vLocalizerOK(l))
	_, _ = l.lookupSingularTranslation(domain, ctx, id)
	vEnsures("each failed catalog is reported once, a hit reports nothing", vReported1(l, domain, ctx, id))
}

//verif:prop C07
func vc_MissingReportedPlural(l *Localizer, domain, ctx, s, p string, n any) {
	vRequires(vLocalizerOK(l))
	vRequires(l.bundle.missingCallback != nil && !l.locale.isSourceLanguage)
	_, _ = l.lookupPluralTranslation(domain, ctx, s, p, n)
	_, e1 := vTryN(l.locale, domain, ctx, s, p, n, nil)
	vEnsures("a hit reports nothing", vImp(e1 == nil, vEventCount() == 0))
	vEnsures("a miss is reported first", vImp(e1 != nil, vEventCount() >= 1 && vSameErr(vEventArg(0), e1)))
}

// ---------------------------------------------------------------- C08 routing

//verif:prop C08
//verif:opaque (*@.Localizer).lookupSingularTranslation (*@.Localizer).lookupPluralTranslation
func vc_RouteGet(l *Localizer, m string, vars []any) {
	vRequires(vLocalizerOK(l))
	vEnsures("Get", l.Get(m) == vChain1Text(l, l.defaultDomain, "", m))
	vEnsures("Getf", l.Getf(m, vars...) == vChain1Text(l, l.defaultDomain, "", m, vars...))
}

//verif:prop C08
//verif:opaque (*@.Localizer).lookupSingularTranslation (*@.Localizer).lookupPluralTranslation
func vc_RouteDGet(l *Localizer, d, m string, vars []any) {
	vRequires(vLocalizerOK(l))
	vEnsures("DGet", l.DGet(d, m) == vChain1Text(l, d, "", m))
	vEnsures("DGetf", l.DGetf(d, m, vars...) == vChain1Text(l, d, "", m, vars...))
}

//verif:prop C08
//verif:opaque (*@.Localizer).lookupSingularTranslation (*@.Localizer).lookupPluralTranslation
func vc_RoutePGet(l *Localizer, c, m string, vars []any) {
	vRequires(vLocalizerOK(l))
	vEnsures("PGet", l.PGet(c, m) == vChain1Text(l, l.defaultDomain, c, m))
	vEnsures("PGetf", l.PGetf(c, m, vars...) == vChain1Text(l, l.defaultDomain, c, m, vars...))
}

//verif:prop C08
//verif:opaque (*@.Localizer).lookupSingularTranslation (*@.Localizer).lookupPluralTranslation
func vc_RouteDPGet(l *Localizer, d, c, m string, vars []any) {
	vRequires(vLocalizerOK(l))
	vEnsures("DPGet", l.DPGet(d, c, m) == vChain1Text(l, d, c, m))
	vEnsures("DPGetf", l.DPGetf(d, c, m, vars...) == vChain1Text(l, d, c, m, vars...))
}

//verif:prop C08
//verif:opaque (*@.Localizer).lookupSingularTranslation (*@.Localizer).lookupPluralTranslation
func vc_RouteNGet(l *Localizer, s, p string, n any, vars []any) {
	vRequires(vLocalizerOK(l))
	vEnsures("NGet", l.NGet(s, p, n) == vChainNText(l, l.defaultDomain, "", s, p, n))
	vEnsures("NGetf", l.NGetf(s, p, n, vars...) == vChainNText(l, l.defaultDomain, "", s, p, n, vars...))
}

//verif:prop C08
//verif:opaque (*@.Localizer).lookupSingularTranslation (*@.Localizer).lookupPluralTranslation
func vc_RouteDNGet(l *Localizer, d, s, p string, n any, vars []any) {
	vRequires(vLocalizerOK(l))
	vEnsures("DNGet", l.DNGet(d, s, p, n) == vChainNText(l, d, "", s, p, n))
	vEnsures("DNGetf", l.DNGetf(d, s, p, n, vars...) == vChainNText(l, d, "", s, p, n, vars...))
}

//verif:prop C08
//verif:opaque (*@.Localizer).lookupSingularTranslation (*@.Localizer).lookupPluralTranslation
func vc_RouteNPGet(l *Localizer, c, s, p string, n any, vars []any) {
	vRequires(vLocalizerOK(l))
	vEnsures("NPGet", l.NPGet(c, s, p, n) == vChainNText(l, l.defaultDomain, c, s, p, n))
	vEnsures("NPGetf", l.NPGetf(c, s, p, n, vars...) == vChainNText(l, l.defaultDomain, c, s, p, n, vars...))
}

//verif:prop C08
//verif:opaque (*@.Localizer).lookupSingularTranslation (*@.Localizer).lookupPluralTranslation
func vc_RouteDNPGet(l *Localizer, d, c, s, p string, n any, vars []any) {
	vRequires(vLocalizerOK(l))
	vEnsures("DNPGet", l.DNPGet(d, c, s, p, n) == vChainNText(l, d, c, s, p, n))
	vEnsures("DNPGetf", l.DNPGetf(d, c, s, p, n, vars...) == vChainNText(l, d, c, s, p, n, vars...))
}

//verif:prop C08
//verif:opaque (*@.Localizer).lookupSingularTranslation (*@.Localizer).lookupPluralTranslation
func vc_RouteKeySingular(k *KeyLocalizer, d, c, key string, vars []any) {
	vRequires(k != nil && vLocalizerOK(k.Localizer))
	l := k.Localizer
	vEnsures("Get", k.Get(key) == vChain1Text(l, l.defaultDomain, "", key))
	vEnsures("DGet", k.DGet(d, key) == vChain1Text(l, d, "", key))
	vEnsures("PGet", k.PGet(c, key) == vChain1Text(l, l.defaultDomain, c, key))
	vEnsures("DPGet", k.DPGet(d, c, key) == vChain1Text(l, d, c, key))
}

//verif:prop C08
//verif:opaque (*@.Localizer).lookupSingularTranslation (*@.Localizer).lookupPluralTranslation
func vc_RouteKeySingularf(k *KeyLocalizer, d, c, key string, vars []any) {
	vRequires(k != nil && vLocalizerOK(k.Localizer))
	l := k.Localizer
	vEnsures("Getf", k.Getf(key, vars...) == vChain1Text(l, l.defaultDomain, "", key, vars...))
	vEnsures("DGetf", k.DGetf(d, key, vars...) == vChain1Text(l, d, "", key, vars...))
	vEnsures("PGetf", k.PGetf(c, key, vars...) == vChain1Text(l, l.defaultDomain, c, key, vars...))
	vEnsures("DPGetf", k.DPGetf(d, c, key, vars...) == vChain1Text(l, d, c, key, vars...))
}

//verif:prop C08
//verif:opaque (*@.Localizer).lookupSingularTranslation (*@.Localizer).lookupPluralTranslation
func vc_RouteKeyNGet(k *KeyLocalizer, d, c, key string, n any, vars []any) {
	vRequires(k != nil && vLocalizerOK(k.Localizer))
	l := k.Localizer
	vEnsures("NGet", k.NGet(key, n) == vChainNText(l, l.defaultDomain, "", key, key, n))
	vEnsures("NGetf", k.NGetf(key, n, vars...) == vChainNText(l, l.defaultDomain, "", key, key, n, vars...))
}

//verif:prop C08
//verif:opaque (*@.Localizer).lookupSingularTranslation (*@.Localizer).lookupPluralTranslation
func vc_RouteKeyDNGet(k *KeyLocalizer, d, c, key string, n any, vars []any) {
	vRequires(k != nil && vLocalizerOK(k.Localizer))
	l := k.Localizer
	vEnsures("DNGet", k.DNGet(d, key, n) == vChainNText(l, d, "", key, key, n))
	vEnsures("DNGetf", k.DNGetf(d, key, n, vars...) == vChainNText(l, d, "", key, key, n, vars...))
}

//verif:prop C08
//verif:opaque (*@.Localizer).lookupSingularTranslation (*@.Localizer).lookupPluralTranslation
func vc_RouteKeyNPGet(k *KeyLocalizer, d, c, key string, n any, vars []any) {
	vRequires(k != nil && vLocalizerOK(k.Localizer))
	l := k.Localizer
	vEnsures("NPGet", k.NPGet(c, key, n) == vChainNText(l, l.defaultDomain, c, key, key, n))
	vEnsures("NPGetf", k.NPGetf(c, key, n, vars...) == vChainNText(l, l.defaultDomain, c, key, key, n, vars...))
}

//verif:prop C08
//verif:opaque (*@.Localizer).lookupSingularTranslation (*@.Localizer).lookupPluralTranslation
func vc_RouteKeyDNPGet(k *KeyLocalizer, d, c, key string, n any, vars []any) {
	vRequires(k != nil && vLocalizerOK(k.Localizer))
	l := k.Localizer
	vEnsures("DNPGet", k.DNPGet(d, c, key, n) == vChainNText(l, d, c, key, key, n))
	vEnsures("DNPGetf", k.DNPGetf(d, c, key, n, vars...) == vChainNText(l, d, c, key, key, n, vars...))
}

//verif:prop C08
//verif:opaque (*@.Localizer).lookupSingularTranslation (*@.Localizer).lookupPluralTranslation
func vc_Print(l *Localizer, f string, vars []any) {
	vRequires(vLocalizerOK(l))
	vEnsures("Print formats with the locale's printer", l.Print(f, vars...) == l.locale.printFunc(f, vars...))
}

// ---------------------------------------------------------------- C09 Localizables and errors

// vLocalize is the outcome of translating a Localizable.
func vLocalize(l *Localizer, m localize.Localizable) (string, error) {
	d := l.defaultDomain
	if m.HasDomain() {
		d = m.GetDomain()
	}
	var vars []any
	if len(m.GetVars()) > 0 {
		vars = m.GetVars()
	}
	if m.GetPluralID() != "" {
		return l.lookupPluralTranslation(d, m.GetContext(), m.GetMsgID(), m.GetPluralID(), m.GetCount(), vars...)
	}
	return l.lookupSingularTranslation(d, m.GetContext(), m.GetMsgID(), vars...)
}

//verif:prop C09
//verif:opaque (*@.Localizer).lookupSingularTranslation (*@.Localizer).lookupPluralTranslation
func vc_LocalizeWithError(l *Localizer, m localize.Localizable) {
	vRequires(vLocalizerOK(l) && m != nil)
	got, err := l.LocalizeWithError(m)
	want, werr := vLocalize(l, m)
	vEnsures("text", got == want)
	vEnsures("error", vSameErr(err, werr))
	vEnsures("the Localizable and shared state are not written", vUnchanged())
}

//verif:prop C09
//verif:opaque (*@.Localizer).lookupSingularTranslation (*@.Localizer).lookupPluralTranslation
func vc_LocalizeNil(l *Localizer) {
	vRequires(vLocalizerOK(l))
	got, err := l.LocalizeWithError(nil)
	vEnsures("nil Localizable is an error, not a panic", err != nil && got == "<nil>")
	vEnsures("Localize", l.Localize(nil) == "<nil>")
}

//verif:prop C09
//verif:opaque (*@.Localizer).lookupSingularTranslation (*@.Localizer).lookupPluralTranslation
func vc_Localize(l *Localizer, m localize.Localizable) {
	vRequires(vLocalizerOK(l) && m != nil)
	want, _ := vLocalize(l, m)
	vEnsures("text", l.Localize(m) == want)
}

//verif:prop C09
//verif:opaque (*@.Localizer).lookupSingularTranslation (*@.Localizer).lookupPluralTranslation
func vc_LocalizeMessage(l *Localizer, m *localize.Message) {
	vRequires(vLocalizerOK(l) && m != nil)
	got, err := l.LocalizeWithError(m)
	var vars []any
	if len(m.Vars) > 0 {
		vars = m.Vars
	}
	if m.Plural == "" {
		want, werr := l.lookupSingularTranslation(l.defaultDomain, m.Context, m.Singular, vars...)
		vEnsures("singular", got == want && vSameErr(err, werr))
	} else {
		want, werr := l.lookupPluralTranslation(l.defaultDomain, m.Context, m.Singular, m.Plural, m.Count, vars...)
		vEnsures("plural", got == want && vSameErr(err, werr))
	}
}

//verif:prop C09
//verif:opaque (*@.Localizer).lookupSingularTranslation (*@.Localizer).lookupPluralTranslation
func vc_LocalizeErrorNil(l *Localizer) {
	vRequires(vLocalizerOK(l))
	vEnsures("nil stays nil", l.LocalizeError(nil) == nil)
}

// vIsLocalized: r is a *localize.Error with text t that wraps e.
func vIsLocalized(r error, t string, e error) bool {
	le, ok := r.(*localize.Error)
	return ok && le != nil && le.Translation == t && le.Wrapped == e && r.Error() == t && le.Unwrap() == e && le.String() == t
}

//verif:prop C09
//verif:opaque (*@.Localizer).lookupSingularTranslation (*@.Localizer).lookupPluralTranslation
func vc_LocalizeError(l *Localizer, e error) {
	vRequires(vLocalizerOK(l) && e != nil)
	if m, ok := e.(localize.Localizable); ok {
		want, werr := vLocalize(l, m)
		r := l.LocalizeError(e)
		vEnsures("untranslatable Localizable error is returned itself", vImp(werr != nil, r == e))
		vEnsures("translated Localizable error wraps the original", vImp(werr == nil, vIsLocalized(r, want, e)))
	} else {
		want, werr := l.lookupSingularTranslation(l.defaultDomain, l.bundle.errContext, e.Error())
		r := l.LocalizeError(e)
		vEnsures("untranslatable error is returned itself", vImp(werr != nil, r == e))
		vEnsures("translated error wraps the original", vImp(werr == nil, vIsLocalized(r, want, e)))
	}
	vEnsures("no write to shared state", vUnchanged())
}
