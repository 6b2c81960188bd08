package spreak

import (
	"errors"
	"strings"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak/catalog"
)

// Contracts of bundle construction.

// vBuilderOK is the invariant of a bundle builder during construction.
func vBuilderOK(b *bundleBuilder) bool {
	return b != nil && b.Bundle != nil && b.locales != nil && b.printer != nil &&
		vForall(func(d string) bool {
			l, has := b.domainLoaders[d]
			return vImp(has, l != nil)
		})
}

// vLoadErr is the error of the loader of a domain, and vNotFound whether it reports a missing
// catalog.
func vLoadErr(b *bundleBuilder, lang language.Tag, d string) error {
	_, err := b.domainLoaders[d].Load(lang, d)
	return err
}

func vNotFound(err error) bool {
	var nf *ErrNotFound
	return errors.As(err, &nf)
}

func vHasDomain(ds []string, d string) bool {
	return vExists(func(i int) bool { return 0 <= i && i < len(ds) && ds[i] == d })
}

//verif:inv (*@.bundleBuilder).createLocale 1
func vi_CreateLocale(b *bundleBuilder, optional bool, lang language.Tag, catalogs map[string]catalog.Catalog) {
	vInv("catalogs of the domains so far", vFresh(catalogs) && vForall(func(d string) bool {
		c, has := catalogs[d]
		l, isD := b.domainLoaders[d]
		if !isD || !vVisited(b.domainLoaders, d) {
			return !has
		}
		want, err := l.Load(lang, d)
		return has == (err == nil) && vImp(has, c == want)
	}))
	vInv("failures so far are missing catalogs of an optional language", vForall(func(d string) bool {
		return vImp(vVisited(b.domainLoaders, d) && vLoadErr(b, lang, d) != nil, optional && vNotFound(vLoadErr(b, lang, d)))
	}))
	n := vEntry(func() int { return len(b.domains) })
	vInv("domains are only added", n <= len(b.domains) && vForall(func(i int) bool {
		return vImp(0 <= i && i < n, b.domains[i] == vEntry(func() string { return b.domains[i] }))
	}))
	vInv("every loaded domain is listed", vForall(func(d string) bool {
		_, has := catalogs[d]
		return vImp(has, vHasDomain(b.domains, d))
	}))
	vInv("only loaded domains are added", vForall(func(i int) bool {
		_, has := catalogs[b.domains[i]]
		return vImp(n <= i && i < len(b.domains), has)
	}))
	vInv("nothing else is written", vOnlyModified() && vInFrame(b.domains))
}

// vLoadable: what createLocale must achieve for a language that is neither the source
// language nor loaded already.
func vLoads(b *bundleBuilder, lang language.Tag, d string) bool {
	_, isD := b.domainLoaders[d]
	return isD && vLoadErr(b, lang, d) == nil
}

// vLanguageLoadable: some domain has a catalog, and every other loader reports a missing
// catalog, which only an optional language may have.
func vLanguageLoadable(b *bundleBuilder, optional bool, lang language.Tag) bool {
	return vExists(func(d string) bool { return vLoads(b, lang, d) }) && vForall(func(d string) bool {
		_, isD := b.domainLoaders[d]
		return vImp(isD && vLoadErr(b, lang, d) != nil, optional && vNotFound(vLoadErr(b, lang, d)))
	})
}

//verif:prop C11
//verif:modular (*@.bundleBuilder).createLocale
//verif:opaque @/catalog/poplural.ForLanguage
func vc_CreateLocale(b *bundleBuilder, optional bool, lang language.Tag) {
	vRequires(vBuilderOK(b))
	nLang, nDom := len(b.languages), len(b.domains)
	old, cached := b.locales[lang]
	isSource := lang == b.sourceLanguage
	loadable := vLanguageLoadable(b, optional, lang)
	vModifies(&b.languages, &b.domains, b.locales, b.languages, b.domains)
	err := b.createLocale(optional, lang)
	now, has := b.locales[lang]
	vEnsures("other languages are not touched", vForall(func(t language.Tag) bool {
		x, h := b.locales[t]
		hh := vBefore(func() bool { _, h := b.locales[t]; return h })
		y := vBefore(func() *locale { return b.locales[t] })
		return t == lang || (h == hh && x == y)
	}))
	vEnsures("languages are only added", len(b.languages) >= nLang && vForall(func(i int) bool {
		return vImp(0 <= i && i < nLang, b.languages[i] == vBefore(func() language.Tag { return b.languages[i] }))
	}))
	vEnsures("domains are only added", len(b.domains) >= nDom && vForall(func(i int) bool {
		return vImp(0 <= i && i < nDom, b.domains[i] == vBefore(func() string { return b.domains[i] }))
	}))
	if lang == language.Und {
		miss, isMiss := err.(*ErrMissingLanguage)
		vEnsures("the undetermined language cannot be loaded", isMiss && miss != nil && miss.Language == lang)
		vEnsures("nothing is stored for it", has == cached && now == old)
		return
	}
	if isSource {
		vEnsures("the source language needs no catalog", err == nil)
		vEnsures("the source language prints the source text", has && now != nil && now.isSourceLanguage && now.language == lang && now.bundle == b.Bundle)
		vEnsures("the source language is offered to the matcher", len(b.languages) == nLang+1 && b.languages[nLang] == lang)
		vEnsures("the source language adds no domain", len(b.domains) == nDom)
		return
	}
	if cached {
		vEnsures("a loaded language is kept", err == nil && has && now == old)
		return
	}
	vEnsures("fails exactly when the language cannot be loaded", (err == nil) == loadable)
	if err != nil {
		vEnsures("nothing is stored for a language that cannot be loaded", !has && len(b.languages) == nLang)
		miss, isMiss := err.(*ErrMissingLanguage)
		fromLoader := vExists(func(d string) bool {
			_, isD := b.domainLoaders[d]
			return isD && vLoadErr(b, lang, d) == err
		})
		none := isMiss && miss != nil && miss.Language == lang
		vEnsures("the error is that of a loader, or names the language without any catalog", fromLoader || none)
		vEnsures("which is optional and missing in every domain, or has no domain", fromLoader || vForall(func(d string) bool {
			_, isD := b.domainLoaders[d]
			return vImp(isD, optional && vLoadErr(b, lang, d) != nil && vNotFound(vLoadErr(b, lang, d)))
		}))
		vEnsures("no domain is added then", fromLoader || len(b.domains) == nDom)
		vEnsures("a missing catalog of an optional language is no error", vImp(optional && !none, !vNotFound(err)))
		return
	}
	vEnsures("the language is stored", has && now != nil && now.language == lang && now.bundle == b.Bundle && !now.isSourceLanguage)
	vEnsures("with exactly the domains that were loaded and their catalogs", vForall(func(d string) bool {
		cat, hasCat := now.domainCatalogs[d]
		want, _ := b.domainLoaders[d].Load(lang, d)
		return hasCat == vLoads(b, lang, d) && vImp(hasCat, cat == want)
	}))
	vEnsures("every loaded domain is listed", vForall(func(d string) bool {
		_, hasCat := now.domainCatalogs[d]
		return vImp(hasCat, vHasDomain(b.domains, d))
	}))
	vEnsures("only loaded domains are added", vForall(func(i int) bool {
		_, hasCat := now.domainCatalogs[b.domains[i]]
		return vImp(nDom <= i && i < len(b.domains), hasCat)
	}))
	vEnsures("the language is offered to the matcher", len(b.languages) == nLang+1 && b.languages[nLang] == lang)
}

// ---- lists of languages

// vAcceptable: a list entry that does not make construction fail.  cached tells whether the
// language was loaded before.
func vAcceptable(b *bundleBuilder, optional bool, v any, cached bool) bool {
	tag, err := languageInterfaceToTag(v)
	if err != nil {
		return false
	}
	if tag == language.Und {
		return optional
	}
	return tag == b.sourceLanguage || cached || vLanguageLoadable(b, optional, tag) ||
		(optional && vForall(func(d string) bool {
			_, isD := b.domainLoaders[d]
			return vImp(isD, vLoadErr(b, tag, d) != nil && vNotFound(vLoadErr(b, tag, d)))
		}))
}

func vIsMissingLanguage(err error) bool {
	var m *ErrMissingLanguage
	return errors.As(err, &m)
}

func vCached(b *bundleBuilder, v any) bool {
	tag, _ := languageInterfaceToTag(v)
	_, has := b.locales[tag]
	return has
}

func vStored(b *bundleBuilder, lang language.Tag) bool {
	l, has := b.locales[lang]
	return has && l != nil
}

//verif:inv (*@.bundleBuilder).preloadLanguages 1
func vi_Preload(b *bundleBuilder, optional bool, languages []any, done_ int) {
	vInv("builder", vBuilderOK(b))
	vInv("languages so far were acceptable", vForall(func(k int) bool {
		return vImp(0 <= k && k < done_, vAcceptable(b, optional, languages[k], vPre(func() bool { return vCached(b, languages[k]) })))
	}))
	vInv("stored languages stay", vForall(func(t language.Tag) bool {
		_, has := b.locales[t]
		return vImp(vEntry(func() bool { _, h := b.locales[t]; return h }), has)
	}))
	vInv("only loadable languages are stored", vForall(func(t language.Tag) bool {
		_, has := b.locales[t]
		had := vEntry(func() bool { _, h := b.locales[t]; return h })
		return vImp(has && !had, t == b.sourceLanguage || vLanguageLoadable(b, optional, t))
	}))
	vInv("loaded languages so far", vForall(func(k int) bool {
		t, _ := languageInterfaceToTag(languages[k])
		_, has := b.locales[t]
		return vImp(0 <= k && k < done_, has || optional)
	}))
}

//verif:prop C11
//verif:opaque @/catalog/poplural.ForLanguage @.languageInterfaceToTag
func vc_Preload(b *bundleBuilder, optional bool, languages []any) {
	vRequires(vBuilderOK(b))
	vRequires(vForall(func(t language.Tag, d string) bool {
		_, isD := b.domainLoaders[d]
		return vImp(isD, !vIsMissingLanguage(vLoadErr(b, t, d)))
	}))
	all := vForall(func(j int) bool {
		return vImp(0 <= j && j < len(languages), vAcceptable(b, optional, languages[j], vCached(b, languages[j])))
	})
	err := b.preloadLanguages(optional, languages...)
	vEnsures("the builder stays valid", vBuilderOK(b))
	vEnsures("fails exactly when some language is invalid or cannot be loaded", (err == nil) == all)
	vEnsures("loaded languages stay", vForall(func(t language.Tag) bool {
		_, has := b.locales[t]
		return vImp(vOld(func() bool { _, h := b.locales[t]; return h }), has)
	}))
	vEnsures("only loadable languages are stored", vForall(func(t language.Tag) bool {
		_, has := b.locales[t]
		had := vOld(func() bool { _, h := b.locales[t]; return h })
		return vImp(has && !had, t == b.sourceLanguage || vLanguageLoadable(b, optional, t))
	}))
	vEnsures("every required language is loaded", vImp(err == nil && !optional, vForall(func(k int) bool {
		t, _ := languageInterfaceToTag(languages[k])
		_, has := b.locales[t]
		return vImp(0 <= k && k < len(languages), has)
	})))
}

// vUpTo is the text before the first sep.
func vUpTo(s, sep string) string {
	if i := strings.Index(s, sep); i >= 0 {
		return s[:i]
	}
	return s
}

//verif:prop C11
func vc_LanguageInterface(s string, t language.Tag, other any) {
	got, err := languageInterfaceToTag(t)
	vEnsures("a tag is taken as it is", got == t && err == nil)
	want, werr := language.Parse(strings.TrimSpace(vUpTo(vUpTo(vUpTo(s, ":"), "@"), ".")))
	got, err = languageInterfaceToTag(s)
	vEnsures("a name is parsed without list, modifier and encoding", vImp(werr == nil, got == want && err == nil))
	vEnsures("an invalid name is an error", vImp(werr != nil, err == werr && got == language.Und))
	_, isTag := other.(language.Tag)
	_, isStr := other.(string)
	vRequires(!isTag && !isStr)
	_, err = languageInterfaceToTag(other)
	vEnsures("a value of another type is an error", err == ErrRequireStringTag)
}

// ---- construction

// vAvailable: a loader has a catalog of the language for its only domain.
func vAvailable(l Loader, lang language.Tag, d string) bool {
	_, err := l.Load(lang, d)
	return err == nil
}

//verif:prop C11
//verif:opaque @/catalog/poplural.ForLanguage
//verif:opt unroll=(*@.bundleBuilder).preloadLanguages
func vc_NewBundle(l Loader, p Printer, mb LanguageMatcherBuilder, src, fb language.Tag, dom, def, ec string) {
	vRequires(l != nil && p != nil && mb != nil)
	_, srcErr := l.Load(src, dom)
	_, fbErr := l.Load(fb, dom)
	vRequires(!vIsMissingLanguage(srcErr) && !vIsMissingLanguage(fbErr))
	b, err := NewBundle(WithSourceLanguage(src), WithDomainLoader(dom, l), WithPrinter(p), WithLanguageMatcherBuilder(mb),
		WithDefaultDomain(def), WithErrorContext(ec), WithFallbackLanguage(fb))
	if src == language.Und || fb == language.Und || (fb != src && fbErr != nil) {
		vEnsures("fails when the source or fallback language cannot be loaded", b == nil && err != nil)
		return
	}
	vEnsures("created otherwise", b != nil && err == nil)
	vEnsures("as the options say", b.defaultDomain == def && b.errContext == ec && b.printer == p)
	vEnsures("the source language prints the source text", b.sourceLocale != nil && b.sourceLocale.isSourceLanguage && b.sourceLocale.language == src && b.sourceLocale.bundle == b)
	vEnsures("the fallback language is the configured one", b.fallbackLocale != nil && b.fallbackLocale.language == fb && b.fallbackLocale.bundle == b)
	if fb != src {
		cat, has := b.fallbackLocale.domainCatalogs[dom]
		want, _ := l.Load(fb, dom)
		vEnsures("with the catalog of its loader", has && cat == want && !b.fallbackLocale.isSourceLanguage)
		vEnsures("exactly the loaded languages are supported", vForall(func(t language.Tag) bool {
			_, h := b.locales[t]
			return h == (t == src || t == fb)
		}))
		vCover("the construction succeeds")
		vEnsures("a loaded domain is reported", len(b.domains) > 0)
		vEnsures("only the loaded domain is reported", vForall(func(i int) bool { return vImp(0 <= i && i < len(b.domains), b.domains[i] == dom) }))
	}
}

//verif:prop C11
//verif:opaque @/catalog/poplural.ForLanguage
func vc_NewBundleDefault() {
	b, err := NewBundle()
	vEnsures("a bundle without options is created", b != nil && err == nil)
	vEnsures("it has the default settings", b.defaultDomain == NoDomain && b.errContext == ErrorsCtx && b.printer != nil && b.missingCallback == nil)
	vEnsures("it prints the source text", b.sourceLocale != nil && b.sourceLocale.isSourceLanguage && b.sourceLocale.language == language.Und &&
		b.sourceLocale.bundle == b && b.fallbackLocale == b.sourceLocale)
	vEnsures("it has no languages and no domains", !b.CanLocalize() && len(b.domains) == 0 && len(b.languages) == 0 && vForall(func(t language.Tag) bool {
		_, has := b.locales[t]
		return !has
	}))
}

// vNoCatalog: the loader reports a missing catalog.
func vNoCatalog(err error) bool { return err != nil && vNotFound(err) }

//verif:prop C11
//verif:opaque @/catalog/poplural.ForLanguage
//verif:opt unroll=(*@.bundleBuilder).preloadLanguages
func vc_NewBundleOptional(l1, l2 Loader, t language.Tag, d1, d2 string) {
	vRequires(l1 != nil && l2 != nil && d1 != d2 && t != language.Und)
	c1, err1 := l1.Load(t, d1)
	c2, err2 := l2.Load(t, d2)
	vRequires(!vIsMissingLanguage(err1) && !vIsMissingLanguage(err2))
	b, err := NewBundle(WithLanguage(t), WithDomainLoader(d1, l1), WithDomainLoader(d2, l2))
	if (err1 != nil && !vNotFound(err1)) || (err2 != nil && !vNotFound(err2)) {
		vEnsures("a loader failure fails the construction", b == nil && (err == err1 || err == err2))
		return
	}
	vEnsures("missing catalogs of an optional language do not", b != nil && err == nil)
	l, has := b.locales[t]
	vEnsures("supported exactly with at least one catalog", has == (err1 == nil || err2 == nil))
	if has {
		x1, h1 := l.domainCatalogs[d1]
		x2, h2 := l.domainCatalogs[d2]
		vEnsures("with the catalogs that were found", h1 == (err1 == nil) && h2 == (err2 == nil) && vImp(h1, x1 == c1) && vImp(h2, x2 == c2))
		vEnsures("translations may be requested", b.CanLocalize())
		vCover("some language is loaded")
	} else {
		vEnsures("nothing can be translated without a catalog", len(b.languages) == 0 && !b.CanLocalize())
	}
	vEnsures("the domains are the loaded ones", vHasDomain(b.domains, d1) == (err1 == nil) && vHasDomain(b.domains, d2) == (err2 == nil))
	vEnsures("nothing else is loaded", vForall(func(u language.Tag) bool {
		_, h := b.locales[u]
		return vImp(h, u == t)
	}))
}

//verif:prop C11
//verif:opaque @/catalog/poplural.ForLanguage
//verif:opt unroll=(*@.bundleBuilder).preloadLanguages
func vc_NewBundleRequired(l Loader, t language.Tag, d string) {
	vRequires(l != nil)
	c, lerr := l.Load(t, d)
	b, err := NewBundle(WithDomainLoader(d, l), WithRequiredLanguage(t))
	if t == language.Und || lerr != nil {
		vEnsures("a required language that cannot be loaded fails the construction", b == nil && err != nil && vImp(t != language.Und, err == lerr))
		return
	}
	vEnsures("created otherwise", b != nil && err == nil)
	vCover("the construction succeeds")
	loc, has := b.locales[t]
	vEnsures("with the catalog of the loader", has && loc.domainCatalogs[d] == c && loc.language == t && loc.bundle == b && !loc.isSourceLanguage)
	vEnsures("source and fallback print the source text", b.sourceLocale.isSourceLanguage && b.sourceLocale.language == language.Und && b.fallbackLocale == b.sourceLocale)
}

// vOptionFails: construction fails with the error of an option.
func vOptionFails(o BundleOption) bool {
	b, err := NewBundle(o)
	return b == nil && err != nil
}

//verif:prop C11
//verif:opt unroll=(*@.bundleBuilder).preloadLanguages
func vc_OptionErrors(l Loader, d, name string, other any) {
	_, isTag := other.(language.Tag)
	_, isStr := other.(string)
	vRequires(l != nil && !isTag && !isStr)
	vEnsures("a nil option", vOptionFails(nil))
	vEnsures("a nil loader", vOptionFails(WithDomainLoader(d, nil)))
	vEnsures("a nil printer", vOptionFails(WithPrinter(nil)))
	vEnsures("a nil print function", vOptionFails(WithPrintFunction(nil)))
	vEnsures("a nil matcher builder", vOptionFails(WithLanguageMatcherBuilder(nil)))
	vEnsures("a nil file system", vOptionFails(WithDomainFs(d, nil)))
	vEnsures("a fallback language that is no language", vOptionFails(WithFallbackLanguage(other)))
	vEnsures("a required language that is no language", vOptionFails(WithRequiredLanguage(other)))
	vEnsures("an optional language that is no language", vOptionFails(WithLanguage(other)))
	b, err := NewBundle(WithDomainLoader(d, l), WithDomainLoader(d, l))
	vEnsures("a second loader of a domain", b == nil && err != nil)
}
