package spreak

import (
	"golang.org/x/text/language"
)

// Contracts for C17: the language a localizer is bound to.

// A requested language is a tag, or a string with a list of tags in the form of an
// Accept-Language header; anything else requests nothing.
//
//verif:rec
func vTagLen(v any) int {
	switch val := v.(type) {
	case language.Tag:
		return 1
	case string:
		if desired, _, err := language.ParseAcceptLanguage(val); err == nil {
			return len(desired)
		}
	}
	return 0
}

//verif:rec
func vTagAt(v any, j int) language.Tag {
	switch val := v.(type) {
	case language.Tag:
		return val
	case string:
		desired, _, _ := language.ParseAcceptLanguage(val)
		return desired[j]
	}
	return language.Und
}

// vTagsUpTo is the number of tags that the first n values request.
//
//verif:rec
func vTagsUpTo(lang []any, n int) int {
	if n <= 0 {
		return 0
	}
	return vTagsUpTo(lang, n-1) + vTagLen(lang[n-1])
}

// vMatcher is an arbitrary matcher; what it is asked is checked for the tag j of an
// arbitrary requested value k.
type vMatcher struct {
	lang  []any
	k, j  int
	tag   language.Tag
	index int
	conf  language.Confidence
}

func (m *vMatcher) Match(t ...language.Tag) (language.Tag, int, language.Confidence) {
	n := len(m.lang)
	vEnsures("the matcher is asked for as many tags as requested", len(t) == vTagsUpTo(m.lang, n))
	if 0 <= m.k && m.k < n && 0 <= m.j && m.j < vTagLen(m.lang[m.k]) {
		vEnsures("the matcher is asked for the tags in their order", t[vTagsUpTo(m.lang, m.k)+m.j] == vTagAt(m.lang[m.k], m.j))
	}
	return m.tag, m.index, m.conf
}

// vMatcherOne is an arbitrary matcher that is asked for one language.
type vMatcherOne struct {
	want, tag language.Tag
	index     int
	conf      language.Confidence
}

func (m *vMatcherOne) Match(t ...language.Tag) (language.Tag, int, language.Confidence) {
	vEnsures("the matcher is asked for the language", len(t) == 1 && t[0] == m.want)
	return m.tag, m.index, m.conf
}

//verif:inv @.NewLocalizerForDomain 1
func vi_Requested(lang []any, tags []language.Tag, done_, g_k, g_j int) {
	vInv("a list of its own", cap(tags) == 0 || vFresh(tags))
	vInv("tags so far", len(tags) == vTagsUpTo(lang, done_))
	vInv("where the tags are", vImp(0 <= g_k && g_k < done_, 0 <= vTagsUpTo(lang, g_k) && vTagsUpTo(lang, g_k) <= len(tags) && vTagsUpTo(lang, g_k)+vTagLen(lang[g_k]) <= len(tags)))
	vInv("tags in their order", vImp(0 <= g_k && g_k < done_ && 0 <= g_j && g_j < vTagLen(lang[g_k]), tags[vTagsUpTo(lang, g_k)+g_j] == vTagAt(lang[g_k], g_j)))
	vInv("nothing is written", vUnchanged())
}

func vMatchedLocale(l *Localizer, b *Bundle, domain string, m *vMatcher) {
	vEnsures("of this bundle", l.bundle == b)
	vEnsures("the given default domain", l.defaultDomain == domain && l.DefaultDomain() == domain)
	var lc *locale
	has := false
	if m.conf > language.No {
		lc, has = b.locales[b.languages[m.index]]
	}
	vEnsures("a localizer of the matching language", vImp(has, l.locale == lc && l.HasLocale()))
	vEnsures("else of the fallback", vImp(!has, l.locale == b.fallbackLocale && !l.HasLocale()))
	vEnsures("its language", vImp(l.locale != nil, l.Language() == l.locale.language))
}

func vBundleMatching(b *Bundle, m *vMatcher) {
	vRequires(b != nil && m != nil)
	vRequires(vForall(func(x language.Tag) bool {
		_, has := b.locales[x]
		return vImp(has, b.locales[x] != nil)
	}))
	vRequires(b.fallbackLocale != nil)
	vRequires(vImp(m.conf > language.No, 0 <= m.index && m.index < len(b.languages)))
}

//verif:prop C17
func vc_LocalizerForDomain(b *Bundle, m *vMatcher, domain string, lang []any, g_k, g_j int) {
	vBundleMatching(b, m)
	b2 := *b
	b2.languageMatcher = &vMatcher{lang, g_k, g_j, m.tag, m.index, m.conf}
	l := NewLocalizerForDomain(&b2, domain, lang...)
	vEnsures("new", vFresh(l))
	vMatchedLocale(l, &b2, domain, m)
	vEnsures("nothing else is written", vUnchanged())
}

//verif:prop C17
func vc_LocalizerDefaultDomain(b *Bundle, m *vMatcher, lang []any, g_k, g_j int) {
	vBundleMatching(b, m)
	b2 := *b
	b2.languageMatcher = &vMatcher{lang, g_k, g_j, m.tag, m.index, m.conf}
	l := NewLocalizer(&b2, lang...)
	vEnsures("new", vFresh(l))
	vMatchedLocale(l, &b2, b.defaultDomain, m)
	vEnsures("nothing else is written", vUnchanged())
}

//verif:prop C17
func vc_KeyLocalizerForDomain(b *Bundle, m *vMatcher, domain string, lang []any, g_k, g_j int) {
	vBundleMatching(b, m)
	b2 := *b
	b2.languageMatcher = &vMatcher{lang, g_k, g_j, m.tag, m.index, m.conf}
	l := NewKeyLocalizerForDomain(&b2, domain, lang...)
	vEnsures("new", vFresh(l) && vFresh(l.Localizer))
	vMatchedLocale(l.Localizer, &b2, domain, m)
	vEnsures("nothing else is written", vUnchanged())
}

//verif:prop C17
func vc_KeyLocalizerDefaultDomain(b *Bundle, m *vMatcher, lang []any, g_k, g_j int) {
	vBundleMatching(b, m)
	b2 := *b
	b2.languageMatcher = &vMatcher{lang, g_k, g_j, m.tag, m.index, m.conf}
	l := NewKeyLocalizer(&b2, lang...)
	vEnsures("new", vFresh(l) && vFresh(l.Localizer))
	vMatchedLocale(l.Localizer, &b2, b.defaultDomain, m)
	vEnsures("nothing else is written", vUnchanged())
}

//verif:prop C17
func vc_LanguageSupported(b *Bundle, m *vMatcher, t language.Tag) {
	vRequires(b != nil && m != nil)
	b2 := *b
	b2.languageMatcher = &vMatcherOne{t, m.tag, m.index, m.conf}
	vEnsures("supported exactly if the matcher finds a language", b2.IsLanguageSupported(t) == (m.conf > language.No))
	vEnsures("nothing else is written", vUnchanged())
}

// The matcher of a bundle is built from exactly the languages it supports, in the order
// in which the matcher's answer is looked up.
//
//verif:prop C17
//verif:opaque @/catalog/poplural.ForLanguage
//verif:opt unroll=(*@.bundleBuilder).preloadLanguages
func vc_BundleMatcher(l Loader, src, fb, t language.Tag, d string, p Printer, m *vMatcher) {
	vRequires(l != nil && p != nil && m != nil && src != language.Und && fb != language.Und && t != language.Und && src != fb && src != t && fb != t)
	_, e1 := l.Load(fb, d)
	_, e2 := l.Load(t, d)
	vRequires(e1 == nil && e2 == nil)
	b, err := NewBundle(WithSourceLanguage(src), WithFallbackLanguage(fb), WithLanguage(t), WithDomainLoader(d, l), WithPrinter(p),
		WithLanguageMatcherBuilder(func(ts []language.Tag, _ ...language.MatchOption) language.Matcher {
			vEnsures("the matcher knows every language", len(ts) == 3)
			vEnsures("in the order of the options", ts[0] == src && ts[1] == fb && ts[2] == t)
			return m
		}))
	vEnsures("created", b != nil && err == nil)
	vEnsures("the bundle asks this matcher", b.languageMatcher == language.Matcher(m))
	vEnsures("its answers are looked up in the same list", len(b.languages) == 3 && b.languages[0] == src && b.languages[1] == fb && b.languages[2] == t)
	_, h1 := b.locales[src]
	_, h2 := b.locales[fb]
	_, h3 := b.locales[t]
	vEnsures("all of them have a locale", h1 && h2 && h3)
}
