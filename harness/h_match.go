package main

import (
	"fmt"
	"strings"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"
)

// C17: localizers of random bundles for random requests, with a matcher that records what
// it is asked and with the standard matcher.

type recMatcher struct {
	inner language.Matcher
	langs []language.Tag
	asked []language.Tag
}

func (m *recMatcher) Match(ts ...language.Tag) (language.Tag, int, language.Confidence) {
	m.asked = append([]language.Tag{}, ts...)
	return m.inner.Match(ts...)
}

var matchStrs = []string{"de", "de-AT, fr;q=0.8", "", "*", "!!", "fr;q=0.1,pl;q=0.9", "xx-invalid-!", "en_US", "zh-TW", "sr", "de;q=x", "und", " ru , uk;q=0.5 "}

func matchCase(h *H) {
	perm := h.rnd.Perm(len(bundLangs))
	l := &bundLoader{cats: map[language.Tag]catalog.Catalog{}, errs: map[language.Tag]error{}, calls: map[language.Tag]int{}, name: "app"}
	var langs []any
	for i, k := range perm[:1+h.rnd.Intn(4)] {
		t := bundLangs[k]
		if t == language.Und {
			continue
		}
		l.cats[t] = &bundCat{t, "app", i}
		langs = append(langs, t)
	}
	fb := language.Ukrainian
	l.cats[fb] = &bundCat{fb, "app", 99}
	var rec *recMatcher
	exact := h.rnd.Intn(2) == 0
	opts := []spreak.BundleOption{spreak.WithDomainLoader("app", l), spreak.WithDefaultDomain("app"), spreak.WithLanguage(langs...),
		spreak.WithPrinter(tagPrinter{}),
		spreak.WithLanguageMatcherBuilder(func(ts []language.Tag, o ...language.MatchOption) language.Matcher {
			rec = &recMatcher{langs: append([]language.Tag{}, ts...)}
			if exact {
				rec.inner = &exactMatcher{rec.langs}
			} else {
				rec.inner = language.NewMatcher(rec.langs, o...)
			}
			return rec
		})}
	src := language.English
	if h.rnd.Intn(2) == 0 {
		opts = append(opts, spreak.WithSourceLanguage(src))
	} else {
		src = language.Und
	}
	if h.rnd.Intn(2) == 0 {
		opts = append(opts, spreak.WithFallbackLanguage(fb))
	} else {
		fb = src // the source text is the fallback
	}
	b, err := spreak.NewBundle(opts...)
	if err != nil {
		h.Fail("bundle", fmt.Sprint(langs), err.Error())
		return
	}
	sup := map[language.Tag]bool{}
	for _, t := range b.SupportedLanguages() {
		sup[t] = true
	}
	var req []any
	var want []language.Tag
	var desc []string
	for i := h.rnd.Intn(5); i > 0; i-- {
		switch h.rnd.Intn(5) {
		case 0, 1:
			t := pick(h, append([]language.Tag{language.MustParse("de-CH"), language.Japanese, language.Ukrainian, language.TraditionalChinese}, bundLangs...))
			req, want, desc = append(req, t), append(want, t), append(desc, "tag "+t.String())
		case 2, 3:
			s := pick(h, matchStrs)
			ts, _, err := language.ParseAcceptLanguage(s)
			if err == nil {
				want = append(want, ts...)
			}
			req, desc = append(req, s), append(desc, fmt.Sprintf("%q", s))
		case 4:
			v := pick(h, []any{nil, 42, []language.Tag{language.German}, []string{"de"}, struct{}{}})
			req, desc = append(req, v), append(desc, fmt.Sprintf("%T", v))
		}
	}
	input := fmt.Sprintf("languages %v, fallback %v, exact %v, request %s", rec.langs, fb, exact, strings.Join(desc, "; "))
	key := fmt.Sprintf("match %d", len(req))
	h.Case(key, input, func() {
		known := map[language.Tag]bool{}
		for _, t := range rec.langs {
			known[t] = true
		}
		if !h.Checkf(len(known) == len(sup), key, input, "matcher knows %v, supported %v", rec.langs, b.SupportedLanguages()) {
			return
		}
		for _, t := range rec.langs {
			h.Checkf(sup[t], key, input, "matcher knows %v, which is not supported", t)
		}
		_, idx, conf := rec.inner.Match(want...)
		wl, found := fb, false
		if conf > language.No {
			wl, found = rec.langs[idx], true
		}
		for _, kind := range []int{0, 1, 2, 3} {
			rec.asked = nil
			var lz *spreak.Localizer
			dom := "app"
			switch kind {
			case 0:
				lz = spreak.NewLocalizer(b, req...)
			case 1:
				dom = "x"
				lz = spreak.NewLocalizerForDomain(b, dom, req...)
			case 2:
				lz = spreak.NewKeyLocalizer(b, req...).Localizer
			case 3:
				dom = ""
				lz = spreak.NewKeyLocalizerForDomain(b, dom, req...).Localizer
			}
			h.Checkf(fmt.Sprint(rec.asked) == fmt.Sprint(want) || len(rec.asked)+len(want) == 0, key, input, "matcher is asked for %v, want %v", rec.asked, want)
			h.Checkf(lz.Language() == wl, key, input, "language %v, want %v", lz.Language(), wl)
			h.Checkf(lz.HasLocale() == found, key, input, "HasLocale %v", lz.HasLocale())
			h.Checkf(lz.DefaultDomain() == dom, key, input, "domain %q, want %q", lz.DefaultDomain(), dom)
		}
		for _, t := range append([]language.Tag{language.Japanese}, want...) {
			_, _, c := rec.inner.Match(t)
			h.Checkf(b.IsLanguageSupported(t) == (c > language.No), key, input, "IsLanguageSupported(%v) = %v", t, b.IsLanguageSupported(t))
		}
	})
}

func init() {
	register("C17", "localizers of bundles with random languages and fallbacks, for random lists of tags, Accept-Language strings (also invalid ones) and other values, with the standard matcher and an exact one that records what it is asked", func(h *H) {
		for i := h.n(3000); i > 0 && !h.expired(); i-- {
			matchCase(h)
		}
	})
}
