package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"
)

// C11: bundles built from random option lists and loader results against a model.

type bundCat struct {
	lang language.Tag
	dom  string
	id   int
}

func (c *bundCat) Lookup(ctx, msgID string) (string, error) {
	return fmt.Sprintf("%s/%s/%d:%s:%s", c.lang, c.dom, c.id, ctx, msgID), nil
}
func (c *bundCat) LookupPlural(ctx, msgID string, n any) (string, error) { return c.Lookup(ctx, msgID) }
func (c *bundCat) Language() language.Tag                                { return c.lang }

type bundLoader struct {
	cats  map[language.Tag]catalog.Catalog
	errs  map[language.Tag]error
	calls map[language.Tag]int
	name  string
}

func (l *bundLoader) Load(lang language.Tag, domain string) (catalog.Catalog, error) {
	l.calls[lang]++
	if domain != l.name {
		return nil, fmt.Errorf("loader of %q asked for %q", l.name, domain)
	}
	if e := l.errs[lang]; e != nil {
		return nil, e
	}
	return l.cats[lang], nil
}

// exactMatcher matches a language only with itself.
type exactMatcher struct{ langs []language.Tag }

func (m *exactMatcher) Match(ts ...language.Tag) (language.Tag, int, language.Confidence) {
	for _, t := range ts {
		for i, l := range m.langs {
			if l == t {
				return l, i, language.Exact
			}
		}
	}
	return language.Und, 0, language.No
}

var bundLangs = []language.Tag{language.German, language.MustParse("de-AT"), language.French, language.Polish, language.English,
	language.Und, language.MustParse("zh-Hant"), language.MustParse("sr-Latn-RS")}
var bundDoms = []string{"", "app", "db", "x y"}

func langValue(h *H, t language.Tag) (any, string) {
	switch h.rnd.Intn(5) {
	case 0:
		if t != language.Und {
			s := t.String()
			switch h.rnd.Intn(4) {
			case 0:
				s = strings.ReplaceAll(s, "-", "_")
			case 1:
				s += ".UTF-8"
			case 2:
				s = " " + s + "@euro"
			}
			return s, fmt.Sprintf("%q", s)
		}
	}
	return t, "tag " + t.String()
}

func bundleCase(h *H) {
	var desc []string
	say := func(f string, a ...any) { desc = append(desc, fmt.Sprintf(f, a...)) }
	boom := errors.New("disk on fire")
	nDom := h.rnd.Intn(4)
	loaders := map[string]*bundLoader{}
	var log []error
	var opts []spreak.BundleOption
	// setup actions of the model, in option order
	type act struct {
		optional bool
		langs    []language.Tag
		invalid  bool // ends with an invalid value
	}
	var acts []act
	optFails := false
	src, fb := language.Und, language.Und
	flaky := h.rnd.Intn(4) == 0
	id := 0
	doms := append([]string{}, bundDoms...)
	h.rnd.Shuffle(len(doms), func(i, j int) { doms[i], doms[j] = doms[j], doms[i] })
	for _, d := range doms[:nDom] {
		l := &bundLoader{cats: map[language.Tag]catalog.Catalog{}, errs: map[language.Tag]error{}, calls: map[language.Tag]int{}, name: d}
		for _, t := range bundLangs {
			switch r := h.rnd.Intn(12); {
			case r < 5:
				l.errs[t] = spreak.NewErrNotFound(t, "test", "%s", d)
			case r == 5 && h.rnd.Intn(2) == 0:
				l.errs[t] = fmt.Errorf("wrapped: %w", spreak.NewErrNotFound(t, "test", "%s", d))
			case r == 6 && flaky:
				l.errs[t] = boom
			case r == 7 && flaky:
				l.errs[t] = fmt.Errorf("catalog %s broken: %w", d, boom)
			default:
				id++
				l.cats[t] = &bundCat{t, d, id}
			}
			if l.errs[t] != nil {
				say("%s/%s: %v", t, d, l.errs[t])
			}
		}
		loaders[d] = l
	}
	type opt struct {
		name string
		o    spreak.BundleOption
		f    func()
	}
	var list []opt
	for d, l := range loaders {
		list = append(list, opt{fmt.Sprintf("loader %q", d), spreak.WithDomainLoader(d, l), nil})
	}
	sort.Slice(list, func(i, j int) bool { return list[i].name < list[j].name })
	if h.rnd.Intn(3) > 0 {
		t := pick(h, bundLangs)
		if h.rnd.Intn(6) > 0 && t == language.Und {
			t = language.English
		}
		list = append(list, opt{"source " + t.String(), spreak.WithSourceLanguage(t), func() {
			src = t
			acts = append(acts, act{false, []language.Tag{t}, false})
		}})
	}
	if h.rnd.Intn(3) > 0 {
		t := pick(h, bundLangs)
		v, s := langValue(h, t)
		list = append(list, opt{"fallback " + s, spreak.WithFallbackLanguage(v), func() {
			fb = t
			acts = append(acts, act{false, []language.Tag{t}, false})
		}})
	}
	for i := h.rnd.Intn(4); i > 0; i-- {
		optional := h.rnd.Intn(4) > 0
		a := act{optional: optional}
		var vs []any
		var ns []string
		for j := h.rnd.Intn(4); j > 0; j-- {
			t := pick(h, bundLangs)
			v, s := langValue(h, t)
			a.langs, vs, ns = append(a.langs, t), append(vs, v), append(ns, s)
		}
		if h.rnd.Intn(12) == 0 {
			bad := pick(h, []any{42, nil, "!!", "xx-yy-zz-11", []string{"de"}, struct{}{}})
			vs, ns = append(vs, bad), append(ns, fmt.Sprintf("invalid %v", bad))
			a.invalid = true
		}
		o := spreak.WithLanguage(vs...)
		n := "languages "
		if !optional {
			o, n = spreak.WithRequiredLanguage(vs...), "required "
		}
		list = append(list, opt{n + strings.Join(ns, ","), o, func() { acts = append(acts, a) }})
	}
	if h.rnd.Intn(10) == 0 {
		fail := func() { optFails = true }
		switch h.rnd.Intn(6) {
		case 0:
			list = append(list, opt{"nil option", nil, fail})
		case 1:
			list = append(list, opt{"nil loader", spreak.WithDomainLoader("nil", nil), fail})
		case 2:
			list = append(list, opt{"nil printer", spreak.WithPrinter(nil), fail})
		case 3:
			list = append(list, opt{"nil matcher", spreak.WithLanguageMatcherBuilder(nil), fail})
		case 4:
			list = append(list, opt{"invalid fallback", spreak.WithFallbackLanguage(3.5), fail})
		case 5:
			if nDom > 0 {
				list = append(list, opt{"second loader", spreak.WithDomainLoader(doms[0], loaders[doms[0]]), fail})
			}
		}
	}
	h.rnd.Shuffle(len(list), func(i, j int) { list[i], list[j] = list[j], list[i] })
	var inits int
	opts = append(opts, spreak.WithLanguageMatcherBuilder(func(ts []language.Tag, _ ...language.MatchOption) language.Matcher {
		inits++
		return &exactMatcher{ts}
	}), spreak.WithPrinter(tagPrinter{}))
	useCB := h.rnd.Intn(3) > 0
	if useCB {
		opts = append(opts, spreak.WithMissingTranslationCallback(func(err error) { log = append(log, err) }))
	} else {
		say("no callback")
	}
	for _, o := range list {
		opts = append(opts, o.o)
		say("%s", o.name)
		if o.f != nil {
			o.f()
		}
	}

	// model
	fails := optFails
	type mloc struct{ cats map[string]catalog.Catalog }
	stored := map[language.Tag]*mloc{}
	domains := map[string]bool{}
	var wantLog []string
	exactLog := true
	tries := map[language.Tag]int{}
	var errOf []error
	if !fails {
	outer:
		for _, a := range acts {
			for _, t := range a.langs {
				if t == language.Und {
					if !a.optional {
						fails = true
						break outer
					}
					wantLog = append(wantLog, "missing language und")
					continue
				}
				if t == src {
					stored[t] = &mloc{}
					continue
				}
				if stored[t] != nil {
					continue
				}
				tries[t]++
				cats := map[string]catalog.Catalog{}
				for d, l := range loaders {
					var nf *spreak.ErrNotFound
					switch e := l.errs[t]; {
					case e == nil:
						cats[d] = l.cats[t]
					case errors.As(e, &nf):
						wantLog = append(wantLog, fmt.Sprintf("not found %s %s", t, nf.Identifier))
						if !a.optional {
							fails = true
							errOf = append(errOf, e)
						}
					default:
						fails = true
						errOf = append(errOf, e)
					}
				}
				if fails {
					break outer
				}
				if len(cats) == 0 {
					if !a.optional {
						fails = true
						break outer
					}
					wantLog = append(wantLog, "missing language "+t.String())
					continue
				}
				stored[t] = &mloc{cats}
				for d := range cats {
					domains[d] = true
				}
			}
			if a.invalid {
				fails = true
				break
			}
		}
	}
	exactLog = !fails && useCB

	input := strings.Join(desc, "; ")
	h.Case("bundle", input, func() {
		b, err := spreak.NewBundle(opts...)
		if !h.Checkf((err != nil) == fails, "fails", input, "construction error %v, model says failing=%v", err, fails) {
			return
		}
		if err != nil {
			h.Checkf(b == nil, "nil", input, "a bundle is returned with the error %v", err)
			if len(errOf) > 0 {
				ok := false
				for _, e := range errOf {
					ok = ok || err == e
				}
				h.Checkf(ok, "error", input, "error %v is none of the loader errors %v", err, errOf)
			}
			return
		}
		h.Checkf(inits == 1, "matcher", input, "matcher built %d times", inits)
		var wantL, gotL []string
		for t := range stored {
			wantL = append(wantL, t.String())
		}
		for _, t := range b.SupportedLanguages() {
			gotL = append(gotL, t.String())
		}
		sort.Strings(wantL)
		sort.Strings(gotL)
		h.Checkf(fmt.Sprint(wantL) == fmt.Sprint(gotL), "languages", input, "supported %v, want %v", gotL, wantL)
		var wantD []string
		for d := range domains {
			wantD = append(wantD, d)
		}
		gotD := b.Domains()
		sort.Strings(wantD)
		sort.Strings(gotD)
		h.Checkf(fmt.Sprintf("%q", wantD) == fmt.Sprintf("%q", gotD), "domains", input, "domains %q, want %q", gotD, wantD)
		h.Checkf(b.CanLocalize() == (len(stored) > 0 && len(domains) > 0), "can", input, "CanLocalize = %v", b.CanLocalize())
		if exactLog {
			var got []string
			for _, e := range log {
				var nf *spreak.ErrNotFound
				var ml *spreak.ErrMissingLanguage
				switch {
				case errors.As(e, &nf):
					got = append(got, fmt.Sprintf("not found %s %s", nf.Language, nf.Identifier))
				case errors.As(e, &ml):
					got = append(got, "missing language "+ml.Language.String())
				default:
					got = append(got, fmt.Sprintf("other %v", e))
				}
			}
			sort.Strings(got)
			sort.Strings(wantLog)
			h.Checkf(fmt.Sprint(got) == fmt.Sprint(wantLog), "reports", input, "reported %v, want %v", got, wantLog)
		}
		for _, l := range loaders {
			for t, n := range l.calls {
				h.Checkf(n == tries[t], "loads", input, "%s loaded %d times from %q, want %d", t, n, l.name, tries[t])
			}
		}
		// behaviour in every language and domain
		effFb := func(t language.Tag) (*mloc, language.Tag) {
			if m := stored[t]; m != nil {
				return m, t
			}
			if m := stored[fb]; m != nil {
				return m, fb
			}
			return nil, src
		}
		for _, t := range bundLangs {
			loc := spreak.NewLocalizer(b, t)
			h.Checkf(loc.HasLocale() == (stored[t] != nil), "has", input, "%s: HasLocale %v", t, loc.HasLocale())
			h.Checkf(b.IsLanguageSupported(t) == (stored[t] != nil), "supported", input, "%s: IsLanguageSupported %v", t, b.IsLanguageSupported(t))
			m, ml := effFb(t)
			h.Checkf(loc.Language() == ml, "language", input, "%s: language %s, want %s", t, loc.Language(), ml)
			for _, d := range bundDoms {
				want := modelPrint(src, "m", nil)
				for _, c := range []struct {
					m *mloc
					t language.Tag
				}{{m, ml}, {stored[fb], fb}} {
					if c.m == nil || c.t == src {
						if c.t == src && c.m != nil {
							break
						}
						continue
					}
					if cat := c.m.cats[d]; cat != nil {
						s, _ := cat.Lookup("", "m")
						want = modelPrint(c.t, s, nil)
						break
					}
				}
				got := loc.DGet(d, "m")
				h.Checkf(got == want, "answer", input, "%s/%q: %q, want %q", t, d, got, want)
				wantHas := m != nil && m.cats[d] != nil
				h.Checkf(loc.HasDomain(d) == wantHas, "hasdomain", input, "%s: HasDomain(%q) = %v", t, d, !wantHas)
			}
		}
	})
}

func init() {
	register("C11", "random option lists and loader results (missing, wrapped missing, failing) over 8 languages and up to 3 domains; construction result, reported languages, domains, misses, loads and translations against a model; the bounded part covers any number of options", func(h *H) {
		for i := h.n(60000); i > 0 && !h.expired(); i-- {
			bundleCase(h)
		}
	})
}
