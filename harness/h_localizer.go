package main

import (
	"errors"
	"fmt"
	"strconv"
	"strings"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/localize"
)

// ---- an independent model of bundles and localizers

type fakeCat struct {
	lang language.Tag
	dom  string
	sing map[[2]string]string // ctx, id
	plur map[[3]string]string // ctx, id, form
	errs map[[2]string]error  // ctx, id
}

var errNeg = errors.New("negative count")

func formOf(n any) (string, error) {
	switch v := n.(type) {
	case int:
		if v < 0 {
			return "", errNeg
		}
		if v == 1 {
			return "one", nil
		}
		return "other", nil
	case string:
		if v == "1" {
			return "one", nil
		}
	}
	return "other", nil
}

func (c *fakeCat) Lookup(ctx, id string) (string, error) {
	if e := c.errs[[2]string{ctx, id}]; e != nil {
		return "IGNORED", e
	}
	if t, ok := c.sing[[2]string{ctx, id}]; ok {
		return t, nil
	}
	return "IGNORED", &catalog.ErrMissingMessageID{Language: c.lang, Domain: c.dom, Context: ctx, MsgID: id}
}

func (c *fakeCat) LookupPlural(ctx, id string, n any) (string, error) {
	f, err := formOf(n)
	if err != nil {
		return "IGNORED", err
	}
	if e := c.errs[[2]string{ctx, id}]; e != nil {
		return "IGNORED", e
	}
	if t, ok := c.plur[[3]string{ctx, id, f}]; ok {
		return t, nil
	}
	return "IGNORED", &catalog.ErrMissingMessageID{Language: c.lang, Domain: c.dom, Context: ctx, MsgID: id + "#" + f}
}

func (c *fakeCat) Language() language.Tag { return c.lang }

type fakeLoader map[language.Tag]map[string]*fakeCat

func (l fakeLoader) Load(lang language.Tag, domain string) (catalog.Catalog, error) {
	if c := l[lang][domain]; c != nil {
		return c, nil
	}
	return nil, spreak.NewErrNotFound(lang, "fake", "domain=%q", domain)
}

type tagPrinter struct{}

func (tagPrinter) Init(_ []language.Tag) {}
func (tagPrinter) GetPrintFunc(lang language.Tag) spreak.PrintFunc {
	return func(s string, vars ...any) string { return modelPrint(lang, s, vars) }
}

func modelPrint(lang language.Tag, s string, vars []any) string {
	return fmt.Sprintf("<%s|%s|%d:%v>", lang, s, len(vars), vars)
}

type scenario struct {
	loader   fakeLoader
	langs    []language.Tag
	source   language.Tag
	fallback language.Tag
	domain   string
	errCtx   string
	useCB    bool
	log      []error
	bundle   *spreak.Bundle
	desc     string
}

var (
	scLangs   = []language.Tag{language.German, language.MustParse("de-AT"), language.French, language.Polish, language.BrazilianPortuguese, language.EuropeanPortuguese}
	scSources = []language.Tag{language.Und, language.English, language.English, language.Arabic, language.Russian, language.Japanese, language.French}
	scDomains = []string{"", "app", "db", "App", " app"}
	scCtx     = []string{"", "errors", "menu", " menu", "Menu"}
	scIDs     = []string{"hello", "file", "x y", "", "%d files", "hello_menu", " file", "file ", "\tpad\n", "Hello", "menu\x04hello", "100%", "\u00a0nbsp", "héllo", "he\u0301llo", "hello.", " "}
)

func pick[T any](h *H, xs []T) T { return xs[h.rnd.Intn(len(xs))] }

func newScenario(h *H) *scenario {
	s := &scenario{loader: fakeLoader{}}
	var sb strings.Builder
	for _, l := range scLangs {
		if h.rnd.Intn(4) == 0 {
			continue
		}
		s.loader[l] = map[string]*fakeCat{}
		for _, d := range scDomains {
			if d != "" && h.rnd.Intn(3) == 0 {
				continue
			}
			c := &fakeCat{lang: l, dom: d, sing: map[[2]string]string{}, plur: map[[3]string]string{}, errs: map[[2]string]error{}}
			for _, ctx := range scCtx {
				for _, id := range scIDs {
					k := [2]string{ctx, id}
					switch h.rnd.Intn(7) {
					case 0, 1, 2:
						c.sing[k] = fmt.Sprintf("%s/%s/%s/%s", l, d, ctx, id)
					case 3:
						c.errs[k] = fmt.Errorf("custom error %s %s %s %s", l, d, ctx, id)
					}
					for _, f := range []string{"one", "other"} {
						if h.rnd.Intn(5) < 3 {
							c.plur[[3]string{ctx, id, f}] = fmt.Sprintf("%s/%s/%s/%s#%s", l, d, ctx, id, f)
						}
					}
				}
			}
			s.loader[l][d] = c
		}
	}
	for l := range s.loader {
		s.langs = append(s.langs, l)
	}
	sortTags(s.langs)
	s.source = pick(h, scSources)
	if s.loader[s.source] != nil {
		s.source = language.English
	}
	s.fallback = language.Und
	if h.rnd.Intn(3) > 0 {
		all := append([]language.Tag{}, s.langs...)
		if s.source != language.Und {
			all = append(all, s.source)
		}
		if len(all) > 0 {
			s.fallback = pick(h, all)
		}
	}
	s.domain = pick(h, scDomains)
	s.errCtx = pick(h, []string{"", "errors", "menu"})
	s.useCB = h.rnd.Intn(4) > 0
	opts := []spreak.BundleOption{spreak.WithDefaultDomain(s.domain), spreak.WithPrinter(tagPrinter{})}
	if s.errCtx != "" {
		opts = append(opts, spreak.WithErrorContext(s.errCtx))
	} else {
		s.errCtx = "errors"
	}
	for _, d := range scDomains {
		opts = append(opts, spreak.WithDomainLoader(d, s.loader))
	}
	if s.source != language.Und {
		opts = append(opts, spreak.WithSourceLanguage(s.source))
	}
	for _, l := range s.langs {
		opts = append(opts, spreak.WithLanguage(l))
	}
	if s.fallback != language.Und {
		// a fallback is loaded as required: only usable if it has every domain
		if s.fallback != s.source {
			for _, d := range scDomains {
				if s.loader[s.fallback][d] == nil {
					c := &fakeCat{lang: s.fallback, dom: d, sing: map[[2]string]string{}, plur: map[[3]string]string{}, errs: map[[2]string]error{}}
					s.loader[s.fallback][d] = c
				}
			}
		}
		opts = append(opts, spreak.WithFallbackLanguage(s.fallback))
	}
	if s.useCB {
		opts = append(opts, spreak.WithMissingTranslationCallback(func(err error) { s.log = append(s.log, err) }))
	}
	b, err := spreak.NewBundle(opts...)
	if err != nil {
		panic(fmt.Sprintf("bundle construction failed: %v", err))
	}
	s.bundle = b
	fmt.Fprintf(&sb, "languages=%v source=%v fallback=%v defaultDomain=%q errCtx=%q callback=%v", s.langs, s.source, s.fallback, s.domain, s.errCtx, s.useCB)
	s.desc = sb.String()
	return s
}

func sortTags(t []language.Tag) {
	for i := range t {
		for j := i + 1; j < len(t); j++ {
			if t[j].String() < t[i].String() {
				t[i], t[j] = t[j], t[i]
			}
		}
	}
}

// model of one locale: the language, whether it prints source text
type mLocale struct {
	lang     language.Tag
	isSource bool
}

func (s *scenario) fallbackLoc() mLocale {
	if s.fallback != language.Und && s.fallback != s.source {
		return mLocale{s.fallback, false}
	}
	return s.sourceLoc()
}

func (s *scenario) sourceLoc() mLocale { return mLocale{s.source, true} }

// srcForm: the gettext plural form of a count in the source languages used here
func srcForm(lang language.Tag, v int) int {
	if v < 0 {
		v = -v
	}
	switch lang {
	case language.Japanese:
		return 0
	case language.French:
		return b2i(v > 1)
	case language.Russian:
		if v%10 == 1 && v%100 != 11 {
			return 0
		}
		return 1 + b2i(!(v%10 >= 2 && v%10 <= 4 && (v%100 < 10 || v%100 >= 20)))
	case language.Arabic:
		switch {
		case v <= 2:
			return v
		case v%100 >= 3 && v%100 <= 10:
			return 3
		case v%100 >= 11:
			return 4
		}
		return 5
	}
	return b2i(v != 1)
}

type query struct {
	plural   bool
	dom, ctx string
	id, pl   string
	n        any
	vars     []any
}

func (s *scenario) one(l mLocale, q query) (string, error) {
	if l.isSource {
		if !q.plural {
			return modelPrint(l.lang, q.id, q.vars), nil
		}
		// the gettext rule of the source language; a count that is no number selects form 0
		idx := 0
		if v, ok := q.n.(int); ok {
			idx = srcForm(l.lang, v)
		} else if str, ok := q.n.(string); ok {
			v, _ := strconv.Atoi(str)
			idx = srcForm(l.lang, v)
		}
		if idx == 0 || q.pl == "" {
			return modelPrint(l.lang, q.id, q.vars), nil
		}
		return modelPrint(l.lang, q.pl, q.vars), nil
	}
	c := s.loader[l.lang][q.dom]
	if c == nil {
		return "", &spreak.ErrMissingDomain{Language: l.lang, Domain: q.dom}
	}
	var t string
	var err error
	if q.plural {
		t, err = c.LookupPlural(q.ctx, q.id, q.n)
	} else {
		t, err = c.Lookup(q.ctx, q.id)
	}
	if err != nil {
		return "", err
	}
	return modelPrint(l.lang, t, q.vars), nil
}

// chain returns the text, whether the query counts as found, and the expected reports.
func (s *scenario) chain(l mLocale, found bool, q query) (text string, err error, errs []error) {
	t, e1 := s.one(l, q)
	if e1 == nil {
		if !found {
			return t, errors.New("locale missing"), nil
		}
		return t, nil, nil
	}
	errs = []error{e1}
	f := s.fallbackLoc()
	t, e2 := s.one(f, q)
	if e2 == nil {
		return t, e1, errs
	}
	if f.lang != l.lang {
		errs = append(errs, e2)
	}
	t, _ = s.one(s.sourceLoc(), q)
	return t, e1, errs
}

func errText(e error) string {
	if e == nil {
		return "<nil>"
	}
	return fmt.Sprintf("%T %v", e, e)
}

// localizer for a requested language: exact loaded language, source language, or nothing
func (s *scenario) localizer(h *H) (*spreak.Localizer, mLocale, bool, string) {
	cands := append([]language.Tag{}, s.langs...)
	if s.source != language.Und {
		cands = append(cands, s.source)
	}
	cands = append(cands, language.Korean)
	want := pick(h, cands)
	dom := s.domain
	var l *spreak.Localizer
	if h.rnd.Intn(2) == 0 {
		l = spreak.NewLocalizer(s.bundle, want)
	} else {
		dom = pick(h, append(scDomains, "nosuch"))
		l = spreak.NewLocalizerForDomain(s.bundle, dom, want.String())
	}
	if want == language.Korean {
		return l, s.fallbackLoc(), false, dom
	}
	if want == s.source {
		return l, s.sourceLoc(), true, dom
	}
	return l, mLocale{want, false}, true, dom
}

type fullMsg struct {
	localize.Message
	has bool
	dom string
}

func (m *fullMsg) HasDomain() bool   { return m.has }
func (m *fullMsg) GetDomain() string { return m.dom }

type errMsg struct{ fullMsg }

func (e *errMsg) Error() string { return "errMsg:" + e.Singular }

func (h *H) randQuery(plural bool) query {
	q := query{plural: plural, dom: pick(h, append(scDomains, "nosuch")), ctx: pick(h, append(scCtx, "zzz")), id: pick(h, append(scIDs, "unknown"))}
	for _, s := range h.strs {
		if h.rnd.Intn(20) == 0 {
			q.id = s
		}
	}
	for i := h.rnd.Intn(4); i > 0; i-- {
		q.vars = append(q.vars, pick(h, []any{1, "a", nil, 2.5, -3}))
	}
	if plural {
		q.pl = pick(h, []string{"", "plural", "%d files", " plural", "plural ", " ", "Plural", "100%"})
		q.n = pick(h, []any{0, 1, 2, -1, 5, 11, 21, 100, "1", "7"})
	}
	return q
}

// variants calls every Localizer method that answers q.
func variants(l *spreak.Localizer, k *spreak.KeyLocalizer, defDom string, q query) map[string]string {
	out := map[string]string{}
	if !q.plural {
		if q.dom == defDom && q.ctx == "" {
			out["Getf"] = l.Getf(q.id, q.vars...)
			out["Key.Getf"] = k.Getf(q.id, q.vars...)
			if len(q.vars) == 0 {
				out["Get"] = l.Get(q.id)
				out["Key.Get"] = k.Get(q.id)
			}
		}
		if q.ctx == "" {
			out["DGetf"] = l.DGetf(q.dom, q.id, q.vars...)
			out["Key.DGetf"] = k.DGetf(q.dom, q.id, q.vars...)
			if len(q.vars) == 0 {
				out["DGet"] = l.DGet(q.dom, q.id)
				out["Key.DGet"] = k.DGet(q.dom, q.id)
			}
		}
		if q.dom == defDom {
			out["PGetf"] = l.PGetf(q.ctx, q.id, q.vars...)
			out["Key.PGetf"] = k.PGetf(q.ctx, q.id, q.vars...)
			if len(q.vars) == 0 {
				out["PGet"] = l.PGet(q.ctx, q.id)
				out["Key.PGet"] = k.PGet(q.ctx, q.id)
			}
		}
		out["DPGetf"] = l.DPGetf(q.dom, q.ctx, q.id, q.vars...)
		out["Key.DPGetf"] = k.DPGetf(q.dom, q.ctx, q.id, q.vars...)
		if len(q.vars) == 0 {
			out["DPGet"] = l.DPGet(q.dom, q.ctx, q.id)
			out["Key.DPGet"] = k.DPGet(q.dom, q.ctx, q.id)
		}
		return out
	}
	if q.pl == q.id {
		if q.dom == defDom && q.ctx == "" {
			out["Key.NGetf"] = k.NGetf(q.id, q.n, q.vars...)
			if len(q.vars) == 0 {
				out["Key.NGet"] = k.NGet(q.id, q.n)
			}
		}
		if q.ctx == "" {
			out["Key.DNGetf"] = k.DNGetf(q.dom, q.id, q.n, q.vars...)
			if len(q.vars) == 0 {
				out["Key.DNGet"] = k.DNGet(q.dom, q.id, q.n)
			}
		}
		if q.dom == defDom {
			out["Key.NPGetf"] = k.NPGetf(q.ctx, q.id, q.n, q.vars...)
			if len(q.vars) == 0 {
				out["Key.NPGet"] = k.NPGet(q.ctx, q.id, q.n)
			}
		}
		out["Key.DNPGetf"] = k.DNPGetf(q.dom, q.ctx, q.id, q.n, q.vars...)
		if len(q.vars) == 0 {
			out["Key.DNPGet"] = k.DNPGet(q.dom, q.ctx, q.id, q.n)
		}
	}
	if q.dom == defDom && q.ctx == "" {
		out["NGetf"] = l.NGetf(q.id, q.pl, q.n, q.vars...)
		if len(q.vars) == 0 {
			out["NGet"] = l.NGet(q.id, q.pl, q.n)
		}
	}
	if q.ctx == "" {
		out["DNGetf"] = l.DNGetf(q.dom, q.id, q.pl, q.n, q.vars...)
		if len(q.vars) == 0 {
			out["DNGet"] = l.DNGet(q.dom, q.id, q.pl, q.n)
		}
	}
	if q.dom == defDom {
		out["NPGetf"] = l.NPGetf(q.ctx, q.id, q.pl, q.n, q.vars...)
		if len(q.vars) == 0 {
			out["NPGet"] = l.NPGet(q.ctx, q.id, q.pl, q.n)
		}
	}
	out["DNPGetf"] = l.DNPGetf(q.dom, q.ctx, q.id, q.pl, q.n, q.vars...)
	if len(q.vars) == 0 {
		out["DNPGet"] = l.DNPGet(q.dom, q.ctx, q.id, q.pl, q.n)
	}
	return out
}

func init() {
	register("C07", "random bundles (3 languages, 3 domains, random hits, misses and custom errors, optional source/fallback language and callback); one evaluation is one lookup of a random (domain, context, id, plural, n, vars) compared with the chain own locale -> fallback -> source text, its error and the callback log; non-trivial: a distinct query in a distinct bundle", func(h *H) {
		for i := 0; i < h.n(5000) && !h.expired(); i++ {
			s := newScenario(h)
			for j := 0; j < 6; j++ {
				l, loc, found, dom := s.localizer(h)
				h.Checkf(l.HasLocale() == found, "localizer/found", s.desc, "HasLocale=%v want %v", l.HasLocale(), found)
				h.Checkf(l.Language() == loc.lang, "localizer/language", s.desc, "Language=%v want %v", l.Language(), loc.lang)
				h.Checkf(l.DefaultDomain() == dom, "localizer/domain", s.desc, "DefaultDomain=%q want %q", l.DefaultDomain(), dom)
				for k := 0; k < 12; k++ {
					q := h.randQuery(k%2 == 1)
					if q.plural && q.pl == "" {
						q.pl = "p"
					}
					if _, isInt := q.n.(int); q.plural && !isInt {
						q.n = 3
					}
					in := fmt.Sprintf("%s; localizer=%v found=%v; %+v", s.desc, loc, found, q)
					h.Case("chain", in, func() {
						s.log = nil
						m := &fullMsg{has: true, dom: q.dom}
						m.Singular, m.Context, m.Vars = q.id, q.ctx, q.vars
						if q.plural {
							m.Plural, m.Count = q.pl, q.n.(int)
						}
						got, err := l.LocalizeWithError(m)
						log := s.log
						want, werr, wlog := s.chain(loc, found, q)
						h.Checkf(got == want, "chain/text", in, "got %s want %s", got, want)
						h.Checkf((err == nil) == (werr == nil), "chain/error-nil", in, "err=%v want %v", err, werr)
						if len(wlog) > 0 {
							h.Checkf(errText(err) == errText(werr), "chain/error", in, "err=%s want %s", errText(err), errText(werr))
						}
						if !s.useCB {
							return
						}
						if len(wlog) == 0 {
							h.Checkf(len(log) == 0, "chain/report-on-hit", in, "reported %v", log)
							return
						}
						h.Checkf(len(log) > 0 && errText(log[0]) == errText(wlog[0]), "chain/report", in, "reported %v want %v", log, wlog)
						if !q.plural {
							h.Checkf(fmt.Sprint(log) == fmt.Sprint(wlog), "chain/report-all", in, "reported %v want %v", log, wlog)
						}
					})
				}
			}
		}
	})
	register("C08", "random bundles as for C07; one evaluation is one query answered through every Localizer and KeyLocalizer method that can express it, each compared with the independent model", func(h *H) {
		for i := 0; i < h.n(5000) && !h.expired(); i++ {
			s := newScenario(h)
			for j := 0; j < 4; j++ {
				l, loc, found, dom := s.localizer(h)
				kl := &spreak.KeyLocalizer{Localizer: l}
				for k := 0; k < 16; k++ {
					q := h.randQuery(k%2 == 1)
					if h.rnd.Intn(2) == 0 {
						q.dom = dom
					}
					if h.rnd.Intn(2) == 0 {
						q.ctx = ""
					}
					if h.rnd.Intn(3) == 0 {
						q.pl = q.id
					}
					if h.rnd.Intn(2) == 0 {
						q.vars = nil
					}
					in := fmt.Sprintf("%s; localizer=%v found=%v default=%q; %+v", s.desc, loc, found, dom, q)
					h.Case("route", in, func() {
						want, _, _ := s.chain(loc, found, q)
						for name, got := range variants(l, kl, dom, q) {
							h.Checkf(got == want, "route/"+name, in, "%s returned %s want %s", name, got, want)
						}
						h.Checkf(l.Print(q.id, q.vars...) == modelPrint(loc.lang, q.id, q.vars), "route/Print", in, "Print returned %s", l.Print(q.id, q.vars...))
					})
				}
			}
		}
	})
	register("C09", "random bundles as for C07; Localizables with and without plural, context, variables and domain override, plain errors, Localizable errors, nil; compared with the model", func(h *H) {
		for i := 0; i < h.n(5000) && !h.expired(); i++ {
			s := newScenario(h)
			for j := 0; j < 4; j++ {
				l, loc, found, dom := s.localizer(h)
				h.Case("nil", s.desc+" nil", func() {
					got, err := l.LocalizeWithError(nil)
					h.Checkf(got == "<nil>" && err != nil, "nil", s.desc, "LocalizeWithError(nil)=%q,%v", got, err)
					h.Checkf(l.LocalizeError(nil) == nil, "nil-error", s.desc, "LocalizeError(nil) is not nil")
				})
				for k := 0; k < 12; k++ {
					q := h.randQuery(k%2 == 1)
					if q.plural && q.pl == "" {
						q.plural = false
						q.n = nil
					}
					m := &errMsg{}
					m.Singular, m.Context, m.Vars = q.id, q.ctx, append([]any(nil), q.vars...)
					if q.plural {
						m.Plural = q.pl
						m.Count = pick(h, []int{0, 1, 2, 5, -1, 1 << 40})
						q.n = m.Count
					} else {
						m.Count = h.rnd.Intn(3)
					}
					m.has = h.rnd.Intn(2) == 0
					m.dom = q.dom
					if !m.has {
						q.dom = dom
					}
					in := fmt.Sprintf("%s; localizer=%v found=%v default=%q; has=%v %+v", s.desc, loc, found, dom, m.has, q)
					h.Case("localizable", in, func() {
						want, werr, wlog := s.chain(loc, found, q)
						got, err := l.LocalizeWithError(m)
						h.Checkf(got == want, "localizable/text", in, "got %s want %s", got, want)
						h.Checkf((err == nil) == (werr == nil), "localizable/err", in, "err %v want %v", err, werr)
						if len(wlog) > 0 {
							h.Checkf(errText(err) == errText(werr), "localizable/errtext", in, "err %v want %v", err, werr)
						}
						h.Checkf(l.Localize(m) == want, "localizable/Localize", in, "Localize differs")
						h.Checkf(fmt.Sprint(m.Vars) == fmt.Sprint(q.vars), "localizable/vars", in, "vars changed")
						r := l.LocalizeError(m)
						h.checkLocalized(in, r, m, want, werr)
						// a wrapped Localizable is a plain error
						w := fmt.Errorf("w: %w", m)
						q2 := query{dom: dom, ctx: s.errCtx, id: w.Error()}
						want2, werr2, _ := s.chain(loc, found, q2)
						h.checkLocalized(in+" wrapped", l.LocalizeError(w), w, want2, werr2)
					})
					e := errors.New(pick(h, scIDs))
					in2 := fmt.Sprintf("%s; localizer=%v found=%v default=%q; error %q", s.desc, loc, found, dom, e)
					h.Case("error", in2, func() {
						want, werr, _ := s.chain(loc, found, query{dom: dom, ctx: s.errCtx, id: e.Error()})
						h.checkLocalized(in2, l.LocalizeError(e), e, want, werr)
					})
				}
			}
		}
	})
}

func (h *H) checkLocalized(in string, r, orig error, want string, werr error) {
	if werr != nil {
		h.Checkf(r == orig, "error/untranslated", in, "got %s instead of the original error", errText(r))
		return
	}
	le, ok := r.(*localize.Error)
	if !h.Checkf(ok, "error/type", in, "got %s want *localize.Error", errText(r)) {
		return
	}
	h.Checkf(le.Translation == want && le.Error() == want && le.String() == want, "error/text", in, "got %q want %q", le.Translation, want)
	h.Checkf(le.Wrapped == orig && errors.Unwrap(le) == orig && errors.Is(r, orig), "error/wraps", in, "does not wrap the original error")
}
