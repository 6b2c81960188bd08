package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"slices"
	"sync"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/catalog/cldrplural"
	"github.com/vorlif/spreak/localize"
)

// answers records every answer of a catalog for the given keys.
func answers(c catalog.Catalog, ctxs, ids []string) string {
	s := ""
	for _, ctx := range ctxs {
		for _, id := range ids {
			t, e := c.Lookup(ctx, id)
			s += fmt.Sprintf("%q,%v;", t, e)
			for _, n := range []any{0, 1, 2, 5, 11, "1.5", 1000000} {
				t, e := c.LookupPlural(ctx, id, n)
				s += fmt.Sprintf("%q,%v;", t, e)
			}
		}
	}
	return s
}

func init() {
	register("C16", "random gettext and JSON catalogs and bundles: all answers recorded, then every collection handed in or out is modified and every lookup repeated, sequentially and from 8 goroutines; answers must stay the same; non-trivial: distinct catalog", func(h *H) {
		for i := 0; i < h.n(90) && !h.expired(); i++ {
			lang := pick(h, gLangs)
			fm := pick(h, gFormsTab)
			msgs := h.gCatalog(fm.n, true)
			text := writePO(poQuote("Plural-Forms: "+fm.header+"\n"), msgs)
			ctxs, ids := []string{"", "nosuch"}, []string{"", "nosuch"}
			for _, m := range msgs {
				ctxs = append(ctxs, m.ctx)
				ids = append(ids, m.id)
			}
			h.Case("gettext", text, func() {
				cat, err := catalog.NewPoDecoder().Decode(lang, "d", []byte(text))
				if err != nil {
					return
				}
				h.immut("gettext", text, cat, ctxs, ids, func() {
					g := cat.(*catalog.GettextCatalog)
					ms := g.Messages()
					before := fmt.Sprint(len(ms))
					for c, mm := range ms {
						for id, m := range mm {
							t := m.Translations()
							for k := range t {
								t[k] = "CHANGED"
							}
							t[0] = "CHANGED"
							c2 := m.Clone()
							_ = c2.Translations()
							*m = catalog.GettextMessage{}
							delete(mm, id)
						}
						mm["new"] = &catalog.GettextMessage{}
						delete(ms, c)
					}
					ms["nosuch"] = map[string]*catalog.GettextMessage{"nosuch": {}}
					h.Checkf(before == fmt.Sprint(len(g.Messages())), "gettext/messages", text, "Messages() changed")
				})
			})
			// JSON
			jm := catalog.JSONMessages{}
			for _, m := range msgs {
				key := m.id
				if key == "" {
					key = "empty"
				}
				if m.ctx != "" {
					key += "_" + m.ctx
				}
				tr := map[cldrplural.Category]string{cldrplural.Other: "o" + m.id}
				if m.plural != "" {
					tr[cldrplural.One] = "1" + m.id
					tr[cldrplural.Few] = "f" + m.id
				}
				jm[key] = &catalog.JSONMessage{Context: m.ctx, Translations: tr, Comment: "c"}
			}
			in, _ := json.Marshal(jm)
			h.Case("json", string(in), func() {
				cat, err := catalog.NewJSONCatalogWithMessages(lang, "d", jm)
				if err != nil {
					h.Fail("json/build", string(in), err.Error())
					return
				}
				jsonBefore, _ := json.Marshal(cat)
				h.immut("json", string(in), cat, ctxs, ids, func() {
					for k, m := range jm { // the messages handed in
						for c := range m.Translations {
							m.Translations[c] = "CHANGED"
						}
						m.Context = "zz"
						delete(jm, k)
					}
					ms := cat.Messages()
					for k, m := range ms {
						for c := range m.Translations {
							m.Translations[c] = "CHANGED"
						}
						m.Translations[cldrplural.Zero] = "CHANGED"
						m.Context, m.Comment = "zz", "zz"
						delete(ms, k)
					}
				})
				jsonAfter, _ := json.Marshal(cat)
				h.Checkf(string(jsonBefore) == string(jsonAfter), "json/encode", string(in), "encoding changed: %s -> %s", jsonBefore, jsonAfter)
			})
		}
		for i := 0; i < h.n(40) && !h.expired(); i++ {
			s := newScenario(h)
			l, _, _, _ := s.localizer(h)
			h.Case("bundle", s.desc, func() {
				doms, langs := slices.Clone(s.bundle.Domains()), slices.Clone(s.bundle.SupportedLanguages())
				sortTags(langs)
				ld := slices.Clone(l.Domains())
				q := []query{}
				var want []string
				for k := 0; k < 20; k++ {
					x := h.randQuery(k%2 == 1)
					q = append(q, x)
				}
				ask := func() []string {
					var out []string
					for _, x := range q {
						if x.plural {
							out = append(out, l.DNPGetf(x.dom, x.ctx, x.id, x.pl, x.n, x.vars...))
						} else {
							out = append(out, l.DPGetf(x.dom, x.ctx, x.id, x.vars...))
							m := &localize.Message{Singular: x.id, Context: x.ctx, Vars: x.vars}
							a, e := l.LocalizeWithError(m)
							out = append(out, a, fmt.Sprint(e))
						}
						out = append(out, fmt.Sprint(l.LocalizeError(fmt.Errorf("%s", x.id))))
					}
					return out
				}
				want = ask()
				d2, l2, ld2 := s.bundle.Domains(), s.bundle.SupportedLanguages(), l.Domains()
				for k := range d2 {
					d2[k] = "CHANGED"
				}
				_ = append(d2[:0], "CHANGED")
				for k := range l2 {
					l2[k] = language.Zulu
				}
				for k := range ld2 {
					ld2[k] = "CHANGED"
				}
				l3 := s.bundle.SupportedLanguages()
				sortTags(l3)
				h.Checkf(reflect.DeepEqual(doms, s.bundle.Domains()), "bundle/domains", s.desc, "Domains() changed")
				h.Checkf(reflect.DeepEqual(langs, l3), "bundle/languages", s.desc, "SupportedLanguages() changed")
				h.Checkf(len(ld) == len(l.Domains()) && sameSet(ld, l.Domains()), "bundle/localizer-domains", s.desc, "Localizer.Domains() changed")
				h.Checkf(reflect.DeepEqual(want, ask()), "bundle/answers", s.desc, "answers changed")
				if s.useCB {
					return // the callback is documented as not goroutine safe
				}
				var wg sync.WaitGroup
				for g := 0; g < 8; g++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						defer func() {
							if r := recover(); r != nil {
								h.Fail("bundle/concurrent-panic", s.desc, fmt.Sprint(r))
							}
						}()
						for r := 0; r < 5; r++ {
							got := ask()
							s.bundle.IsLanguageSupported(language.German)
							spreak.NewLocalizer(s.bundle, "de", "fr")
							if !reflect.DeepEqual(want, got) {
								h.mu.Lock()
								h.Fail("bundle/concurrent", s.desc, "answers changed under concurrency")
								h.mu.Unlock()
							}
						}
					}()
				}
				wg.Wait()
			})
		}
	})
}

func sameSet(a, b []string) bool {
	m := map[string]int{}
	for _, s := range a {
		m[s]++
	}
	for _, s := range b {
		m[s]--
	}
	for _, n := range m {
		if n != 0 {
			return false
		}
	}
	return true
}

// immut: the answers stay the same while modify changes every collection the caller has.
func (h *H) immut(key, in string, cat catalog.Catalog, ctxs, ids []string, modify func()) {
	want := answers(cat, ctxs, ids)
	modify()
	h.Checkf(want == answers(cat, ctxs, ids), key+"/answers", in, "answers changed after the caller modified its copies:\n%s\n%s", want, answers(cat, ctxs, ids))
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					h.mu.Lock()
					h.Fail(key+"/concurrent-panic", in, fmt.Sprint(r))
					h.mu.Unlock()
				}
			}()
			if got := answers(cat, ctxs, ids); got != want {
				h.mu.Lock()
				h.Fail(key+"/concurrent", in, "answers changed under concurrency")
				h.mu.Unlock()
			}
		}()
	}
	wg.Wait()
}
