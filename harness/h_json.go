package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/catalog/cldrplural"
)

// ---- JSON catalogs against an independent model

type jMsg struct {
	comment, ctx string
	tr           map[cldrplural.Category]string // nil: no translations
	null         bool
}

const (
	cZero = cldrplural.Zero
	cOne  = cldrplural.One
	cTwo  = cldrplural.Two
	cFew  = cldrplural.Few
	cMany = cldrplural.Many
	cOth  = cldrplural.Other
)

type jLang struct {
	tag  language.Tag
	cats []cldrplural.Category
	f    func(n int) cldrplural.Category
	// decimals with the category CLDR prescribes
	dec map[string]cldrplural.Category
}

var jLangs = []jLang{
	{language.English, []cldrplural.Category{cOne, cOth}, func(n int) cldrplural.Category {
		if n == 1 {
			return cOne
		}
		return cOth
	}, map[string]cldrplural.Category{"1.0": cOth, "0.5": cOth, "1": cOne}},
	{language.MustParse("de-AT"), []cldrplural.Category{cOne, cOth}, func(n int) cldrplural.Category {
		if n == 1 {
			return cOne
		}
		return cOth
	}, map[string]cldrplural.Category{"1.0": cOth, "1": cOne}},
	{language.French, []cldrplural.Category{cOne, cMany, cOth}, func(n int) cldrplural.Category {
		switch {
		case n == 0 || n == 1:
			return cOne
		case n%1000000 == 0:
			return cMany
		}
		return cOth
	}, map[string]cldrplural.Category{"1.5": cOne, "2.0": cOth, "0.9": cOne}},
	{language.Polish, []cldrplural.Category{cOne, cFew, cMany, cOth}, func(n int) cldrplural.Category {
		switch {
		case n == 1:
			return cOne
		case n%10 >= 2 && n%10 <= 4 && (n%100 < 12 || n%100 > 14):
			return cFew
		}
		return cMany
	}, map[string]cldrplural.Category{"1.5": cOth, "1.0": cOth, "3": cFew}},
	{language.Arabic, []cldrplural.Category{cZero, cOne, cTwo, cFew, cMany, cOth}, func(n int) cldrplural.Category {
		switch {
		case n <= 2:
			return []cldrplural.Category{cZero, cOne, cTwo}[n]
		case n%100 >= 3 && n%100 <= 10:
			return cFew
		case n%100 >= 11:
			return cMany
		}
		return cOth
	}, map[string]cldrplural.Category{"0.1": cOth, "2.0": cTwo, "103.0": cFew}},
	{language.Japanese, []cldrplural.Category{cOth}, func(n int) cldrplural.Category { return cOth }, map[string]cldrplural.Category{"1.0": cOth}},
	{language.MustParse("cy"), []cldrplural.Category{cZero, cOne, cTwo, cFew, cMany, cOth}, func(n int) cldrplural.Category {
		switch n {
		case 0:
			return cZero
		case 1:
			return cOne
		case 2:
			return cTwo
		case 3:
			return cFew
		case 6:
			return cMany
		}
		return cOth
	}, map[string]cldrplural.Category{"3.0": cFew, "3.1": cOth}},
}

var jCatNames = []string{"zero", "one", "two", "few", "many", "other"}

func jNormal(l jLang, tr map[cldrplural.Category]string) map[cldrplural.Category]string {
	out := map[cldrplural.Category]string{}
	if len(tr) == 1 {
		if t, ok := tr[cOth]; ok {
			out[cOth] = t
			return out
		}
	}
	for _, c := range l.cats {
		out[c] = tr[c]
	}
	return out
}

func jAccept(key string, m jMsg) bool {
	if key == "" || m.null {
		return false
	}
	if m.ctx != "" && !strings.HasSuffix(key, "_"+m.ctx) {
		return false
	}
	_, ok := m.tr[cOth]
	return ok
}

var jKeys = []string{"app.name", "a", "a_b", "files", "_", "x_menu", "_menu", "héllo", "quo\"te", "menu", "a_b_menu", "b"}
var jCtxs = []string{"", "", "", "menu", "b", "b_menu", "_"}
var jTexts = []string{"", "text", "%d files", "<b>&amp;</b>", "quo\"te\\", "日本\n", "\u2028", "other"}

func (h *H) jRandom(bad bool) map[string]jMsg {
	ms := map[string]jMsg{}
	n := h.rnd.Intn(7)
	for i := 0; i < n; i++ {
		m := jMsg{ctx: pick(h, jCtxs)}
		key := pick(h, jKeys)
		if m.ctx != "" && !(bad && h.rnd.Intn(6) == 0) {
			key += "_" + m.ctx
		}
		if bad && h.rnd.Intn(12) == 0 {
			key = ""
		}
		if h.rnd.Intn(3) == 0 {
			m.comment = pick(h, jTexts)
		}
		m.tr = map[cldrplural.Category]string{}
		if h.rnd.Intn(3) > 0 {
			for c := cZero; c <= cMany; c++ {
				if h.rnd.Intn(2) == 0 {
					m.tr[c] = fmt.Sprint(pick(h, jTexts), int(c))
					if h.rnd.Intn(6) == 0 {
						m.tr[c] = ""
					}
				}
			}
		}
		if !(bad && h.rnd.Intn(8) == 0) {
			m.tr[cOth] = pick(h, jTexts) + "o"
			if h.rnd.Intn(8) == 0 {
				m.tr[cOth] = ""
			}
		}
		if bad && h.rnd.Intn(12) == 0 {
			m.null = true
		}
		ms[key] = m
	}
	return ms
}

func jReal(m map[string]jMsg) catalog.JSONMessages {
	out := catalog.JSONMessages{}
	for k, m := range m {
		if m.null {
			out[k] = nil
			continue
		}
		x := &catalog.JSONMessage{Comment: m.comment, Context: m.ctx}
		if len(m.tr) > 0 {
			x.Translations = map[cldrplural.Category]string{}
			for c, t := range m.tr {
				x.Translations[c] = t
			}
		}
		out[k] = x
	}
	return out
}

func jDescr(m map[string]jMsg) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%q: %+v; ", k, m[k])
	}
	return b.String()
}

func jText(m map[string]jMsg) string {
	var parts []string
	for k, x := range m {
		kb, _ := json.Marshal(k)
		if x.null {
			parts = append(parts, string(kb)+": null")
			continue
		}
		if _, o := x.tr[cOth]; o && len(x.tr) == 1 && x.ctx == "" && x.comment == "" {
			tb, _ := json.Marshal(x.tr[cOth])
			parts = append(parts, string(kb)+": "+string(tb))
			continue
		}
		obj := map[string]string{}
		if x.ctx != "" {
			obj["context"] = x.ctx
		}
		if x.comment != "" {
			obj["comment"] = x.comment
		}
		for c, t := range x.tr {
			name := jCatNames[c]
			if len(k)%2 == 0 {
				name = strings.ToUpper(name[:1]) + name[1:]
			}
			obj[name] = t
		}
		ob, _ := json.Marshal(obj)
		parts = append(parts, string(kb)+": "+string(ob))
	}
	sort.Strings(parts)
	return "{" + strings.Join(parts, ", ") + "}"
}

func (h *H) jCheck(key, in string, cat catalog.Catalog, l jLang, dom string, ms map[string]jMsg) {
	ctxs := map[string]bool{}
	for _, m := range ms {
		ctxs[m.ctx] = true
	}
	expect := func(ctx, id string, c cldrplural.Category) (string, error) {
		k := id
		if ctx != "" {
			k += "_" + ctx
		}
		if !ctxs[ctx] {
			return id, &catalog.ErrMissingContext{Language: l.tag, Domain: dom, Context: ctx}
		}
		m, ok := ms[k]
		if !ok || m.ctx != ctx {
			return id, &catalog.ErrMissingMessageID{Language: l.tag, Domain: dom, Context: ctx, MsgID: k}
		}
		if t := jNormal(l, m.tr)[c]; t != "" {
			return t, nil
		}
		return id, &catalog.ErrMissingTranslation{Language: l.tag, Domain: dom, Context: ctx, MsgID: k, Idx: int(c)}
	}
	var ids []string
	ids = append(ids, jKeys[:8]...)
	for k, m := range ms {
		ids = append(ids, k)
		if m.ctx != "" {
			ids = append(ids, strings.TrimSuffix(k, "_"+m.ctx))
		}
	}
	for _, id := range ids {
		for _, ctx := range []string{"", "menu", "b", "b_menu", "_", "nosuch"} {
			q := fmt.Sprintf("%s: lookup(%q,%q)", in, ctx, id)
			got, err := cat.Lookup(ctx, id)
			want, werr := expect(ctx, id, cOth)
			h.Checkf(got == want && sameErr(err, werr), key+"/lookup", q, "got %q, %v; want %q, %v", got, err, want, werr)
			for _, n := range []int{0, 1, 2, 3, 5, 6, 11, 12, 22, 100, 1000000} {
				got, err := cat.LookupPlural(ctx, id, n)
				want, werr := expect(ctx, id, l.f(n))
				h.Checkf(got == want && sameErr(err, werr), key+"/plural", fmt.Sprint(q, n), "got %q, %v; want %q, %v", got, err, want, werr)
			}
			for n, c := range l.dec {
				got, err := cat.LookupPlural(ctx, id, n)
				want, werr := expect(ctx, id, c)
				h.Checkf(got == want && sameErr(err, werr), key+"/plural", fmt.Sprint(q, n), "got %q, %v; want %q, %v", got, err, want, werr)
			}
			got, err = cat.LookupPlural(ctx, id, "no number")
			h.Checkf(got == id && err != nil, key+"/nonumber", q, "got %q, %v", got, err)
		}
	}
	h.Checkf(cat.Language() == l.tag, key+"/language", in, "language %v", cat.Language())
	jc := cat.(catalog.JSONCatalog)
	h.Checkf(jc.Domain() == dom, key+"/domain", in, "domain %q", jc.Domain())
	h.jSame(key+"/messages", in, jc.Messages(), l, ms)
}

func (h *H) jSame(key, in string, got catalog.JSONMessages, l jLang, ms map[string]jMsg) {
	h.Checkf(len(got) == len(ms), key, in, "%d messages, want %d", len(got), len(ms))
	for k, m := range ms {
		g := got[k]
		if g == nil {
			h.Fail(key, in, "message "+k+" is missing")
			continue
		}
		h.Checkf(g.Comment == m.comment && g.Context == m.ctx && reflect.DeepEqual(g.Translations, jNormal(l, m.tr)), key, in, "message %q: got %+v; want %+v", k, *g, m)
	}
}

func init() {
	register("C06", "random JSON message maps (valid and invalid, with and without context, any subset of categories) for 7 languages: construction, every lookup with integer and decimal counts, Messages, encode and decode compared with an independent model; non-trivial: distinct message map", func(h *H) {
		for i := 0; i < h.n(500) && !h.expired(); i++ {
			l := pick(h, jLangs)
			dom := pick(h, []string{"", "d", "errors"})
			ms := h.jRandom(i%3 == 0)
			in := fmt.Sprint(l.tag, " ", dom, " ", jDescr(ms))
			h.Case("json", in, func() {
				ok := true
				for k, m := range ms {
					ok = ok && jAccept(k, m)
				}
				src := jReal(ms)
				cat, err := catalog.NewJSONCatalogWithMessages(l.tag, dom, src)
				if !h.Checkf((err == nil) == ok, "json/accept", in, "error %v, want accepted=%v", err, ok) {
					return
				}
				if err != nil {
					h.Checkf(cat == nil, "json/accept", in, "catalog with error")
				} else {
					h.Checkf(reflect.DeepEqual(src, jReal(ms)), "json/source", in, "the messages handed in were changed")
					h.jCheck("json", in, cat, l, dom, ms)
				}
				text := jText(ms)
				dec, derr := catalog.NewJSONDecoder().Decode(l.tag, dom, []byte(text))
				if !h.Checkf((derr == nil) == (ok && len(ms) > 0), "json/decode-accept", in+" "+text, "error %v", derr) {
					return
				}
				if derr != nil {
					return
				}
				h.jCheck("json/decoded", text, dec, l, dom, ms)
				var b1, b2 bytes.Buffer
				e1 := catalog.NewJSONEncoder(&b1).Encode(cat)
				e2 := catalog.NewJSONEncoder(&b2).Encode(dec.(catalog.JSONCatalog))
				h.Checkf(e1 == nil && e2 == nil && b1.String() == b2.String(), "json/encode", in, "%v %v\n%s\n%s", e1, e2, b1.String(), b2.String())
				again, aerr := catalog.NewJSONDecoder().Decode(l.tag, dom, b1.Bytes())
				if h.Checkf(aerr == nil, "json/roundtrip", in, "%v: %s", aerr, b1.String()) {
					h.jSame("json/roundtrip", in, again.(catalog.JSONCatalog).Messages(), l, ms)
				}
				raw, rerr := json.Marshal(src) // the messages without a catalog
				back := catalog.JSONMessages{}
				if h.Checkf(rerr == nil && json.Unmarshal(raw, &back) == nil, "json/messages-roundtrip", in, "%v %s", rerr, raw) {
					h.Checkf(reflect.DeepEqual(back, jReal(ms)), "json/messages-roundtrip", in, "%s", raw)
				}
				for k, m := range jReal(ms) {
					catalog.ApplyPluralCategoriesToJSONMessage(l.tag, m)
					h.Checkf(reflect.DeepEqual(m.Translations, jNormal(l, ms[k].tr)), "json/apply", in, "message %q: %v", k, m.Translations)
				}
			})
		}
		for _, text := range []string{"", "null", "{}", "[]", "1", `""`, `{"a": 1}`, `{"a": null}`, `{"a": []}`, `{"a": {"one": "x"}}`, `{"": "x"}`, `{"a": {"context": "b", "other": "x"}}`} {
			h.Case("json/malformed", text, func() {
				cat, err := catalog.NewJSONDecoder().Decode(language.English, "d", []byte(text))
				h.Checkf(err != nil && cat == nil, "json/malformed", text, "catalog %v, error %v", cat, err)
			})
		}
		h.Case("json/unknown-language", "xx", func() {
			cat := catalog.NewJSONCatalog(language.MustParse("tlh"), "d")
			h.Checkf(len(cat.Messages()) == 0 && cat.Domain() == "d" && cat.Language() == language.MustParse("tlh"), "json/empty", "tlh", "%v", cat)
		})
	})
}
