package catalog

import (
	"slices"
	"strings"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak/catalog/cldrplural"
)

// Contracts of the JSON catalog.

// vJsonValid: the data invariant of a JSON catalog built by the constructors.
func vJsonValid(c *jsonCatalog) bool {
	return c != nil && c.pluralSet != nil && c.lookupMap != nil && vForall(func(ctx, key string) bool {
		m, has := c.lookupMap[ctx][key]
		return vImp(has, m != nil && m.Translations != nil)
	})
}

func vJsonKey(ctx, id string) string {
	if ctx != "" {
		return id + "_" + ctx
	}
	return id
}

// vJsonResult: the outcome of looking up category cat of (ctx, id).
func vJsonResult(c *jsonCatalog, ctx, id string, cat cldrplural.Category, tr string, err error) bool {
	key := vJsonKey(ctx, id)
	_, hasCtx := c.lookupMap[ctx]
	if !hasCtx {
		e, ok := err.(*ErrMissingContext)
		return ok && tr == id && *e == ErrMissingContext{Language: c.language, Domain: c.domain, Context: ctx}
	}
	msg, hasMsg := c.lookupMap[ctx][key]
	if !hasMsg {
		e, ok := err.(*ErrMissingMessageID)
		return ok && tr == id && *e == ErrMissingMessageID{Language: c.language, Domain: c.domain, Context: ctx, MsgID: key}
	}
	if msg.Translations[cat] == "" {
		e, ok := err.(*ErrMissingTranslation)
		return ok && tr == id && *e == ErrMissingTranslation{Language: c.language, Domain: c.domain, Context: ctx, MsgID: key, Idx: int(cat)}
	}
	return err == nil && tr == msg.Translations[cat]
}

//verif:prop C06 C16
func vc_JsonLookup(c *jsonCatalog, ctx, id string) {
	vRequires(vJsonValid(c))
	tr, err := c.Lookup(ctx, id)
	vEnsures("the other form or a typed error", vJsonResult(c, ctx, id, cldrplural.Other, tr, err))
	vEnsures("no write to shared state", vUnchanged())
}

//verif:prop C06 C16
//verif:opaque (*@/catalog/cldrplural.RuleSet).Evaluate
func vc_JsonLookupPlural(c *jsonCatalog, ctx, id string, n any) {
	vRequires(vJsonValid(c))
	cat, perr := c.pluralSet.Evaluate(n)
	tr, err := c.LookupPlural(ctx, id, n)
	vEnsures("evaluation error is returned with the id", vImp(perr != nil, err == perr && tr == id))
	vEnsures("the form of the category or a typed error", vImp(perr == nil, vJsonResult(c, ctx, id, cat, tr, err)))
	vEnsures("no write to shared state", vUnchanged())
}

//verif:prop C06
func vc_JsonGetters(c *jsonCatalog) {
	vRequires(c != nil)
	vEnsures("Domain", c.Domain() == c.domain)
	vEnsures("Language", c.Language() == c.language)
}

// vCatNames: the table of the six CLDR categories as the package initialises it.
func vCatNames() bool {
	return vForall(func(k cldrplural.Category) bool {
		_, has := cldrplural.CategoryNames[k]
		return has == (k >= cldrplural.Zero && k <= cldrplural.Other)
	})
}

func vHasCat(cs []cldrplural.Category, k cldrplural.Category) bool {
	return slices.Contains(cs, k)
}

// vOtherOnly: a message without plural.
func vOtherOnly(t map[cldrplural.Category]string) bool {
	_, has := t[cldrplural.Other]
	return has && len(t) == 1
}

//verif:inv @/catalog.applyCategoriesToJSONMessage 1
func vi_Categories(categories []cldrplural.Category, msg *JSONMessage) {
	vInv("visited categories are those of the language, the others as before", vForall(func(k cldrplural.Category) bool {
		_, has := msg.Translations[k]
		had := vPre(func() bool { _, h := msg.Translations[k]; return h })
		if vVisited(cldrplural.CategoryNames, k) {
			return has == vHasCat(categories, k)
		}
		return has == had
	}))
	vInv("existing texts are kept, added texts are empty", vForall(func(k cldrplural.Category) bool {
		t, has := msg.Translations[k]
		had := vPre(func() bool { _, h := msg.Translations[k]; return h })
		same := vPre(func() bool { return msg.Translations[k] == t })
		return vImp(has, vImp(had, same) && vImp(!had, t == ""))
	}))
}

// vNormalised: the categories of a message that held old and now holds now are those of the
// language; existing texts are kept and added ones are empty.
func vNormalised(cs []cldrplural.Category, has, had bool, t, old string, k cldrplural.Category, singular bool) bool {
	if singular {
		return has == had && vImp(has, t == old)
	}
	return has == vHasCat(cs, k) && vImp(has && had, t == old) && vImp(has && !had, t == "")
}

//verif:prop C06
func vc_ApplyCategories(cs []cldrplural.Category, msg *JSONMessage) {
	vRequires(vCatNames() && !vSameMap(msg.Translations, cldrplural.CategoryNames))
	vRequires(msg != nil && msg.Translations != nil && vForall(func(k cldrplural.Category) bool {
		_, has := msg.Translations[k]
		return vImp(has, k >= cldrplural.Zero && k <= cldrplural.Other)
	}) && vForall(func(k cldrplural.Category) bool {
		return vImp(vHasCat(cs, k), k >= cldrplural.Zero && k <= cldrplural.Other)
	}))
	tm := msg.Translations
	applyCategoriesToJSONMessage(cs, msg)
	vEnsures("the message keeps its map, comment and context", vSameMap(msg.Translations, tm) && vOld(func() bool { return true }))
	vEnsures("categories of the language, texts kept", vForall(func(k cldrplural.Category) bool {
		t, has := tm[k]
		had := vOld(func() bool { _, h := tm[k]; return h })
		same := vOld(func() bool { return tm[k] == t })
		singular := vOld(func() bool { return vOtherOnly(tm) })
		if singular {
			return has == had && same
		}
		return has == vHasCat(cs, k) && vImp(has && had, same) && vImp(has && !had, t == "")
	}))
}

// vJsonAccept: the conditions under which a message is accepted under a key.
func vJsonAccept(key string, m *JSONMessage) bool {
	if key == "" || m == nil {
		return false
	}
	if m.Context != "" && !strings.HasSuffix(key, "_"+m.Context) {
		return false
	}
	_, hasOther := m.Translations[cldrplural.Other]
	return hasOther
}

func vCatRange(t map[cldrplural.Category]string) bool {
	return vForall(func(k cldrplural.Category) bool {
		_, has := t[k]
		return vImp(has, k >= cldrplural.Zero && k <= cldrplural.Other)
	})
}

// vJsonStored: what is stored for a source message with the translations src.
func vJsonStored(cs []cldrplural.Category, d, src *JSONMessage) bool {
	singular := vOtherOnly(src.Translations)
	return d != nil && d.Comment == src.Comment && d.Context == src.Context && vFresh(d) && vFresh(d.Translations) &&
		vForall(func(k cldrplural.Category) bool {
			t, has := d.Translations[k]
			o, had := src.Translations[k]
			if singular {
				return has == had && t == o
			}
			return has == vHasCat(cs, k) && vImp(has && had, t == o) && vImp(has && !had, t == "")
		})
}

// vJsonOwn: every context has a map of its own.
func vJsonOwn(c *jsonCatalog) bool {
	return vForall(func(x string) bool {
		m, has := c.lookupMap[x]
		return vImp(has, m != nil)
	}) && vForall(func(x, y string) bool {
		a, has := c.lookupMap[x]
		b, hasB := c.lookupMap[y]
		return vImp(has && hasB && x != y, !vSameMap(a, b))
	})
}

//verif:prop C06 C16
func vc_JsonSetMessage(c *jsonCatalog, key string, m *JSONMessage) {
	vRequires(vCatNames())
	vRequires(vJsonValid(c) && vJsonOwn(c))
	vRequires(m == nil || vCatRange(m.Translations))
	vRequires(vForall(func(k cldrplural.Category) bool {
		return vImp(vHasCat(c.pluralSet.Categories, k), k >= cldrplural.Zero && k <= cldrplural.Other)
	}))
	lm, ps, dom, lang := c.lookupMap, c.pluralSet, c.domain, c.language
	accept := vJsonAccept(key, m)
	err := c.setMessage(key, m)
	vEnsures("rejected exactly when invalid", (err == nil) == accept)
	vEnsures("the catalog's own fields stay", vSameMap(c.lookupMap, lm) && c.pluralSet == ps && c.domain == dom && c.language == lang)
	vEnsures("a rejected message changes nothing", vImp(err != nil, vUnchanged()))
	if accept {
		vEnsures("a deep, normalised copy is stored", vJsonStored(ps.Categories, lm[m.Context][key], m))
		vEnsures("the source message is not written", vForall(func(k cldrplural.Category) bool {
			t, has := m.Translations[k]
			return vOld(func() bool { o, h := m.Translations[k]; return h == has && t == o })
		}))
		vEnsures("every other entry stays", vForall(func(x, k string) bool {
			d, has := lm[x][k]
			same := vOld(func() bool { o, h := lm[x][k]; return h == has && d == o })
			return vImp(x != m.Context || k != key, same)
		}))
		vEnsures("the catalog stays valid", vJsonValid(c) && vJsonOwn(c))
		vEnsures("only the message's context may be new", vForall(func(x string) bool {
			_, has := lm[x]
			had := vOld(func() bool { _, h := lm[x]; return h })
			return has == (had || x == m.Context)
		}))
	}
}

// vJsonShape: stored messages carry the context they are stored under; a key is stored once.
func vJsonShape(c *jsonCatalog) bool {
	return vForall(func(x, key string) bool {
		m, has := c.lookupMap[x][key]
		return vImp(has, m.Context == x)
	}) && vForall(func(x, y, key string) bool {
		_, a := c.lookupMap[x][key]
		_, b := c.lookupMap[y][key]
		return vImp(a && b, x == y)
	})
}

func vJsonCopy(d, s *JSONMessage) bool {
	return d != nil && s != nil && vFresh(d) && d.Comment == s.Comment && d.Context == s.Context &&
		vImp(s.Translations != nil, vFresh(d.Translations)) && vMapDomEq(d.Translations, s.Translations)
}

//verif:inv (@/catalog.jsonCatalog).Messages 1
func vi_JsonMessagesContexts(c jsonCatalog, cpy JSONMessages) {
	vInv("copy is fresh", vFresh(cpy))
	vInv("keys of the contexts so far", vForall(func(key string) bool {
		_, has := cpy[key]
		return vImp(has, vExists(func(x string) bool {
			_, h := c.lookupMap[x][key]
			return h && vVisited(c.lookupMap, x) && vJsonCopy(cpy[key], c.lookupMap[x][key])
		}))
	}))
	vInv("messages of the contexts so far", vForall(func(x, key string) bool {
		_, h := c.lookupMap[x][key]
		_, has := cpy[key]
		return vImp(h && vVisited(c.lookupMap, x), has && vJsonCopy(cpy[key], c.lookupMap[x][key]))
	}))
}

//verif:inv (@/catalog.jsonCatalog).Messages 2
func vi_JsonMessagesOfContext(c jsonCatalog, cpy JSONMessages, ctx string) {
	vInv("copy is fresh", vFresh(cpy))
	vInv("keys so far", vForall(func(key string) bool {
		_, has := cpy[key]
		_, in := c.lookupMap[ctx][key]
		return vImp(has && !(in && vVisited(c.lookupMap[ctx], key)), vExists(func(x string) bool {
			_, h := c.lookupMap[x][key]
			return h && x != ctx && vVisited(c.lookupMap, x) && vJsonCopy(cpy[key], c.lookupMap[x][key])
		}))
	}))
	vInv("messages so far", vForall(func(x, key string) bool {
		_, h := c.lookupMap[x][key]
		_, has := cpy[key]
		return vImp(h && (x != ctx && vVisited(c.lookupMap, x) || x == ctx && vVisited(c.lookupMap[ctx], key)), has && vJsonCopy(cpy[key], c.lookupMap[x][key]))
	}))
}

//verif:prop C06 C16
func vc_JsonMessages(c *jsonCatalog) {
	vRequires(vJsonValid(c) && vJsonShape(c))
	ms := c.Messages()
	vEnsures("new map", vFresh(ms))
	vEnsures("only stored messages", vForall(func(key string) bool {
		_, has := ms[key]
		return vImp(has, vExists(func(x string) bool {
			_, h := c.lookupMap[x][key]
			return h && vJsonCopy(ms[key], c.lookupMap[x][key])
		}))
	}))
	vEnsures("a copy of every stored message", vForall(func(x, key string) bool {
		_, h := c.lookupMap[x][key]
		_, has := ms[key]
		return vImp(h, has && vJsonCopy(ms[key], c.lookupMap[x][key]))
	}))
	vEnsures("no write to shared state", vUnchanged())
}

//verif:prop C06 C16
func vc_JsonClone(m *JSONMessage) {
	vRequires(m != nil)
	vEnsures("Clone is a copy", vJsonCopy(m.Clone(), m))
	vEnsures("no write to shared state", vUnchanged())
}

//verif:inv @/catalog.NewJSONCatalogWithMessages 1
func vi_NewJson(messages JSONMessages, cat *jsonCatalog) {
	vInv("the catalog is new", vFresh(cat) && vFresh(cat.lookupMap))
	vInv("nothing else is written", vUnchanged())
	vInv("valid", vJsonValid(cat) && vJsonOwn(cat) && vForall(func(x string) bool {
		m, has := cat.lookupMap[x]
		return vImp(has, vFresh(m))
	}))
	vInv("messages so far were acceptable", vForall(func(key string) bool {
		return vImp(vVisited(messages, key), vJsonAccept(key, messages[key]))
	}))
	vInv("exactly the messages so far are stored", vForall(func(x, key string) bool {
		d, has := cat.lookupMap[x][key]
		in := vVisited(messages, key) && messages[key].Context == x
		return has == in && vImp(in, vJsonStored(cat.pluralSet.Categories, d, messages[key]))
	}))
}

//verif:prop C06 C16
//verif:opaque @/catalog/cldrplural.ForLanguage
func vc_NewJsonWithMessages(lang language.Tag, domain string, messages JSONMessages) {
	ps, _ := cldrplural.ForLanguage(lang)
	vRequires(ps != nil && vCatNames())
	vRequires(vForall(func(k cldrplural.Category) bool {
		return vImp(vHasCat(ps.Categories, k), k >= cldrplural.Zero && k <= cldrplural.Other)
	}))
	vRequires(vForall(func(key string) bool {
		m, has := messages[key]
		return vImp(has && m != nil, vCatRange(m.Translations))
	}))
	jc, err := NewJSONCatalogWithMessages(lang, domain, messages)
	vEnsures("some message is unacceptable when rejected", vImp(err != nil, jc == nil && vExists(func(key string) bool {
		m, has := messages[key]
		return has && !vJsonAccept(key, m)
	})))
	if err == nil {
		c, ok := jc.(*jsonCatalog)
		vEnsures("a new catalog of the language and domain", ok && vFresh(c) && c.language == lang && c.domain == domain && c.pluralSet == ps)
		if ok {
			vEnsures("every message is acceptable and stored as a normalised deep copy under its context", vForall(func(key string) bool {
				m, has := messages[key]
				return vImp(has, vJsonAccept(key, m) && vJsonStored(ps.Categories, c.lookupMap[m.Context][key], m))
			}))
			vEnsures("nothing else is stored", vForall(func(x, key string) bool {
				_, has := c.lookupMap[x][key]
				_, in := messages[key]
				return vImp(has, in && messages[key].Context == x)
			}))
			vEnsures("valid catalog", vJsonValid(c) && vJsonOwn(c) && vJsonShape(c))
		}
	}
	vEnsures("no write to shared state", vUnchanged())
}

//verif:prop C06 C16
//verif:opaque @/catalog/cldrplural.ForLanguage
func vc_NewJson(lang language.Tag, domain string) {
	ps, _ := cldrplural.ForLanguage(lang)
	vRequires(ps != nil)
	jc := NewJSONCatalog(lang, domain)
	c, ok := jc.(*jsonCatalog)
	vEnsures("a new empty catalog of the language and domain", ok && vFresh(c) && c.language == lang && c.domain == domain && c.pluralSet == ps && len(c.lookupMap) == 0 && vFresh(c.lookupMap))
	vEnsures("no write to shared state", vUnchanged())
}

//verif:prop C06
//verif:opaque @/catalog/cldrplural.ForLanguage
func vc_ApplyForLanguage(lang language.Tag, msg *JSONMessage) {
	ps, _ := cldrplural.ForLanguage(lang)
	vRequires(ps != nil && vCatNames())
	vRequires(vForall(func(k cldrplural.Category) bool {
		return vImp(vHasCat(ps.Categories, k), k >= cldrplural.Zero && k <= cldrplural.Other)
	}))
	vRequires(msg == nil || vCatRange(msg.Translations) && !vSameMap(msg.Translations, cldrplural.CategoryNames))
	if msg == nil || msg.Translations == nil {
		ApplyPluralCategoriesToJSONMessage(lang, msg)
		vEnsures("nothing to normalise", vUnchanged())
		return
	}
	tm := msg.Translations
	ApplyPluralCategoriesToJSONMessage(lang, msg)
	vEnsures("the message keeps its map", vSameMap(msg.Translations, tm))
	vEnsures("categories of the language, texts kept", vForall(func(k cldrplural.Category) bool {
		t, has := tm[k]
		had := vOld(func() bool { _, h := tm[k]; return h })
		same := vOld(func() bool { return tm[k] == t })
		singular := vOld(func() bool { return vOtherOnly(tm) })
		if singular {
			return has == had && same
		}
		return has == vHasCat(ps.Categories, k) && vImp(has && had, same) && vImp(has && !had, t == "")
	}))
}
