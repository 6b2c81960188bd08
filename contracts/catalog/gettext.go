package catalog

import (
	"strings"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak/catalog/cldrplural"
	"github.com/vorlif/spreak/catalog/po"
	"github.com/vorlif/spreak/catalog/poplural"
)

// Contracts of the gettext (po/mo) catalog: an exact hit is returned unchanged, everything
// else returns the message ID together with the typed error that names what is missing.

// vGtxValid: the data invariant of a catalog built by the decoders (no nil messages).
func vGtxValid(c *GettextCatalog) bool {
	return c != nil && vForall(func(ctx, id string) bool {
		_, has := c.lookupMap[ctx][id]
		return vImp(has, c.lookupMap[ctx][id] != nil)
	})
}

// vGtxResult states the outcome of looking up form idx of (ctx, id).
func vGtxResult(c *GettextCatalog, ctx, id string, idx int, tr string, err error) bool {
	_, hasCtx := c.lookupMap[ctx]
	if !hasCtx {
		e, ok := err.(*ErrMissingContext)
		return ok && tr == id && *e == ErrMissingContext{Language: c.language, Domain: c.domain, Context: ctx}
	}
	msg, hasMsg := c.lookupMap[ctx][id]
	if !hasMsg {
		e, ok := err.(*ErrMissingMessageID)
		return ok && tr == id && *e == ErrMissingMessageID{Language: c.language, Domain: c.domain, Context: ctx, MsgID: id}
	}
	if msg.translations[idx] == "" {
		e, ok := err.(*ErrMissingTranslation)
		return ok && tr == id && *e == ErrMissingTranslation{Language: c.language, Domain: c.domain, Context: ctx, MsgID: id, Idx: idx}
	}
	return err == nil && tr == msg.translations[idx]
}

//verif:prop C05 C16
func vc_GettextLookup(c *GettextCatalog, ctx, id string) {
	vRequires(vGtxValid(c))
	tr, err := c.Lookup(ctx, id)
	vEnsures("exact form 0 or typed error", vGtxResult(c, ctx, id, 0, tr, err))
	vEnsures("no write to shared state", vUnchanged())
}

//verif:prop C05 C16
func vc_GettextLookupPlural(c *GettextCatalog, ctx, id string, n any) {
	vRequires(vGtxValid(c))
	vRequires(c.pluralFunc != nil)
	idx, perr := c.pluralFunc(n)
	tr, err := c.LookupPlural(ctx, id, n)
	vEnsures("plural error is returned with the id", vImp(perr != nil, err == perr && tr == id))
	vEnsures("selected form or typed error", vImp(perr == nil, vGtxResult(c, ctx, id, idx, tr, err)))
	vEnsures("no write to shared state", vUnchanged())
}

// ---------------------------------------------------------------- deep copies

// vMsgCopy: d is an independent copy of s.
func vMsgCopy(d, s *GettextMessage) bool {
	return d != nil && s != nil && vFresh(d) && vImp(s.translations != nil, vFresh(d.translations)) && vMapDomEq(d.translations, s.translations)
}

//verif:inv (*@/catalog.GettextCatalog).Messages 1
func vi_MessagesContexts(c *GettextCatalog, cpy PoLookupMap) {
	vInv("copy is fresh", vFresh(cpy))
	vInv("contexts so far", vForall(func(x string) bool {
		_, has := cpy[x]
		return has == vVisited(c.lookupMap, x)
	}))
	vInv("inner maps are fresh", vForall(func(x string) bool {
		return vImp(vVisited(c.lookupMap, x), vFresh(cpy[x]))
	}))
	vInv("inner maps are distinct", vForall(func(x, y string) bool {
		return vImp(x != y && vVisited(c.lookupMap, x) && vVisited(c.lookupMap, y), !vSameMap(cpy[x], cpy[y]))
	}))
	vInv("same messages", vForall(func(x, id string) bool {
		_, a := cpy[x][id]
		_, b := c.lookupMap[x][id]
		return vImp(vVisited(c.lookupMap, x), a == b)
	}))
	vInv("messages are copies", vForall(func(x, id string) bool {
		_, a := c.lookupMap[x][id]
		return vImp(vVisited(c.lookupMap, x) && a, vMsgCopy(cpy[x][id], c.lookupMap[x][id]))
	}))
}

//verif:inv (*@/catalog.GettextCatalog).Messages 2
func vi_MessagesOfContext(c *GettextCatalog, cpy PoLookupMap, ctx string) {
	vInv("copy is fresh", vFresh(cpy[ctx]))
	vInv("messages so far", vForall(func(id string) bool {
		_, a := cpy[ctx][id]
		return a == vVisited(c.lookupMap[ctx], id)
	}))
	vInv("copies so far", vForall(func(id string) bool {
		return vImp(vVisited(c.lookupMap[ctx], id), vMsgCopy(cpy[ctx][id], c.lookupMap[ctx][id]))
	}))
}

//verif:prop C16
func vc_GettextMessages(c *GettextCatalog) {
	vRequires(vGtxValid(c))
	ms := c.Messages()
	vEnsures("new map", vFresh(ms))
	vEnsures("same contexts", vForall(func(x string) bool {
		_, a := ms[x]
		_, b := c.lookupMap[x]
		return a == b
	}))
	vEnsures("new inner maps", vForall(func(x string) bool {
		_, a := ms[x]
		return vImp(a, vFresh(ms[x]))
	}))
	vEnsures("same messages", vForall(func(x, id string) bool {
		_, a := ms[x][id]
		_, b := c.lookupMap[x][id]
		return a == b
	}))
	vEnsures("independent copies of every message", vForall(func(x, id string) bool {
		_, a := c.lookupMap[x][id]
		return vImp(a, vMsgCopy(ms[x][id], c.lookupMap[x][id]))
	}))
	vEnsures("no write to shared state", vUnchanged())
}

//verif:prop C16
func vc_GettextTranslations(m *GettextMessage) {
	vRequires(m != nil)
	t := m.Translations()
	vEnsures("Translations is a copy", vImp(m.translations != nil, vFresh(t)) && vMapDomEq(t, m.translations))
	d := m.Clone()
	vEnsures("Clone is a copy", vMsgCopy(d, m))
	vEnsures("no write to shared state", vUnchanged())
}

// ---------------------------------------------------------------- from a decoded file

// vFileOK: every message of the file is stored under its own context and id.
func vFileOK(f *po.File) bool {
	return f != nil && vForall(func(ctx, id string) bool {
		m, has := f.Messages[ctx][id]
		return vImp(has, m != nil && m.Context == ctx && m.ID == id)
	})
}

// vAnswered: the message may be answered from the catalog.
func vAnswered(f *po.File, ctx, id string) bool {
	m, has := f.Messages[ctx][id]
	return has && id != "" && !(m.Comment != nil && m.Comment.HasFlag("fuzzy"))
}

//verif:inv @/catalog.buildGettextCatalog 1
func vi_BuildContexts(file *po.File, lookupMap PoLookupMap) {
	vInv("new map", vFresh(lookupMap))
	vInv("contexts so far", vForall(func(x string) bool {
		_, has := lookupMap[x]
		return has == (vVisited(file.Messages, x) && len(file.Messages[x]) > 0)
	}))
	vInv("inner maps are new", vForall(func(x string) bool {
		_, has := lookupMap[x]
		return vImp(has, vFresh(lookupMap[x]))
	}))
	vInv("inner maps are distinct", vForall(func(x, y string) bool {
		_, hx := lookupMap[x]
		_, hy := lookupMap[y]
		return vImp(x != y && hx && hy, !vSameMap(lookupMap[x], lookupMap[y]))
	}))
	vInv("messages so far", vForall(func(x, id string) bool {
		m, has := lookupMap[x][id]
		return has == (vVisited(file.Messages, x) && vAnswered(file, x, id)) && vImp(has, m != nil && vFresh(m))
	}))
	vInv("translations so far", vForall(func(x, id string) bool {
		m, has := lookupMap[x][id]
		return vImp(has, vSameMap(m.translations, file.Messages[x][id].Str))
	}))
	vInv("the file is not written", vUnchanged())
}

//verif:inv @/catalog.buildGettextCatalog 2
func vi_BuildMessages(file *po.File, lookupMap PoLookupMap, ctx string) {
	vInv("the map of the context is kept", vFresh(lookupMap[ctx]))
	vInv("other contexts are kept", vForall(func(x, id string) bool {
		m, has := lookupMap[x][id]
		return x == ctx || (has == vEntry(func() bool { _, h := lookupMap[x][id]; return h }) &&
			vImp(has, m == vEntry(func() *GettextMessage { return lookupMap[x][id] }) && vSameMap(m.translations, vEntry(func() map[int]string { return lookupMap[x][id].translations }))))
	}))
	vInv("messages of the context so far", vForall(func(id string) bool {
		m, has := lookupMap[ctx][id]
		return has == (vVisited(file.Messages[ctx], id) && vAnswered(file, ctx, id)) && vImp(has, m != nil && vFresh(m))
	}))
	vInv("translations of the context so far", vForall(func(id string) bool {
		m, has := lookupMap[ctx][id]
		return vImp(has, vSameMap(m.translations, file.Messages[ctx][id].Str))
	}))
	vInv("the file is not written", vUnchanged())
}

//verif:prop C05
//verif:opaque @/catalog.getCLDRPluralFunction @/catalog/poplural.Parse (*@/catalog/po.Header).Get (*@/catalog/poplural.Rule).Evaluate
func vc_BuildGettext(file *po.File, lang language.Tag, domain string, useCLDR bool, n any) {
	vRequires(vFileOK(file) && getCLDRPluralFunction(lang) != nil)
	cat, err := buildGettextCatalog(file, lang, domain, useCLDR)
	own := !useCLDR && file.Header != nil && file.Header.PluralForms != ""
	if own && strings.EqualFold(file.Header.Get("X-spreak-use-CLDR"), "true") {
		own = false
	}
	if own {
		rule, rerr := poplural.Parse(file.Header.PluralForms)
		vEnsures("an invalid plural rule is an error", (err != nil) == (rerr != nil) && vImp(err != nil, cat == nil))
		if rerr != nil {
			return
		}
		c, ok := cat.(*GettextCatalog)
		vEnsures("the decoded catalog is a gettext catalog", ok && c.pluralFunc != nil)
		a, ea := c.pluralFunc(n)
		b, eb := rule.Evaluate(n)
		vEnsures("the rule of the file selects the form", a == b && ea == eb)
	} else {
		vEnsures("a catalog is returned", err == nil)
		c, ok := cat.(*GettextCatalog)
		vEnsures("the decoded catalog is a gettext catalog", ok)
		a, ea := c.pluralFunc(n)
		b, eb := getCLDRPluralFunction(lang)(n)
		vEnsures("the CLDR rule of the language selects the form", a == b && ea == eb)
	}
	c := cat.(*GettextCatalog)
	vEnsures("language and domain are kept", c.language == lang && c.domain == domain)
	vEnsures("exactly the contexts of the file", vForall(func(x string) bool {
		_, has := c.lookupMap[x]
		_, in := file.Messages[x]
		return has == (in && len(file.Messages[x]) > 0)
	}))
	vEnsures("exactly the messages of the file that are neither fuzzy nor the header", vForall(func(x, id string) bool {
		m, has := c.lookupMap[x][id]
		return has == vAnswered(file, x, id) && vImp(has, m != nil && vMapDomEq(m.translations, file.Messages[x][id].Str))
	}))
	vEnsures("the file is not written", vUnchanged())
}

//verif:inv @/catalog.getCLDRPluralFunction 1
func vi_CatToForm(catToForm map[cldrplural.Category]int, ruleSet *cldrplural.RuleSet, done_ int) {
	vInv("new map", vFresh(catToForm))
	vInv("positions so far", vForall(func(i int) bool {
		p, has := catToForm[ruleSet.Categories[i]]
		return vImp(0 <= i && i < done_, has && i <= p && p < done_ && ruleSet.Categories[p] == ruleSet.Categories[i])
	}))
	vInv("only categories so far", vForall(func(c cldrplural.Category) bool {
		p, has := catToForm[c]
		return vImp(has, 0 <= p && p < done_ && ruleSet.Categories[p] == c)
	}))
	vInv("nothing else is written", vUnchanged())
}

//verif:prop C05
//verif:opaque @/catalog/cldrplural.ForLanguage (*@/catalog/cldrplural.RuleSet).Evaluate
func vc_CLDRForm(lang language.Tag, n int) {
	rs, _ := cldrplural.ForLanguage(lang)
	vRequires(rs != nil && vForall(func(i, j int) bool {
		return vImp(0 <= i && i < j && j < len(rs.Categories), rs.Categories[i] != rs.Categories[j])
	}))
	form, err := getCLDRPluralFunction(lang)(n)
	cat, cerr := rs.Evaluate(n)
	vEnsures("fails exactly with the rule", err == cerr)
	vEnsures("the position of the category is the form", vImp(err == nil, vForall(func(i int) bool {
		return vImp(0 <= i && i < len(rs.Categories) && rs.Categories[i] == cat, form == i)
	})))
	vEnsures("form 0 otherwise", vImp(err != nil || !vExists(func(i int) bool { return 0 <= i && i < len(rs.Categories) && rs.Categories[i] == cat }), form == 0))
}
