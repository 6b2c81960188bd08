package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak/catalog"
)

// ---- gettext catalogs: PO and MO files written from a model, looked up against the model

type gMsg struct {
	ctx, id, plural string
	str             []string
	fuzzy, hasCtx   bool
}

type gForms struct {
	header string
	n      int
	f      func(n int) int
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

var gFormsTab = []gForms{
	{"nplurals=2; plural=(n != 1);", 2, func(n int) int { return b2i(n != 1) }},
	{"nplurals=2; plural=(n > 1);", 2, func(n int) int { return b2i(n > 1) }},
	{"nplurals=1; plural=0;", 1, func(n int) int { return 0 }},
	{"nplurals=3; plural=(n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2);", 3, func(n int) int {
		if n%10 == 1 && n%100 != 11 {
			return 0
		}
		if n%10 >= 2 && n%10 <= 4 && (n%100 < 10 || n%100 >= 20) {
			return 1
		}
		return 2
	}},
	{"nplurals=3; plural=n==7 ? 2 : n>=3 ? 1 : 0;", 3, func(n int) int {
		if n == 7 {
			return 2
		}
		return b2i(n >= 3)
	}},
	{"nplurals=4; plural=(n<=3 ? n : 3);", 4, func(n int) int {
		if n <= 3 {
			return n
		}
		return 3
	}},
}

func poQuote(s string) string {
	return `"` + strings.NewReplacer("\\", `\\`, "\"", `\"`, "\n", `\n`, "\t", `\t`).Replace(s) + `"`
}

func writePO(header string, msgs []gMsg) string {
	var b strings.Builder
	if header != "" {
		fmt.Fprintf(&b, "msgid \"\"\nmsgstr \"\"\n%s\n\n", header)
	}
	for _, m := range msgs {
		if m.fuzzy {
			b.WriteString("#, fuzzy\n")
		}
		if m.hasCtx {
			fmt.Fprintf(&b, "msgctxt %s\n", poQuote(m.ctx))
		}
		fmt.Fprintf(&b, "msgid %s\n", poQuote(m.id))
		if m.plural != "" {
			fmt.Fprintf(&b, "msgid_plural %s\n", poQuote(m.plural))
			for i, s := range m.str {
				fmt.Fprintf(&b, "msgstr[%d] %s\n", i, poQuote(s))
			}
		} else {
			fmt.Fprintf(&b, "msgstr %s\n", poQuote(m.str[0]))
		}
		b.WriteString("\n")
	}
	return b.String()
}

func writeMO(order binary.ByteOrder, header string, msgs []gMsg) []byte {
	type ent struct{ k, v string }
	var es []ent
	if header != "" {
		es = append(es, ent{"", header})
	}
	for _, m := range msgs {
		k := m.id
		if m.hasCtx {
			k = m.ctx + "\x04" + k
		}
		if m.plural != "" {
			k += "\x00" + m.plural
		}
		es = append(es, ent{k, strings.Join(m.str, "\x00")})
	}
	sort.Slice(es, func(i, j int) bool { return es[i].k < es[j].k })
	n := len(es)
	const hdr = 28
	var ids, strs, data bytes.Buffer
	base := hdr + 16*n
	for _, e := range es {
		binary.Write(&ids, order, uint32(len(e.k)))
		binary.Write(&ids, order, uint32(base+data.Len()))
		data.WriteString(e.k + "\x00")
	}
	for _, e := range es {
		binary.Write(&strs, order, uint32(len(e.v)))
		binary.Write(&strs, order, uint32(base+data.Len()))
		data.WriteString(e.v + "\x00")
	}
	var out bytes.Buffer
	for _, v := range []uint32{0x950412de, 0, uint32(n), hdr, uint32(hdr + 8*n), 0, uint32(base)} {
		binary.Write(&out, order, v)
	}
	out.Write(ids.Bytes())
	out.Write(strs.Bytes())
	out.Write(data.Bytes())
	return out.Bytes()
}

var gWords = []string{"a", "b", "file", "%d files", "Open the door", "x\ny", "tab\there", "quo\"te", "back\\slash", "héllo", "日本", "menu", "ctx", "fuzzy", "nplurals=2"}

func (h *H) word() string {
	if len(h.strs) > 0 && h.rnd.Intn(8) == 0 {
		s := pick(h, h.strs)
		if s != "" && !strings.ContainsAny(s, "\x00\x04\r") && strings.ToValidUTF8(s, "") == s && isPrintable(s) {
			return s
		}
	}
	return pick(h, gWords)
}

func isPrintable(s string) bool {
	for _, r := range s {
		if r < 32 || r == 127 || r == 0xfffd || r > 0xffff {
			return false
		}
	}
	return true
}

// gCatalog makes a random model catalog.
func (h *H) gCatalog(nforms int, fuzzyOK bool) []gMsg {
	var ms []gMsg
	seen := map[[2]string]bool{}
	for i := 1 + h.rnd.Intn(7); i > 0; i-- {
		m := gMsg{id: h.word(), hasCtx: h.rnd.Intn(2) == 0}
		if m.hasCtx {
			m.ctx = h.word()
		}
		k := [2]string{m.ctx, m.id}
		if seen[k] {
			continue
		}
		seen[k] = true
		m.fuzzy = fuzzyOK && h.rnd.Intn(6) == 0
		cnt := 1
		if h.rnd.Intn(2) == 0 {
			m.plural = "many " + m.id
			cnt = nforms
			if h.rnd.Intn(5) == 0 {
				cnt = 1 + h.rnd.Intn(nforms)
			}
		}
		for j := 0; j < cnt; j++ {
			s := fmt.Sprintf("T%d-%s-%s", j, m.ctx, m.id)
			if h.rnd.Intn(6) == 0 {
				s = ""
			}
			m.str = append(m.str, s)
		}
		ms = append(ms, m)
	}
	return ms
}

func gModel(msgs []gMsg) map[string]map[string]gMsg {
	r := map[string]map[string]gMsg{}
	for _, m := range msgs {
		if r[m.ctx] == nil {
			r[m.ctx] = map[string]gMsg{}
		}
		if m.fuzzy || m.id == "" {
			continue
		}
		r[m.ctx][m.id] = m
	}
	return r
}

// gExpect is the required outcome: the text, or the kind of the typed error.
func gExpect(model map[string]map[string]gMsg, lang language.Tag, dom, ctx, id string, idx int) (string, error) {
	c, ok := model[ctx]
	if !ok {
		return id, &catalog.ErrMissingContext{Language: lang, Domain: dom, Context: ctx}
	}
	m, ok := c[id]
	if !ok {
		return id, &catalog.ErrMissingMessageID{Language: lang, Domain: dom, Context: ctx, MsgID: id}
	}
	if idx >= len(m.str) || m.str[idx] == "" {
		return id, &catalog.ErrMissingTranslation{Language: lang, Domain: dom, Context: ctx, MsgID: id, Idx: idx}
	}
	return m.str[idx], nil
}

func sameErr(a, b error) bool { return reflect.DeepEqual(a, b) }

func (h *H) gCheckCatalog(key, in string, cat catalog.Catalog, lang language.Tag, dom string, msgs []gMsg, f func(n int) int) {
	model := gModel(msgs)
	h.Checkf(cat.Language() == lang, key+"/language", in, "Language()=%v", cat.Language())
	if g, ok := cat.(*catalog.GettextCatalog); ok {
		h.Checkf(g.Domain() == dom, key+"/domain", in, "Domain()=%q want %q", g.Domain(), dom)
		// Messages lists exactly the usable messages
		got := map[string]string{}
		for c, mm := range g.Messages() {
			for id, m := range mm {
				got[c+"\x04"+id] = fmt.Sprint(m.Translations())
			}
		}
		want := map[string]string{}
		for c, mm := range model {
			for id, m := range mm {
				t := map[int]string{}
				for i, s := range m.str {
					t[i] = s
				}
				want[c+"\x04"+id] = fmt.Sprint(t)
			}
		}
		h.Checkf(reflect.DeepEqual(got, want), key+"/messages", in, "Messages()=%q want %q", got, want)
	}
	ctxs := []string{"", "nosuch"}
	ids := []string{"", "nosuch"}
	for _, m := range msgs {
		ctxs = append(ctxs, m.ctx)
		ids = append(ids, m.id)
	}
	ns := []int{0, 1, 2, 3, 5, 7, 11, 21, 101, 1000000}
	for _, c := range ctxs {
		for _, id := range ids {
			got, err := cat.Lookup(c, id)
			want, werr := gExpect(model, lang, dom, c, id, 0)
			if len(model[c]) == 0 && werr != nil {
				// a context without usable messages may or may not exist
				var e1 *catalog.ErrMissingContext
				var e2 *catalog.ErrMissingMessageID
				h.Checkf(got == want && (errors.As(err, &e1) || errors.As(err, &e2)), key+"/lookup", in, "Lookup(%q,%q)=%q,%v want %q,%v", c, id, got, err, want, werr)
				continue
			}
			h.Checkf(got == want && sameErr(err, werr), key+"/lookup", in, "Lookup(%q,%q)=%q,%v want %q,%v", c, id, got, err, want, werr)
			for _, n := range ns {
				got, err := cat.LookupPlural(c, id, n)
				want, werr := gExpect(model, lang, dom, c, id, f(n))
				h.Checkf(got == want && sameErr(err, werr), key+"/plural", in, "LookupPlural(%q,%q,%d)=%q,%v want %q,%v", c, id, n, got, err, want, werr)
			}
		}
	}
	for _, bad := range []any{nil, "abc", struct{}{}} {
		got, err := cat.LookupPlural("", "a", bad)
		_ = got
		_ = err // the outcome for non-numbers belongs to C04; it must not panic
	}
}

var gLangs = []language.Tag{language.German, language.French, language.Polish, language.Japanese, language.English, language.Und}

func cldrForm(lang language.Tag) func(n int) int {
	switch lang {
	case language.Japanese:
		return func(n int) int { return 0 }
	case language.German, language.English, language.Und: // no rule: English
		return func(n int) int { return b2i(n != 1) }
	case language.French:
		return func(n int) int { // one, many, other
			switch {
			case n == 0 || n == 1:
				return 0
			case n != 0 && n%1000000 == 0:
				return 1
			}
			return 2
		}
	}
	return func(n int) int { // Polish: one few many other
		switch {
		case n == 1:
			return 0
		case n%10 >= 2 && n%10 <= 4 && !(n%100 >= 12 && n%100 <= 14):
			return 1
		}
		return 2
	}
}

func init() {
	register("C05", "random gettext catalogs (contexts, plurals, fuzzy, empty translations) written as PO and as MO in both byte orders, decoded with the PO/MO and CLDR decoders; every (context, id) pair, present or absent, looked up in singular and for ten counts and compared with the model; non-trivial: distinct file", func(h *H) {
		for i := 0; i < h.n(3000) && !h.expired(); i++ {
			lang := pick(h, gLangs)
			dom := pick(h, []string{"", "dom", "other"})
			fm := pick(h, gFormsTab)
			f := fm.f
			header := ""
			useCLDR := h.rnd.Intn(4) == 0
			kind := h.rnd.Intn(4)
			hl := []string{"Language: xx"}
			nf := fm.n
			switch kind {
			case 0: // no plural header: CLDR
				f, nf = cldrForm(lang), 4
			case 1: // header asks for CLDR
				hl = append(hl, "Plural-Forms: "+fm.header, "X-spreak-use-CLDR: "+pick(h, []string{"true", "True", "TRUE"}))
				f, nf = cldrForm(lang), 4
			case 2:
				hl = append(hl, "Plural-Forms: "+fm.header, "X-spreak-use-CLDR: "+pick(h, []string{"false", "no"}))
			default:
				hl = append(hl, "Plural-Forms: "+fm.header)
			}
			if useCLDR {
				f, nf = cldrForm(lang), 4
			}
			msgs := h.gCatalog(nf, true)
			var sb strings.Builder
			for _, l := range hl {
				sb.WriteString(poQuote(l+"\n") + "\n")
			}
			header = strings.TrimSuffix(sb.String(), "\n")
			if kind == 0 && h.rnd.Intn(2) == 0 {
				header = ""
			}
			text := writePO(header, msgs)
			in := fmt.Sprintf("lang=%v domain=%q cldr=%v\n%s", lang, dom, useCLDR, text)
			h.Case("po", in, func() {
				dec := catalog.NewPoDecoder()
				if useCLDR {
					dec = catalog.NewPoCLDRDecoder()
				}
				cat, err := dec.Decode(lang, dom, []byte(text))
				if !h.Checkf(err == nil, "po/decode", in, "decode failed: %v", err) {
					return
				}
				h.gCheckCatalog("po", in, cat, lang, dom, msgs, f)
			})
			// the same catalog as MO; fuzzy messages are not compiled
			var plain []gMsg
			for _, m := range msgs {
				if !m.fuzzy {
					plain = append(plain, m)
				}
			}
			moHeader := ""
			if header != "" {
				moHeader = strings.Join(hl, "\n") + "\n"
			}
			var order binary.ByteOrder = binary.LittleEndian
			if h.rnd.Intn(2) == 0 {
				order = binary.BigEndian
			}
			data := writeMO(order, moHeader, plain)
			in2 := fmt.Sprintf("mo %v of %s", order, in)
			h.Case("mo", in2, func() {
				dec := catalog.NewMoDecoder()
				if useCLDR {
					dec = catalog.NewMoCLDRDecoder()
				}
				cat, err := dec.Decode(lang, dom, data)
				if !h.Checkf(err == nil, "mo/decode", in2, "decode failed: %v", err) {
					return
				}
				h.gCheckCatalog("mo", in2, cat, lang, dom, plain, f)
			})
			// an invalid rule is an error, never a silently wrong catalog
			bad := writePO(poQuote("Plural-Forms: "+pick(h, []string{"garbage", "nplurals=2", "nplurals=2; plural=n+;", "plural=n;"})+"\n"), msgs)
			h.Case("bad-rule", bad, func() {
				cat, err := catalog.NewPoDecoder().Decode(lang, dom, []byte(bad))
				h.Checkf(err != nil && cat == nil, "po/bad-rule", bad, "cat=%v err=%v", cat, err)
			})
		}
	})
}
