PO = '''
package catalog_test

import (
	"testing"
	"errors"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak/catalog"
)

var _ = errors.New

func decode(t *testing.T, s string) catalog.Catalog {
	c, err := catalog.NewPoDecoder().Decode(language.German, "d", []byte(s))
	if err != nil {
		t.Fatal(err)
	}
	return c
}

const head = "msgid \\"\\"\\nmsgstr \\"\\"\\n\\"Plural-Forms: nplurals=2; plural=(n != 1);\\\\n\\"\\n\\n"
'''
RT = '''
package spreak_test

import (
	"errors"
	"sync"
	"testing"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak"
	"github.com/vorlif/spreak/catalog"
	"github.com/vorlif/spreak/localize"
)

var _ = errors.New
var _ sync.Mutex
var _ localize.Singular

type ld map[string]string

func (l ld) Load(lang language.Tag, domain string) (catalog.Catalog, error) {
	s, ok := l[lang.String()+"/"+domain]
	if !ok {
		return nil, spreak.NewErrNotFound(lang, "mem", "x")
	}
	return catalog.NewPoDecoder().Decode(lang, domain, []byte(s))
}

func bundle(t *testing.T, l ld, opts ...spreak.BundleOption) *spreak.Bundle {
	b, err := spreak.NewBundle(append([]spreak.BundleOption{spreak.WithDomainLoader("a", l), spreak.WithDomainLoader("", l), spreak.WithDefaultDomain("a"), spreak.WithSourceLanguage(language.English)}, opts...)...)
	if err != nil {
		t.Fatal(err)
	}
	return b
}

const head = "msgid \\"\\"\\nmsgstr \\"\\"\\n\\"Plural-Forms: nplurals=2; plural=(n != 1);\\\\n\\"\\n\\n"
'''
S = [
 dict(id="c05-fuzzy-plural", prop="C05", pkg="catalog",
  edits=[("catalog/po_decoder.go", 'poMsg.Comment.HasFlag("fuzzy") {', 'poMsg.IDPlural == "" && poMsg.Comment.HasFlag("fuzzy") {')],
  needs="a fuzzy message that has a plural", breaks="a fuzzy plural message is answered instead of reported as missing",
  demo=PO + '''
func TestZZDemo(t *testing.T) {
	c := decode(t, head+"#, fuzzy\\nmsgid \\"a\\"\\nmsgid_plural \\"b\\"\\nmsgstr[0] \\"x\\"\\nmsgstr[1] \\"y\\"\\n")
	if s, err := c.LookupPlural("", "a", 1); err == nil || s != "a" {
		t.Fatal(s, err)
	}
}
'''),
 dict(id="c05-empty-form-falls-to-first", prop="C05", pkg="catalog",
  edits=[("catalog/po.go", 'hasTranslation || tr == "" {', 'hasTranslation || (tr == "" && idx < 2) {')],
  needs="an empty translation of the third or a later plural form", breaks="an untranslated plural form is answered with the empty text instead of the id and an error",
  demo=PO + '''
func TestZZDemo(t *testing.T) {
	c, err := catalog.NewPoDecoder().Decode(language.Polish, "d", []byte("msgid \\"\\"\\nmsgstr \\"\\"\\n\\"Plural-Forms: nplurals=3; plural=(n==1 ? 0 : n==2 ? 1 : 2);\\\\n\\"\\n\\nmsgid \\"a\\"\\nmsgid_plural \\"b\\"\\nmsgstr[0] \\"x\\"\\nmsgstr[1] \\"y\\"\\nmsgstr[2] \\"\\"\\n"))
	if err != nil {
		t.Fatal(err)
	}
	if s, err := c.LookupPlural("", "a", 5); err == nil || s != "a" {
		t.Fatal(s, err)
	}
}
'''),
 dict(id="c05-context-shared", prop="C05", pkg="catalog",
  edits=[("catalog/po_decoder.go", '''			if msgID == "" {
				continue
			}
''', '''			if msgID == "" || (ctx == "" && len(file.Messages) > 2 && poMsg.IDPlural != "" && len(file.Messages[ctx]) == 1) {
				continue
			}
''')],
  needs="a file with at least three contexts whose default context holds one plural message only", breaks="that message is dropped from the catalog",
  demo=PO + '''
func TestZZDemo(t *testing.T) {
	c := decode(t, "msgctxt \\"x\\"\\nmsgid \\"a\\"\\nmsgstr \\"1\\"\\n\\nmsgctxt \\"y\\"\\nmsgid \\"a\\"\\nmsgstr \\"2\\"\\n\\nmsgid \\"a\\"\\nmsgid_plural \\"b\\"\\nmsgstr[0] \\"3\\"\\nmsgstr[1] \\"4\\"\\n")
	if s, err := c.LookupPlural("", "a", 1); err != nil || s != "3" {
		t.Fatal(s, err)
	}
}
'''),
 dict(id="c05-cldr-header-overrides-parse", prop="C05", pkg="catalog",
  edits=[("catalog/po_decoder.go", 'strings.EqualFold(val, "true")', 'strings.EqualFold(val, "true") || (val != "" && lang == language.Und)')],
  needs="a decoded file of an undetermined language whose header says X-spreak-use-CLDR: false", breaks="the file's own plural rule is ignored although it asks not to use CLDR",
  demo=PO + '''
func TestZZDemo(t *testing.T) {
	c, err := catalog.NewPoDecoder().Decode(language.Und, "d", []byte("msgid \\"\\"\\nmsgstr \\"\\"\\n\\"Plural-Forms: nplurals=2; plural=(n == 7);\\\\n\\"\\n\\"X-spreak-use-CLDR: false\\\\n\\"\\n\\nmsgid \\"a\\"\\nmsgid_plural \\"b\\"\\nmsgstr[0] \\"x\\"\\nmsgstr[1] \\"y\\"\\n"))
	if err != nil {
		t.Fatal(err)
	}
	if s, err := c.LookupPlural("", "a", 3); err != nil || s != "x" {
		t.Fatal(s, err)
	}
}
'''),
 dict(id="c07-fallback-by-base", prop="C07", pkg=".",
  edits=[("localizer.go", '''	if l.locale.language != l.bundle.fallbackLocale.language {''', '''	if lb, _ := l.locale.language.Base(); lb.String() != l.bundle.fallbackLocale.language.String() {''')],
  needs="a localizer for a regional variant of the fallback language, and a message that only the fallback has", breaks="the fallback language is not consulted and the source text is returned",
  demo=RT + '''
func TestZZDemo(t *testing.T) {
	b := bundle(t, ld{"de/a": head + "msgid \\"m\\"\\nmsgstr \\"fb\\"\\n", "de-AT/a": head + "msgid \\"o\\"\\nmsgstr \\"x\\"\\n", "de/": head, "de-AT/": head},
		spreak.WithFallbackLanguage(language.German), spreak.WithLanguage(language.MustParse("de-AT")))
	if s := spreak.NewLocalizer(b, "de-AT").Get("m"); s != "fb" {
		t.Fatal(s)
	}
}
'''),
 dict(id="c07-plural-count-lost", prop="C07", pkg=".",
  edits=[("locale.go", '''	if idx == 0 || plural == "" {''', '''	if idx == 0 || plural == "" || (len(vars) == 0 && idx > 1) {''')],
  needs="a source language with more than two plural forms and no variables", breaks="the source text uses the singular where the source language's rule selects a plural form",
  demo=RT + '''
func TestZZDemo(t *testing.T) {
	b, err := spreak.NewBundle(spreak.WithSourceLanguage(language.Polish))
	if err != nil {
		t.Fatal(err)
	}
	if s := spreak.NewLocalizer(b, "pl").NGet("one", "many", 5); s != "many" {
		t.Fatal(s)
	}
}
'''),
 dict(id="c07-error-dropped-on-fallback", prop="C07", pkg=".",
  edits=[("localizer.go", '''	t, err = l.bundle.fallbackLocale.lookupPluralTranslation(domain, ctx, singular, plural, n, vars...)
	if err == nil {
''', '''	t, err = l.bundle.fallbackLocale.lookupPluralTranslation(domain, ctx, singular, plural, n, vars...)
	if err == nil {
		if l.localeFound && len(vars) > 1 {
			return t, nil
		}
''')],
  needs="a plural message with two variables that is missing in the matched language and present in the fallback", breaks="the error that reports the missing translation is dropped",
  demo=RT + '''
func TestZZDemo(t *testing.T) {
	b := bundle(t, ld{"de/a": head + "msgctxt \\"c\\"\\nmsgid \\"m\\"\\nmsgid_plural \\"p\\"\\nmsgstr[0] \\"e\\"\\nmsgstr[1] \\"v\\"\\n", "fr/a": head + "msgid \\"o\\"\\nmsgstr \\"x\\"\\n", "de/": head, "fr/": head},
		spreak.WithFallbackLanguage(language.German), spreak.WithLanguage(language.French))
	s, err := spreak.NewLocalizer(b, "fr").LocalizeWithError(&localize.Message{Singular: "m", Plural: "p", Context: "c", Count: 3, Vars: []any{1, 2}})
	if err == nil {
		t.Fatal(s, err)
	}
}
'''),
 dict(id="c08-dnpgetf-vars", prop="C08", pkg=".",
  edits=[("localizer.go", '''func (k *KeyLocalizer) DNPGetf(''', '''func (k *KeyLocalizer) dnp(domain, context, key string, n any, vars []any) string {
	if len(vars) == 0 {
		vars = []any{n}
	}
	t, _ := k.lookupPluralTranslation(domain, context, key, key, n, vars...)
	return t
}

func (k *KeyLocalizer) DNPGetf('''), None],
  needs="", breaks="", demo=""),
 dict(id="c09-empty-domain", prop="C09", pkg=".",
  edits=[("localizer.go", '''	if t.HasDomain() {''', '''	if t.HasDomain() && t.GetDomain() != NoDomain {''')],
  needs="a Localizable that declares the empty domain while the default domain is another", breaks="the message is looked up in the default domain instead of the declared one",
  demo=RT + '''
type dm struct{ localize.Message }

func (*dm) HasDomain() bool   { return true }
func (*dm) GetDomain() string { return "" }

func TestZZDemo(t *testing.T) {
	b := bundle(t, ld{"de/a": head + "msgid \\"m\\"\\nmsgstr \\"inA\\"\\n", "de/": head + "msgid \\"m\\"\\nmsgstr \\"inEmpty\\"\\n"}, spreak.WithLanguage("de"))
	if s := spreak.NewLocalizer(b, "de").Localize(&dm{localize.Message{Singular: "m"}}); s != "inEmpty" {
		t.Fatal(s)
	}
}
'''),
 dict(id="c16-translations-alias", prop="C16", pkg="catalog",
  edits=[("catalog/po.go", '''func (m GettextMessage) Translations() map[int]string { return maps.Clone(m.translations) }''', '''func (m GettextMessage) Translations() map[int]string {
	if len(m.translations) == 1 {
		return m.translations
	}
	return maps.Clone(m.translations)
}'''),
         ("catalog/po.go", '''	return &GettextMessage{translations: maps.Clone(m.translations)}''', '''	c := &GettextMessage{translations: m.translations}
	if len(m.translations) > 1 {
		c.translations = maps.Clone(m.translations)
	}
	return c''')],
  needs="a caller that modifies the translations of a returned message", breaks="the catalog answers with the modified text",
  demo=PO + '''
func TestZZDemo(t *testing.T) {
	c := decode(t, head+"msgid \\"a\\"\\nmsgstr \\"x\\"\\n").(*catalog.GettextCatalog)
	c.Messages()[""]["a"].Translations()[0] = "changed"
	if s, _ := c.Lookup("", "a"); s != "x" {
		t.Fatal(s)
	}
}
'''),
 dict(id="c16-bundle-domains", prop="C16", pkg=".",
  edits=[("bundle.go", '''return slices.Clone(b.domains) }''', '''return b.domains[:len(b.domains):len(b.domains)] }''')],
  needs="a caller that modifies the returned slice", breaks="the bundle's own list of domains is changed",
  demo=RT + '''
func TestZZDemo(t *testing.T) {
	b := bundle(t, ld{"de/a": head, "de/": head}, spreak.WithLanguage("de"))
	d := b.Domains()
	d[0] = "changed"
	for _, x := range b.Domains() {
		if x == "changed" {
			t.Fatal(b.Domains())
		}
	}
}
'''),
 dict(id="c16-lookup-cache", prop="C16", pkg=".", race=True,
  edits=[("locale.go", '''	translation, errT := cat.LookupPlural(ctx, singular, n)
''', '''	translation, errT := cat.LookupPlural(ctx, singular, n)
	if errT != nil && plural == "" {
		l.domainCatalogs[domain] = cat
	}
''')],
  needs="concurrent plural lookups of a missing message without a plural text", breaks="the lookup writes to the shared catalog table (a data race)",
  demo=RT + '''
func TestZZDemo(t *testing.T) {
	b := bundle(t, ld{"de/a": head, "de/": head}, spreak.WithLanguage("de"))
	l := spreak.NewLocalizer(b, "de")
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 2000; j++ {
				l.NGet("m", "", 3)
			}
		}()
	}
	wg.Wait()
}
'''),
]
S = [s for s in S if None not in s["edits"]]
