def rootdemo(imports, body, extra=""):
    return '''
package spreak_test

import (
	"testing"

%s
)
%s
func TestZZDemo(t *testing.T) {
%s
}
''' % ("\n".join('\t"%s"' % i for i in imports), extra, body)
SP = "github.com/vorlif/spreak"
LANG = "golang.org/x/text/language"
CATI = "github.com/vorlif/spreak/catalog"
ECHO = '''
type zzCat struct{ lang language.Tag; dom string }

func (c *zzCat) Lookup(ctx, id string) (string, error)                { return c.lang.String() + "/" + c.dom, nil }
func (c *zzCat) LookupPlural(ctx, id string, n any) (string, error) { return c.Lookup(ctx, id) }
func (c *zzCat) Language() language.Tag                               { return c.lang }

type zzLoader struct{ has map[string]bool; wrap bool }

func (l *zzLoader) Load(lang language.Tag, domain string) (catalog.Catalog, error) {
	if l.has[lang.String()+"/"+domain] {
		return &zzCat{lang, domain}, nil
	}
	var err error = spreak.NewErrNotFound(lang, "zz", "%s", domain)
	if l.wrap {
		err = fmt.Errorf("zz: %w", err)
	}
	return nil, err
}
'''
FS = '''
type zzDec string

func (d zzDec) Decode(lang language.Tag, domain string, data []byte) (catalog.Catalog, error) {
	return zzCat{lang, string(d) + ":" + string(data)}, nil
}

type zzCat struct{ lang language.Tag; text string }

func (c zzCat) Lookup(ctx, id string) (string, error)                { return c.text, nil }
func (c zzCat) LookupPlural(ctx, id string, n any) (string, error) { return c.text, nil }
func (c zzCat) Language() language.Tag                               { return c.lang }
'''
S = [
 dict(id="c10-permission-missing", prop="C10", pkg=".",
  edits=[("loader.go", "			if errors.Is(err, os.ErrNotExist) {\n				continue\n			}\n			return nil, err", "			if errors.Is(err, os.ErrNotExist) || errors.Is(err, os.ErrPermission) {\n				continue\n			}\n			return nil, err")],
  demo=rootdemo(["io/fs", "testing/fstest", LANG, SP, CATI], '''
	l, err := spreak.NewFilesystemLoader(spreak.WithFs(zzFS{fstest.MapFS{"de.txt": {Data: []byte("x")}}}), spreak.WithDecoder(".txt", zzDec("d")))
	if err != nil {
		t.Fatal(err)
	}
	_, err = l.Load(language.German, "app")
	if _, isMissing := err.(*spreak.ErrNotFound); isMissing || err == nil {
		t.Fatal("unreadable file reported as", err)
	}''', FS + '''
type zzFS struct{ fstest.MapFS }

func (f zzFS) Open(name string) (fs.File, error) {
	if name == "de.txt" {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrPermission}
	}
	return f.MapFS.Open(name)
}
'''), needs="a file that exists and may not be opened", breaks="a failure to open a file is reported as a missing catalog"),
 dict(id="c10-lc-messages-category", prop="C10", pkg=".",
  edits=[("loader.go", '	if r.category != "LC_MESSAGES" {', '	if r.category == "" {')],
  demo=rootdemo(["testing/fstest", LANG, SP], '''
	r, _ := spreak.NewDefaultResolver(spreak.WithCategory("menus"))
	p, err := r.Resolve(fstest.MapFS{"LC_MESSAGES/de.po": {}}, ".po", language.German, "app")
	if err != nil || p != "LC_MESSAGES/de.po" {
		t.Fatal(p, err)
	}'''), needs="a resolver with a category other than LC_MESSAGES and a file only in LC_MESSAGES", breaks="a documented location is not searched"),
 dict(id="c10-duplicate-extension", prop="C10", pkg=".",
  edits=[("loader.go", "	l.extensions = append(l.extensions, ext)\n	l.decoder = append(l.decoder, decoder)", "	known := false\n	for _, e := range l.extensions {\n		known = known || e == ext\n	}\n	if !known {\n		l.extensions = append(l.extensions, ext)\n	}\n	l.decoder = append(l.decoder, decoder)")],
  demo=rootdemo(["testing/fstest", LANG, SP, CATI], '''
	l, err := spreak.NewFilesystemLoader(spreak.WithFs(fstest.MapFS{"de.b": {Data: []byte("x")}}),
		spreak.WithDecoder(".a", zzDec("one")), spreak.WithDecoder(".a", zzDec("two")), spreak.WithDecoder(".b", zzDec("three")))
	if err != nil {
		t.Fatal(err)
	}
	c, err := l.Load(language.German, "app")
	if err != nil {
		t.Fatal(err)
	}
	if s, _ := c.Lookup("", ""); s != "three:x" {
		t.Fatal(s)
	}''', FS), needs="an extension registered twice, then another one", breaks="a file is decoded with the decoder of another extension"),
 dict(id="c10-script-region-swapped", prop="C10", pkg=".",
  edits=[("utils.go", "		return cmp.Compare(a, b)\n	})", "		return cmp.Compare(b, a)\n	})")],
  demo=rootdemo(["testing/fstest", LANG, SP], '''
	r, _ := spreak.NewDefaultResolver()
	p, err := r.Resolve(fstest.MapFS{"de-AT.po": {}, "de_AT.po": {}}, ".po", language.MustParse("de-AT"), "app")
	if err != nil || p != "de-AT.po" {
		t.Fatal(p, err)
	}'''), needs="files of both spellings of the same language", breaks="names of the same length are tried in the wrong order"),
 dict(id="c11-required-partial", prop="C11", pkg=".",
  edits=[("bundle.go", "				if optional {\n					continue\n				}\n			}\n			return errD", "				if optional || len(catalogs) > 0 {\n					continue\n				}\n			}\n			return errD")],
  demo=rootdemo(["fmt", LANG, SP, CATI], '''
	l := &zzLoader{has: map[string]bool{"de/a": true, "de/c": true}}
	for i := 0; i < 60; i++ {
		_, err := spreak.NewBundle(spreak.WithDomainLoader("a", l), spreak.WithDomainLoader("b", l), spreak.WithDomainLoader("c", l), spreak.WithRequiredLanguage(language.German))
		if err == nil {
			t.Fatal("required language without the catalog of a domain accepted")
		}
	}''', ECHO), needs="several domains, a required language missing in one that is loaded after another", breaks="a required language with a missing catalog is accepted, depending on map order"),
 dict(id="c11-domains-by-count", prop="C11", pkg=".",
  edits=[("bundle.go", "		if !slices.Contains(b.domains, domain) {", "		if len(b.domains) < len(catalogs) && !slices.Contains(b.domains, domain) {")],
  demo=rootdemo(["fmt", LANG, SP, CATI], '''
	l := &zzLoader{has: map[string]bool{"de/a": true, "fr/b": true}}
	b, err := spreak.NewBundle(spreak.WithDomainLoader("a", l), spreak.WithDomainLoader("b", l), spreak.WithLanguage(language.German, language.French))
	if err != nil || len(b.Domains()) != 2 {
		t.Fatal(err, b.Domains())
	}''', ECHO), needs="two languages with disjoint domains", breaks="a loaded domain is not reported"),
 dict(id="c11-wrapped-missing", prop="C11", pkg=".",
  edits=[("bundle.go", "			var notFoundErr *ErrNotFound\n			if errors.As(errD, &notFoundErr) {", "			if notFoundErr, isNotFound := errD.(*ErrNotFound); isNotFound {")],
  demo=rootdemo(["fmt", LANG, SP, CATI], '''
	l := &zzLoader{has: map[string]bool{"de/a": true}, wrap: true}
	b, err := spreak.NewBundle(spreak.WithDomainLoader("a", l), spreak.WithLanguage(language.French, language.German))
	if err != nil || len(b.SupportedLanguages()) != 1 {
		t.Fatal(err)
	}''', ECHO), needs="a loader that wraps its not-found error", breaks="an optional language without catalog fails the construction"),
 dict(id="c11-optional-stops-list", prop="C11", pkg=".",
  edits=[("bundle.go", "				b.missingCallback(missErr)\n			}\n\n			continue", "				b.missingCallback(missErr)\n				continue\n			}\n\n			return nil")],
  demo=rootdemo(["fmt", LANG, SP, CATI], '''
	l := &zzLoader{has: map[string]bool{"de/a": true}}
	b, err := spreak.NewBundle(spreak.WithDomainLoader("a", l), spreak.WithLanguage(language.French, language.German))
	if err != nil || len(b.SupportedLanguages()) != 1 {
		t.Fatal(err)
	}''', ECHO), needs="a missing optional language before others in one list, without a callback", breaks="the languages after a missing one are not loaded"),
 dict(id="c11-source-fallback-order", prop="C11", pkg=".",
  edits=[("bundle.go", "	if _, isCached := b.locales[lang]; isCached {\n		return nil\n	}\n", "	if _, isCached := b.locales[lang]; isCached && optional {\n		return nil\n	}\n")],
  demo=rootdemo(["fmt", LANG, SP, CATI], '''
	l := &zzLoader{has: map[string]bool{"de/a": true}}
	b, err := spreak.NewBundle(spreak.WithDomainLoader("a", l), spreak.WithDomainLoader("b", l), spreak.WithLanguage(language.German), spreak.WithFallbackLanguage(language.German))
	if err != nil || b == nil {
		t.Fatal(err)
	}''', ECHO), needs="a language loaded optionally, with a domain missing, and configured as fallback afterwards", breaks="a language that is loaded already is loaded again and fails"),
]
