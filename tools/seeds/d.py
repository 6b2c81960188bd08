exec(open(__file__.replace("d.py", "c.py") if "__file__" in globals() else "/verif/tools/seeds/c.py").read())
S = []
MO = '''
// zzMo builds an mo file with its tables at the given offset and the texts directly behind
// one another; each text is followed by sep.
func zzMo(bo binary.ByteOrder, major uint16, tables int, sep string, entries ...[2]string) []byte {
	n := len(entries)
	pos := tables + 16*n
	var texts []byte
	tab := make([]uint32, 4*n)
	for i, e := range entries {
		for k := 0; k < 2; k++ {
			tab[2*(k*n+i)], tab[2*(k*n+i)+1] = uint32(len(e[k])), uint32(pos+len(texts))
			texts = append(append(texts, e[k]...), sep...)
		}
	}
	var b bytes.Buffer
	_ = binary.Write(&b, bo, uint32(0x950412de))
	_ = binary.Write(&b, bo, []uint16{major, 0})
	_ = binary.Write(&b, bo, []uint32{uint32(n), uint32(tables), uint32(tables + 8*n), 0, uint32(tables)})
	b.Write(make([]byte, tables-b.Len()))
	_ = binary.Write(&b, bo, tab)
	b.Write(texts)
	return b.Bytes()
}
'''
def modemo(body):
    return '''
package mo

import (
	"bytes"
	"encoding/binary"
	"testing"
)
%s
func TestZZDemo(t *testing.T) {
%s
}
''' % (MO, body)
P = "internal/mo/parser.go"
S += [
 dict(id="c14-context-last", prop="C14", pkg="internal/mo",
  edits=[(P, "strings.Index(msg.ID, eotSeparator)", "strings.LastIndex(msg.ID, eotSeparator)")],
  demo=modemo('''
	f, err := ParseBytes(zzMo(binary.LittleEndian, 0, 28, "\\x00", [2]string{"ctx\\x04a\\x04b", "t"}))
	if err != nil || f.Messages["ctx"]["a\\x04b"] == nil {
		t.Fatal(err, f)
	}'''), needs="a message whose id contains the context separator after its context", breaks="the message is stored under another context and id"),
 dict(id="c14-empty-form", prop="C14", pkg="internal/mo",
  edits=[(P, "				msg.Str[i] = translation\n", "				if translation != \"\" || i == 0 {\n					msg.Str[i] = translation\n				}\n")],
  demo=modemo('''
	f, err := ParseBytes(zzMo(binary.BigEndian, 0, 28, "\\x00", [2]string{"a\\x00b", "x\\x00\\x00z"}))
	if err != nil {
		t.Fatal(err)
	}
	if _, has := f.Messages[""]["a"].Str[1]; !has || len(f.Messages[""]["a"].Str) != 3 {
		t.Fatal(f.Messages[""]["a"].Str)
	}'''), needs="a plural message with an empty form between others", breaks="a plural form of the file is missing in the message"),
 dict(id="c14-table-offset", prop="C14", pkg="internal/mo",
  edits=[(P, "p.r.Seek(int64(p.msgStrOffset), io.SeekStart)", "p.r.Seek(int64(uint16(p.msgStrOffset)), io.SeekStart)")],
  demo=modemo('''
	f, err := ParseBytes(zzMo(binary.LittleEndian, 1, 70000, "\\x00", [2]string{"a", "x"}, [2]string{"b", "y"}))
	if err != nil || f.Messages[""]["b"] == nil || f.Messages[""]["b"].Str[0] != "y" {
		t.Fatal(err, f)
	}'''), needs="a file whose table of translations begins beyond 64 KiB", breaks="the translations are read from another place of the file"),
 dict(id="c14-trailing-nul", prop="C14", pkg="internal/mo",
  edits=[(P, "	id = string(tmp)\n", "	id = string(bytes.TrimRight(tmp, nulSeparator))\n")],
  demo=modemo('''
	f, err := ParseBytes(zzMo(binary.LittleEndian, 0, 28, "\\x00", [2]string{"a\\x00", "x\\x00y"}))
	if err != nil || f.Messages[""]["a"] == nil || f.Messages[""]["a"].Str[1] != "y" {
		t.Fatal(err, f.Messages[""]["a"])
	}'''), needs="a plural message whose plural id is empty", breaks="the plural translations become one text"),
 dict(id="c14-major-signed", prop="C14", pkg="internal/mo",
  edits=[(P, "if v := header.MajorVersion; v != 0 && v != 1 {", "if v := int16(header.MajorVersion); v > 1 {")],
  demo=modemo('''
	if _, err := ParseBytes(zzMo(binary.BigEndian, 0x8001, 28, "\\x00", [2]string{"a", "x"})); err == nil {
		t.Fatal("wrong version accepted")
	}'''), needs="a major version of 0x8000 or more", breaks="a file with a wrong version is accepted"),
 dict(id="c14-skipped-seek", prop="C14", pkg="internal/mo",
  edits=[(P, "	if _, err = p.r.Seek(int64(data.translationOffset), 0); err != nil {\n		return\n	}\n\n	tmp = make([]byte, data.translationLength)\n",
             "	if data.translationOffset != data.idOffset+data.idLength+1 {\n		if _, err = p.r.Seek(int64(data.translationOffset), 0); err != nil {\n			return\n		}\n	} else if _, err = p.r.Seek(1, io.SeekCurrent); err != nil {\n		return\n	}\n\n	if tmp = tmp[:0]; data.translationLength > uint32(cap(tmp)) {\n		tmp = make([]byte, data.idLength)\n	}\n	tmp = append(tmp, make([]byte, data.translationLength)...)[:data.translationLength]\n")],
  demo=modemo('''
	f, err := ParseBytes(zzMo(binary.LittleEndian, 0, 28, "\\x00", [2]string{"a", "long translation"}))
	if err != nil || f.Messages[""]["a"].Str[0] != "long translation" {
		t.Fatal(err)
	}'''), needs="nothing: a rewrite", breaks="nothing"),
]
S = [s for s in S if s["id"] != "c14-skipped-seek"]
S += [
 dict(id="c14-seek-adjacent", prop="C14", pkg="internal/mo",
  edits=[(P, "	if _, err = p.r.Seek(int64(data.translationOffset), 0); err != nil {\n		return\n	}\n",
             "	if data.translationOffset != data.idOffset+data.idLength+1 {\n		if _, err = p.r.Seek(int64(data.translationOffset), 0); err != nil {\n			return\n		}\n	}\n")],
  demo=modemo('''
	f, err := ParseBytes(zzMo(binary.LittleEndian, 0, 28, "\\x00", [2]string{"a", "xyz"}))
	if err != nil || f.Messages[""]["a"].Str[0] != "xyz" {
		t.Fatal(err)
	}'''), needs="a file in which a translation follows its id directly", breaks="the translation begins with the separator and lacks its last byte"),
]
L = "localizer.go"
def ldemo(body): return rootdemo(["fmt", LANG, SP, CATI], '''
	_ = fmt.Sprint
	l := &zzLoader{has: map[string]bool{"de/a": true, "fr/a": true, "pt-BR/a": true, "zh-Hant/a": true, "sr/a": true}}
	b, err := spreak.NewBundle(spreak.WithDomainLoader("a", l), spreak.WithDefaultDomain("a"), spreak.WithSourceLanguage(language.English), spreak.WithFallbackLanguage(language.MustParse("pt-BR")), spreak.WithLanguage(language.German, language.French, language.MustParse("zh-Hant"), language.MustParse("sr")))
	if err != nil {
		t.Fatal(err)
	}
''' + body, ECHO)
S += [
 dict(id="c17-invalid-string-ends", prop="C17", pkg=".",
  edits=[(L, "			if err != nil {\n				continue\n			}\n			tags", "			if err != nil {\n				return newLocalizerFromTag(bundle, domain, tags...)\n			}\n			tags")],
  demo=ldemo('''
	if lz := spreak.NewLocalizer(b, "de;q=x", language.French); lz.Language() != language.French || !lz.HasLocale() {
		t.Fatal(lz.Language())
	}'''), needs="an unparsable string before other languages", breaks="the languages after it are ignored"),
 dict(id="c17-list-before-tags", prop="C17", pkg=".",
  edits=[(L, "			tags = append(tags, desired...)", "			tags = append(desired, tags...)")],
  demo=ldemo('''
	if lz := spreak.NewLocalizer(b, language.German, "fr"); lz.Language() != language.German {
		t.Fatal(lz.Language())
	}'''), needs="a tag followed by a string", breaks="the order of the requested languages is not respected"),
 dict(id="c17-low-confidence", prop="C17", pkg=".",
  edits=[(L, "conf > language.No {\n		tag :=", "conf > language.Low {\n		tag :=")],
  demo=ldemo('''
	m := language.NewMatcher([]language.Tag{language.English, language.MustParse("pt-BR"), language.German, language.French, language.MustParse("zh-Hant"), language.MustParse("sr")})
	seen := false
	for _, s := range []string{"hr", "gsw", "br", "lb", "zh-CN", "zh-Hans", "oc", "co", "bs"} {
		tag := language.MustParse(s)
		_, _, c := m.Match(tag)
		if c == language.Low {
			seen = true
			if lz := spreak.NewLocalizer(b, tag); !lz.HasLocale() {
				t.Fatal(s, lz.Language())
			}
		}
	}
	if !seen {
		t.Log("no language with low confidence")
	}'''), needs="a requested language for which the matcher has only a close language", breaks="the fallback is used although the matcher found a language"),
 dict(id="c17-first-supported-tag", prop="C17", pkg=".",
  edits=[(L, "		tag := bundle.languages[index]\n		return newLocalizerFromTag(bundle, domain, tag)", "		return newLocalizerFromTag(bundle, domain, append(tags[:len(tags):len(tags)], bundle.languages[index])...)")],
  demo=ldemo('''
	// the best match for the list is not the first exact one
	m := language.NewMatcher([]language.Tag{language.English, language.MustParse("pt-BR"), language.German, language.French, language.MustParse("zh-Hant"), language.MustParse("sr")})
	req := []language.Tag{language.MustParse("de-AT"), language.French}
	_, i, _ := m.Match(req...)
	want := []language.Tag{language.English, language.MustParse("pt-BR"), language.German, language.French, language.MustParse("zh-Hant"), language.MustParse("sr")}[i]
	if lz := spreak.NewLocalizer(b, req[0], req[1]); lz.Language() != want {
		t.Fatal(lz.Language(), want)
	}'''), needs="a regional variant before another supported language", breaks="the matcher's choice is overruled"),
 dict(id="c17-matcher-without-source", prop="C17", pkg=".",
  edits=[("bundle.go", "	if lang == b.sourceLanguage {\n		sourceLocale := buildSourceLocale(b.Bundle, b.sourceLanguage)\n		b.locales[lang] = sourceLocale\n		b.languages = append(b.languages, lang)\n", "	if lang == b.sourceLanguage {\n		sourceLocale := buildSourceLocale(b.Bundle, b.sourceLanguage)\n		b.locales[lang] = sourceLocale\n		if len(b.languages) == 0 {\n			b.languages = append(b.languages, lang)\n		}\n")],
  demo=rootdemo(["fmt", LANG, SP, CATI], '''
	_ = fmt.Sprint
	l := &zzLoader{has: map[string]bool{"de/a": true}}
	b, err := spreak.NewBundle(spreak.WithDomainLoader("a", l), spreak.WithLanguage(language.German), spreak.WithSourceLanguage(language.English))
	if err != nil {
		t.Fatal(err)
	}
	if !b.IsLanguageSupported(language.English) || !spreak.NewLocalizer(b, "en").HasLocale() {
		t.Fatal("source language not found")
	}''', ECHO), needs="the source language configured after another language", breaks="the matcher does not know the source language"),
]
