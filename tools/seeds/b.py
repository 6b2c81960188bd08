def plural(pkg_imports, body):
    return '''
package %s_test

import (
	"testing"

%s
)

func TestZZDemo(t *testing.T) {
%s
}
''' % (pkg_imports[0], "\n".join('\t"%s"' % i for i in pkg_imports[1:]), body)
CL = ["cldrplural", "golang.org/x/text/language", "github.com/vorlif/spreak/catalog/cldrplural"]
PP = ["poplural", "github.com/vorlif/spreak/catalog/poplural"]
CAT = ["catalog", "golang.org/x/text/language", "github.com/vorlif/spreak/catalog", "github.com/vorlif/spreak/catalog/cldrplural"]
S = [
 dict(id="c01-belarusian-hundreds", prop="C01", pkg="catalog/cldrplural",
  edits=[("catalog/cldrplural/builtin_gen.go", "			// n % 10 = 2..4 and n % 100 != 12..14\n			if isFloatInRange(math.Mod(ops.N, 10), 2, 4) && !isFloatInRange(math.Mod(ops.N, 100), 12, 14) {\n				return Few",
          "			// n % 10 = 2..4 and n % 100 != 12..14\n			if isFloatInRange(math.Mod(ops.N, 10), 2, 4) && !isFloatInRange(ops.N, 12, 14) {\n				return Few")],
  demo=plural(CL, '''
	rs, _ := cldrplural.ForLanguage(language.MustParse("be"))
	if c, _ := rs.Evaluate(112); c != cldrplural.Many {
		t.Fatal(c)
	}'''),
  needs="a count above 100 whose last two digits are 12..14, in Belarusian", breaks="112 selects few instead of many"),
 dict(id="c01-french-compact", prop="C01", pkg="catalog/cldrplural",
  edits=[("catalog/cldrplural/builtin_gen.go", "			// i = 0,1\n			if ops.I == 0 || ops.I == 1 {\n				return One\n			}\n\n			// e = 0 and i != 0 and i % 1000000 = 0 and v = 0 or e != 0..5\n			if ops.C == 0 && ops.I != 0 && ops.I%1000000 == 0 && ops.V == 0 || !(ops.C >= 0 && ops.C <= 5) {",
          "			// i = 0,1\n			if ops.I == 0 || ops.I == 1 {\n				return One\n			}\n\n			// e = 0 and i != 0 and i % 1000000 = 0 and v = 0 or e != 0..5\n			if ops.C == 0 && ops.I == 1000000 && ops.V == 0 || !(ops.C >= 0 && ops.C <= 5) {")],
  demo=plural(CL, '''
	rs, _ := cldrplural.ForLanguage(language.French)
	if c, _ := rs.Evaluate(3000000); c != cldrplural.Many {
		t.Fatal(c)
	}'''),
  needs="a multiple of a million other than one million", breaks="3000000 selects other instead of many in French"),
 dict(id="c02-maltese-hundreds", prop="C02", pkg="catalog/poplural",
  edits=[("catalog/poplural/builtin_gen.go", "n % 100 >= 11 && n % 100 <= 19) ? 3 : 4)));\":\n		return newRuleMt()", "n % 100 >= 11 && n % 100 <= 19) ? 3 : 4)));\":\n		return newRuleGa()")],
  demo=plural(PP, '''
	r := poplural.MustParse("nplurals=5; plural=n==1 ? 0 : n==2 ? 1 : n==0 || n%100>=3 && n%100<=10 ? 2 : n%100>=11 && n%100<=19 ? 3 : 4;")
	if f, _ := r.Evaluate(111); f != 3 {
		t.Fatal(f)
	}'''),
  needs="the Maltese header text", breaks="a header text is answered with another language's rule"),
 dict(id="c02-spanish-million", prop="C02", pkg="catalog/poplural",
  edits=[("catalog/poplural/builtin_gen.go", "			if n == 1 {\n				return 0\n			}\n			if n != 0 && n%1000000 == 0 {\n				return 1", "			if n == 1 {\n				return 0\n			}\n			if n >= 1000000 && n%100000 == 0 {\n				return 1")],
  demo=plural(["poplural", "golang.org/x/text/language", PP[1]], '''
	f, _ := poplural.ForLanguage(language.Spanish)
	if f, _ := f(1100000); f != 2 {
		t.Fatal(f)
	}'''),
  needs="a multiple of 100000 above a million", breaks="1100000 selects the form of whole millions in Spanish"),
 dict(id="c02-cornish-carry", prop="C02", pkg="catalog/poplural",
  edits=[("catalog/poplural/builtin_gen.go", "			if n != 1 && ((n%100 == 1 || (n%100 == 21 ||", "			if n > 100 && ((n%100 == 1 || (n%100 == 21 ||")],
  demo=plural(["poplural", "golang.org/x/text/language", PP[1]], '''
	f, _ := poplural.ForLanguage(language.MustParse("kw"))
	if f, _ := f(61); f != 4 {
		t.Fatal(f)
	}'''),
  needs="counts 21, 41, 61, 81 in Cornish", breaks="small counts ending in 1 select the wrong form"),
 dict(id="c02-breton-nine", prop="C02", pkg="catalog/poplural",
  edits=[("catalog/poplural/builtin_gen.go", "			if ((n%10 == 3 || n%10 == 4) || n%10 == 9) && (n%100 < 10 || n%100 > 19) && (n%100 < 70 || n%100 > 79) && (n%100 < 90 || n%100 > 99) {", "			if ((n%10 == 3 || n%10 == 4) || n%10 == 9) && (n < 10 || n%100 > 19) && (n%100 < 70 || n%100 > 79) && (n%100 < 90 || n%100 > 99) {")],
  demo=plural(["poplural", "golang.org/x/text/language", PP[1]], '''
	f, _ := poplural.ForLanguage(language.MustParse("br"))
	if f, _ := f(103); f != 2 {
		t.Fatal(f)
	}'''),
  needs="counts above 100 ending in 03, 04 or 09 in Breton", breaks="103 selects the wrong form"),
 dict(id="c03-nested-then", prop="C03", pkg="catalog/poplural",
  edits=[("catalog/poplural/ast/parser.go", "		condTrue, errCt := p.expression()", "		condTrue, errCt := p.logicalOrExpression()")],
  demo=plural(PP, '''
	r, err := poplural.Parse("nplurals=3; plural=n>1 ? n>5 ? 2 : 1 : 0;")
	if err != nil {
		t.Fatal(err)
	}
	if f, _ := r.Evaluate(7); f != 2 {
		t.Fatal(f)
	}'''),
  needs="a conditional nested in the middle of another without parentheses", breaks="a valid C formula is rejected"),
 dict(id="c03-trailing-garbage", prop="C03", pkg="catalog/poplural",
  edits=[("catalog/poplural/ast/parser.go", "	if tok, lit := p.scanIgnoreWhitespace(); tok != eof {", "	if tok, lit := p.scanIgnoreWhitespace(); tok == failure || tok == nPlurals {")],
  demo=plural(PP, '''
	if _, err := poplural.Parse("nplurals=2; plural=n != 1; n > 5"); err == nil {
		t.Fatal("accepted")
	}'''),
  needs="text after the final semicolon", breaks="a header with additional parts is accepted as another rule"),
 dict(id="c03-and-or-mixed", prop="C03", pkg="catalog/poplural",
  edits=[("catalog/poplural/ast/parser.go", "		rn, errRn := p.logicalAndExpression()\n", "		rn, errRn := p.logicalOrExpression()\n")],
  demo=plural(PP, '''
	r := poplural.MustParse("nplurals=2; plural=n==1 && n==2 || n==3;")
	if f, _ := r.Evaluate(3); f != 1 {
		t.Fatal(f)
	}'''),
  needs="&& before || without parentheses", breaks="&& binds weaker than || on its right"),
 dict(id="c04-compact-large", prop="C04", pkg="catalog/cldrplural",
  edits=[("catalog/cldrplural/cldr.go", "	for i := 0; i < c; i++ {\n		s.WriteRune('0')", "	for i := 0; i < c && i < 9; i++ {\n		s.WriteRune('0')")],
  demo=plural(["cldrplural", CL[2]], '''
	if o := cldrplural.MustNewOperands("1c12"); o.I != 1000000000000 {
		t.Fatal(o.I)
	}'''),
  needs="a compact exponent above 9", breaks="the integer digits of large compact numbers are too small"),
 dict(id="c04-pointer-to-pointer", prop="C04", pkg="catalog/cldrplural",
  edits=[("internal/cast/number.go", "	for v.Kind() == reflect.Ptr && !v.IsNil() {", "	if v.Kind() == reflect.Ptr && !v.IsNil() {")],
  demo=plural(["cldrplural", CL[2]], '''
	n := 7
	p := &n
	o, err := cldrplural.NewOperands(&p)
	if err != nil || o.I != 7 {
		t.Fatal(o, err)
	}'''),
  needs="a count given as a pointer to a pointer", breaks="the operands of a doubly indirect count"),
 dict(id="c04-shift-drops-point", prop="C04", pkg="catalog/cldrplural",
  edits=[("catalog/cldrplural/cldr.go", "		if c == 0 && shift {", "		if c == 0 && shift && r != '0' {")],
  demo=plural(["cldrplural", CL[2]], '''
	o, err := cldrplural.NewOperands("1.2053c2")
	if err != nil || o.I != 120 || o.F != 53 {
		t.Fatal(o, err)
	}
	o, err = cldrplural.NewOperands("1.2003c2")
	if err != nil || o.I != 120 || o.V != 2 || o.F != 3 {
		t.Fatal(o, err)
	}'''),
  needs="compact notation whose first remaining fraction digit is zero", breaks="the decimal point moves past zeros"),
 dict(id="c06-context-suffix", prop="C06", pkg="catalog",
  edits=[("catalog/json.go", '!strings.HasSuffix(key, "_"+srcMsg.Context)', '!strings.HasSuffix(key, srcMsg.Context)')],
  demo=plural(CAT, '''
	_, err := catalog.NewJSONCatalogWithMessages(language.English, "d", catalog.JSONMessages{
		"homepage": {Context: "page", Translations: map[cldrplural.Category]string{cldrplural.Other: "x"}},
	})
	if err == nil {
		t.Fatal("accepted")
	}'''),
  needs="a key that ends in the context without the separator", breaks="a message that no lookup can reach is accepted"),
 dict(id="c06-trim-empty-only", prop="C06", pkg="catalog",
  edits=[("catalog/json.go", "		if !supported {\n			delete(msg.Translations, cat)", "		if !supported {\n			if cat != cldrplural.Zero || msg.Translations[cat] == \"\" {\n				delete(msg.Translations, cat)\n			}")],
  demo=plural(CAT, '''
	m := &catalog.JSONMessage{Translations: map[cldrplural.Category]string{cldrplural.Other: "x", cldrplural.Zero: "z"}}
	catalog.ApplyPluralCategoriesToJSONMessage(language.English, m)
	if _, ok := m.Translations[cldrplural.Zero]; ok {
		t.Fatal("not trimmed")
	}'''),
  needs="a text for zero in a language without that category", breaks="the category is kept"),
 dict(id="c06-comment-escape", prop="C06", pkg="catalog",
  edits=[("catalog/json.go", '		case "comment":\n			m.Comment = value', '		case "comment":\n			m.Comment = strings.TrimSpace(value)')],
  demo=plural(["catalog", "encoding/json", "golang.org/x/text/language", "github.com/vorlif/spreak/catalog", "github.com/vorlif/spreak/catalog/cldrplural"], '''
	c, err := catalog.NewJSONCatalogWithMessages(language.English, "d", catalog.JSONMessages{
		"a": {Comment: "note\\n", Translations: map[cldrplural.Category]string{cldrplural.Other: "x"}},
	})
	if err != nil {
		t.Fatal(err)
	}
	b, err := json.Marshal(c)
	if err != nil {
		t.Fatal(err)
	}
	d := catalog.NewJSONCatalog(language.English, "d")
	if err := json.Unmarshal(b, d); err != nil {
		t.Fatal(err)
	}
	if d.Messages()["a"].Comment != "note\\n" {
		t.Fatalf("%q", d.Messages()["a"].Comment)
	}'''),
  needs="a comment with blanks at its ends", breaks="encoding and decoding changes the message"),
 dict(id="c08-key-plural-domain", prop="C08", pkg=".",
  edits=[("localizer.go", "import (\n", "import (\n\t\"strings\"\n"), ("localizer.go", "	t, _ := l.lookupPluralTranslation(domain, context, key, key, n, vars...)", "	t, _ := l.lookupPluralTranslation(domain, context, key, localize.Plural(strings.TrimSpace(key)), n, vars...)")],
  demo="""
package spreak_test

import (
	"testing"

	"golang.org/x/text/language"

	"github.com/vorlif/spreak"
)

func TestZZDemo(t *testing.T) {
	b, err := spreak.NewBundle(spreak.WithSourceLanguage(language.English))
	if err != nil {
		t.Fatal(err)
	}
	l := spreak.NewKeyLocalizer(b, language.English)
	if got := l.DNPGetf("d", "c", "%d ", 3, 8); got != "8 " {
		t.Fatalf("%q", got)
	}
}
""", needs="a key with blanks at its ends, no translation and a plural count", breaks="the plural text differs from the key"),
]
S = [s for s in S if s["edits"]]
