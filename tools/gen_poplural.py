#!/usr/bin/env python3
"""One-time generator of contracts/catalog/poplural/languages.go (the result is committed and
frozen: it is the oracle, no check regenerates it from the code under test)."""
import re, sys
src = open('/repo/catalog/poplural/builtin_gen.go').read()
body = src[src.index('func getBuiltInForLanguage'):]
body = body[:body.index('\n}\n')]
groups = re.findall(r'case ((?:"[^"]+",? ?)+):\s*return (\w+)\(\)', body)
out = ['package poplural', '', '// Languages and the Plural-Forms header CLDR 47 prescribes for them (frozen oracle).', '']
def emit(langs, hdr):
    name = re.sub(r'\W', '_', langs[0])
    out.append('//verif:prop C02\nfunc vc_Languages_%s(n int64) {' % name)
    out.append('\tvRequires(n >= 0)')
    out.append('\tconst header = "%s"' % hdr)
    out.append('\tfor _, lang := range []string{%s} {' % ', '.join('"%s"' % l for l in langs))
    out.append('''\t\trule := getBuiltInForLanguage(lang)
		vEnsures("the language has a rule", rule != nil)
		vEnsures("nplurals", rule.NPlurals == vCNPlurals(header))
		form := rule.FormFunc(n)
		vEnsures("the form the formula gives", int64(form) == vCForm(header, n))
		vEnsures("the form is one of the language's", 0 <= form && form < rule.NPlurals)
	}
}
''')

for langs, fn in groups:
    langs = re.findall(r'"([^"]+)"', langs)
    m = re.search(r'func %s\(\) \*Rule \{.*?// (nplurals=[^\n]*)' % re.escape(fn), src, re.S)
    hdr = m.group(1)
    for at in range(0, len(langs), 30):
        emit(langs[at:at + 30], hdr)
open('/verif/contracts/catalog/poplural/languages.go', 'w').write('\n'.join(out))
