#!/usr/bin/env python3
"""One-time generator of contracts/catalog/cldrplural/languages.go (committed and frozen: it is
the oracle, no check regenerates it from the code under test).  The rule texts are those of
CLDR 47 plurals.xml, which the generated code quotes in comments; they were compared by hand."""
import re
src = open('/repo/catalog/cldrplural/builtin_gen.go').read()
body = src[src.index('func getBuiltInForLanguage'):]
body = body[:body.index('\n}\n')]
groups = re.findall(r'case ((?:"[^"]+",? ?)+):\s*return (\w+)\(\)', body)
out = ['package cldrplural', '', '// Languages and their CLDR 47 cardinal plural rules (frozen oracle).', '']
for langs, fn in groups:
    langs = re.findall(r'"([^"]+)"', langs)
    m = re.search(r'func %s\(\) \*RuleSet \{(.*?)\n\}\n' % re.escape(fn), src, re.S).group(1)
    cats = re.search(r'Categories: \[\]Category\{([^}]*)\}', m).group(1).split(', ')
    rules = re.findall(r'// ([^\n]*)\n.*?return (\w+)', m, re.S)
    assert [c for _, c in rules] + ['Other'] == cats, (fn, rules, cats)
    for at in range(0, len(langs), 30):
        ls = langs[at:at + 30]
        out.append('//verif:prop C01\nfunc vc_Rules_%s(ops *Operands) {' % re.sub(r'\W', '_', ls[0]))
        out.append('\tvRequires(vOperands(ops))')
        out.append('\tfor _, lang := range []string{%s} {' % ', '.join('"%s"' % l for l in ls))
        out.append('\t\trules := getBuiltInForLanguage(lang)')
        out.append('\t\tvEnsures("the language has rules", rules != nil)')
        out.append('\t\tvEnsures("the categories in CLDR order", %s)' % ' && '.join(['len(rules.Categories) == %d' % len(cats)] + ['rules.Categories[%d] == %s' % (i, c) for i, c in enumerate(cats)]))
        out.append('\t\tvEnsures("a form function", rules.FormFunc != nil)')
        out.append('\t\tgot := rules.FormFunc(ops)')
        for i, (r, c) in enumerate(rules):
            out.append('\t\t%s := vCLDR("%s", ops.N, ops.I, ops.V, ops.W, ops.F, ops.T, ops.C)' % (c.lower(), r))
        out.append('\t\twant := Other')
        for i, (r, c) in reversed(list(enumerate(rules))):
            out.append('\t\tif %s {\n\t\t\twant = %s\n\t\t}' % (c.lower(), c))
        out.append('\t\tvEnsures("the category the rules give", got == want)')
        out.append('\t\tvEnsures("no write to shared state", vUnchanged())')
        out.append('\t}\n}\n')
open('/verif/contracts/catalog/cldrplural/languages.go', 'w').write('\n'.join(out))
