#!/usr/bin/env python3
"""One-time generator of harness/cldr_rules.go from the frozen contracts
contracts/catalog/cldrplural/languages.go (not from the code under test)."""
import re
src = open('/verif/contracts/catalog/cldrplural/languages.go').read()
out = ['package main', '', '// Languages and their CLDR 47 cardinal plural rules (frozen oracle).', '',
       'type cldrLang struct {\n\tlangs []string\n\trules [][2]string // category, rule text; other is implied\n}', '', 'var cldrLangs = []cldrLang{']
for body in re.split(r'\n//verif:prop C01\n', src)[1:]:
    ls = re.search(r'range \[\]string\{([^}]*)\}', body).group(1)
    rules = re.findall(r'(\w+) := vCLDR\("([^"]*)"', body)
    out.append('\t{[]string{%s}, [][2]string{%s}},' % (ls, ', '.join('{"%s", "%s"}' % r for r in rules)))
out.append('}')
open('/verif/harness/cldr_rules.go', 'w').write('\n'.join(out) + '\n')
