#!/usr/bin/env python3
"""One-time generator of harness/plural_headers.go from the frozen contracts
contracts/catalog/poplural/languages.go (not from the code under test)."""
import re
src = open('/verif/contracts/catalog/poplural/languages.go').read()
out = ['package main', '', '// Languages and the Plural-Forms header CLDR 47 prescribes for them (frozen oracle).', '', 'var pluralHeaders = map[string][]string{']
d = {}
for h, l in re.findall(r'const header = "([^"]*)"\n\tfor _, lang := range \[\]string\{([^}]*)\}', src):
    d.setdefault(h, []).extend(re.findall(r'"([^"]+)"', l))
for h, ls in d.items():
    out.append('\t"%s": {%s},' % (h, ', '.join('"%s"' % x for x in ls)))
out.append('}')
open('/verif/harness/plural_headers.go', 'w').write('\n'.join(out) + '\n')
