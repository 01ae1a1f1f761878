#!/usr/bin/env python3
"""Rewrite the generated sections of DESIGN.md (checks and seeded bugs) from checks.py and seeded/."""
import json, os, re, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks
props = {}
for l in open(V + '/properties.jsonl'):
    p = json.loads(l); props[p['id']] = p
out = []
for k in sorted(checks.CHECKS):
    c = checks.CHECKS[k]
    hs = sorted({r['harness'] if isinstance(r, dict) else r[0] for r in c['quick']})
    out.append('### %s %s\n' % (k, props[k]['title']))
    out.append('*How*: %s.\n' % c['technique'])
    out.append('*Explored*: %s. (%s.)\n' % (c['bound_text'], c['level_note']))
    if c.get('assumptions'):
        out.append('*Assumed*: ' + '; '.join(c['assumptions']) + '.\n')
    out.append('*Harness*: %s; %d quick and %d thorough runs.\n' % (', '.join('`%s`' % h for h in hs), len(c['quick']), len(c['thorough'])))
na = getattr(checks, 'NOT_APPLICABLE', {})
sb = ['| bug | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    sb.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), m.get('caught_by', '?')))
s = open(V + '/DESIGN.md').read()
def put(s, name, text):
    return re.sub(r'(<!-- %s -->\n).*?(<!-- /%s -->)' % (name, name), lambda m: m.group(1) + text + '\n' + m.group(2), s, flags=re.S)
s = put(s, 'checks', '\n'.join(out))
s = put(s, 'seeded', '\n'.join(sb))
open(V + '/DESIGN.md', 'w').write(s)
