"""Rewrites the generated second half of DESIGN.md (from '## Properties' on): per property what is enumerated, the oracle,
the parts and what they covered in the last quick run (evidence/), the findings and the planted bugs."""
import glob
import importlib
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
head = open(V + '/DESIGN.md').read().split('\n## Properties')[0].rstrip()
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
known = json.load(open(V + '/known_findings.json'))
old = {}
cov = V + '/tools/coverage.json'
if os.path.exists(cov):
    old = json.load(open(cov))
out = [head, '', '## Properties', '',
       'Every property is decided by exhaustive enumeration of executions of the real code (see above); none is not applicable.',
       'The tables give, per part of a check, the kind of exploration, and the cases/states/transitions of the quick tier as of',
       'the last time this file was generated (`tools/mkdesign.py`); the thorough tier runs the same parts with larger bounds.', '']
seeds = {}
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d))
    seeds.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(d)), m))
for p in props:
    pid = p['id']
    doc = re.match(r'"""(.*?)"""', open('%s/mc/checks/%s.py' % (V, pid.lower())).read(), re.S).group(1)
    out += ['### %s %s' % (pid, p['title']), '', p['statement'], '',
            '*What is enumerated, and the oracle.* ' + re.sub(r'^C\d+: ', '', ' '.join(doc.split())), '',
            '*Why tests cannot settle it.* ' + p['why_tests_cant'], '']
    f = '%s/evidence/%s.json' % (V, pid)
    if os.path.exists(f):
        e = json.load(open(f))
        if e.get('tier') == 'quick':
            old[pid] = [[x['name'], x['kind'], x['rule'], x.get('bound', ''), x['cases'] if 'cases' in x else x.get('histories', ''),
                         x['states'], x['transitions'], round(x['wall_s'])] for x in e['coverage']['parts']]
    if pid in old:
        out += ['| part | exploration | what | cases | states | transitions | s |', '|---|---|---|---|---|---|---|']
        for n, k, r, b, c, s, t, w in old[pid]:
            out.append('| %s | %s | %s%s | %s | %s | %s | %s |' % (n, k, r, ' — ' + str(b) if b else '', c, s, t, w))
        out.append('')
    fx = [x for x in known['fixed'] if 'property=%s ' % pid in x]
    kn = [x for x in known['findings'] if x['property'] == pid]
    if fx:
        out += ['Defects found by this check and repaired:', ''] + \
               ['* `%s` %s' % tuple(x.split('property=%s ' % pid)[1].split(' ', 1)) for x in fx] + ['']
    if kn:
        out += ['Known findings (recorded, not repaired):', ''] + ['* %s (part %s): %s' % (x['id'], x['part'], x['what']) for x in kn] + ['']
    if pid in seeds:
        out += ['Planted bugs caught by this check:', ''] + \
               ['* `%s` — %s Needs: %s.' % (n, m['what_it_breaks'], m['needs'].rstrip('.')) for n, m in seeds[pid]] + ['']
json.dump(old, open(cov, 'w'), indent=0)
open(V + '/DESIGN.md', 'w').write('\n'.join(out).rstrip() + '\n')
