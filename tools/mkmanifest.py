"""Writes MANIFEST.json from properties.jsonl and the check modules present."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = {}
TECH = {
 'default': 'explicit-state model checking of the implementation: exhaustive bounded enumeration of histories and '
            'environment answers on the real code against a reference model',
 'C05': 'breadth-first explicit-state search over store operation histories, compared step by step with a dictionary model',
 'C25': 'stateless model checking: all thread schedules up to a preemption bound under a controlled scheduler',
 'C22': 'exhaustive crash-point enumeration: every cut of every history is dumped, restored and continued',
}
checks = []
na = []
for p in props:
    pid = p['id']
    path = '%s/mc/checks/%s.py' % (V, pid.lower())
    if not os.path.exists(path):
        na.append({'property': pid, 'reason': NA.get(pid, 'no check has been built yet')})
        continue
    src = open(path).read()
    doc = re.match(r'"""(.*?)"""', src, re.S).group(1)
    checks.append({
        'property': pid,
        'quick_cmd': './check %s quick' % pid,
        'thorough_cmd': './check %s thorough' % pid,
        'technique': TECH.get(pid, TECH['default']),
        'level': 'model_checking',
        'level_note': ' '.join(doc.split()),
    })
m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python -W ignore -c "import mc.env"', 'checks': checks,
     'not_applicable': na,
     'notes': 'No hooks in /repo: the clock, the network and randomness are replaced from outside, the library is '
              'used through its public interface. Known findings: known_findings.json.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
