import json, os, shutil, subprocess, sys
SEEDS = {}
def seed(id, prop, edits, demo, needs, breaks):
    SEEDS[id] = (prop, edits, demo, needs, breaks)
exec(open('/tmp/w/seeds.py').read())
def make(id):
    prop, edits, demo, needs, breaks = SEEDS[id]
    subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd='/tmp/w/cp', check=True)
    for f, old, new in edits:
        p = '/tmp/w/cp/src/oidcrp/' + f
        t = open(p).read()
        assert t.count(old) == 1, (id, f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    shutil.copy('/tmp/w/seedlib/op.py', d + '/op.py')
    open(d + '/demo.py', 'w').write(demo.lstrip('\n'))
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop[0], 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    print('=====', id, flush=True)
    subprocess.run(['/tmp/w/plant.sh', id, *prop])
    subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd='/tmp/w/cp', check=True)
for id in sys.argv[1:] or SEEDS:
    make(id)
