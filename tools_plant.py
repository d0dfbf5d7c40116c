"""Record and validate planted bugs: python3 tools_plant.py SPEC.py [ID...]; SPEC defines SEEDS = [dict(id, prop, needs, breaks, edits, demo)].
Applies each to /repo, checks that the demo passes before and fails after and that the stable tests still pass, and undoes it."""
import json, os, subprocess, sys
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = sys.argv[2:]
R = '/repo'


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


for s in ns['SEEDS']:
    if want and s['id'] not in want:
        continue
    assert not sh('git -C /repo status --short').stdout.strip(), 'repo not clean'
    d = f"/verif/seeded/{s['id']}"
    os.makedirs(d, exist_ok=True)
    open(d+'/demo.sh', 'w').write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d+'/demo.sh', 0o755)
    open(d+'/demo.py', 'w').write(s['demo'].lstrip('\n'))
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d+'/meta.json', 'w'), indent=1)
    native = any(f.endswith(('.cpp', '.hpp', '.h')) for f, _, _ in s['edits'])
    try:
        r0 = sh(f"bash {d}/demo.sh", cwd=R)
        for f, o, n in s['edits']:
            p = os.path.join(R, f)
            t = open(p).read()
            assert t.count(o) >= 1, (s['id'], f, 'not found', o)
            assert t.count(o) == 1 or s.get('first'), (s['id'], f, t.count(o), o)
            open(p, 'w').write(t.replace(o, n, 1))
        open(d+'/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
        if native:
            sh('bash /opt/vp/build.sh')
        r1 = sh(f"bash {d}/demo.sh", cwd=R)
        missing = '?'
        if '--notest' not in sys.argv:
            sh('bash /opt/vp/test.sh /tmp/plant.json')
            b = json.load(open('/opt/vp/BASELINE.json'))
            missing = sorted(set(b['stable']) - set(json.load(open('/tmp/plant.json'))['passed']))
    finally:
        sh('git -C /repo checkout -- .')
        if native:
            sh('bash /opt/vp/build.sh')
    ok = r0.returncode == 0 and r1.returncode != 0 and not missing
    print(s['id'], 'OK' if ok else 'BAD', 'before', r0.returncode, 'after', r1.returncode, 'tests', missing, (r0.stderr.strip().splitlines() or [''])[-1][:200] if r0.returncode else '', (r1.stderr.strip().splitlines() or [''])[-1][:200], flush=True)
