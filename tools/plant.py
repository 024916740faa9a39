"""Plant a bug: python3 tools/plant.py SPEC...   (SPEC as described below)

id/property/needs/what header lines, then '=== <file>' blocks holding 'old', a
line '-----', 'new' (exact, unique replacement), then '=== demo' with python.
Writes seeded/<id>/ after confirming that build + stable tests pass, the demo
separates the two trees, and prints whether the property's check caught it.
"""
import json, os, subprocess, sys, tempfile, shutil
R = '/repo'
DEMO = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/src MPLBACKEND=Agg
MPLCONFIGDIR=$(mktemp -d); export MPLCONFIGDIR
/opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
rc=$?
rm -rf "$MPLCONFIGDIR"
exit $rc
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def clean(): sh(f'git -C {R} checkout -q -- .')
def one(path):
    txt = open(path).read()
    parts = txt.split('\n=== ')
    head = dict(l.split(': ', 1) for l in parts[0].strip().splitlines())
    assert not sh(f'git -C {R} status --short').stdout, 'repo dirty'
    d = f"/verif/seeded/{head['id']}"
    demo = None
    try:
        for blk in parts[1:]:
            name, body = blk.split('\n', 1)
            if name.strip() == 'demo':
                demo = body; continue
            f = f'{R}/src/actuarialmath/{name.strip()}'
            s = open(f).read()
            a, b = body.split('\n-----\n'); a, b = a.rstrip('\n'), b.rstrip('\n')
            if s.count(a) != 1: return f"{head['id']}: edit matches {s.count(a)} times in {name}: {a[:60]!r}"
            open(f, 'w').write(s.replace(a, b))
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(sh(f'git -C {R} diff').stdout)
        open(d + '/demo.py', 'w').write(demo)
        open(d + '/demo.sh', 'w').write(DEMO)
        json.dump({'property': head['property'], 'needs': head['needs'], 'what_it_breaks': head['what']},
                  open(d + '/meta.json', 'w'), indent=1)
        # lines touched must be original
        base = sh(f'git -C {R} rev-list --max-parents=0 HEAD').stdout.split()[0]
        out = []
        for l in open(d + '/patch.diff').read().splitlines():
            if l.startswith('--- a/'): orig = sh(f'git -C {R} show {base}:{l[6:]}').stdout.splitlines()
            elif l.startswith('-') and not l.startswith('---') and l[1:] not in orig: out.append('NOT ORIGINAL: ' + l)
        r = sh('bash /opt/vp/build.sh', cwd=R)
        if r.returncode: out.append('BUILD FAILS')
        sh('bash /opt/vp/test.sh /tmp/plant.json')
        o = json.load(open('/tmp/plant.json'))
        st = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        lost = st - set(o['passed'])
        if lost: out.append(f'TESTS FAIL {sorted(lost)}')
        bad = sh(f'bash {d}/demo.sh', cwd=R)
        r = sh(f"/opt/venv/bin/python -B /verif/run.py {head['property']}", cwd='/verif', env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
        caught = r.returncode == 1 and f"VIOLATION property={head['property']}" in r.stdout
        other = ''
    finally:
        clean()
    good = sh(f'bash {d}/demo.sh', cwd=R)
    if good.returncode: out.append('DEMO FAILS ON CLEAN ' + good.stderr[-300:])
    if not bad.returncode: out.append('DEMO PASSES WITH PATCH')
    if any(out):
        shutil.rmtree(d)
    return f"{head['id']}: {'; '.join(out) or 'ok'} caught={caught} {'' if caught else r.stdout[-200:]} demo: {(bad.stdout + bad.stderr).strip().splitlines()[-1:]}"
for p in sys.argv[1:]: print(one(p), flush=True)
