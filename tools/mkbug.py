"""Author a planted bug: bug(id, property, needs, breaks, edits, demo) writes seeded/<id>/ and confirms it in a copy of /repo.

edits: [(file, old, new)], demo: Python code (run with /repo/src on the path and a scratch directory as current directory).
"""
import json
import os
import shutil
import subprocess

SOURCE = '/repo'
REPO = '/tmp/mkbug_repo'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# exit 0: property holds, nonzero: broken
export LC_ALL=en_US.UTF-8 LANG=en_US.UTF-8 PYTHONDONTWRITEBYTECODE=1
HERE=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d)
trap 'rm -rf "$D"' EXIT
REPO=$(pwd)
cd "$D" && PYTHONPATH="$REPO/src:$HERE" python3 "$HERE/demo.py"
'''
LIB = open(os.path.join(VERIF, 'tools', 'demo_lib.py')).read()


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def bug(id, prop, needs, breaks, edits, demo):
    d = os.path.join(VERIF, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    shutil.rmtree(REPO, ignore_errors=True)
    shutil.copytree(SOURCE, REPO, symlinks=True)
    assert not sh('git', '-C', REPO, 'status', '--porcelain').stdout.strip(), 'repo not clean'
    with open(f'{d}/demo.py', 'w') as f:
        f.write(LIB + '\n\n' + demo)
    with open(f'{d}/demo.sh', 'w') as f:
        f.write(SH)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(f'{d}/meta.json', 'w'), indent=1)
    r0 = sh('bash', f'{d}/demo.sh', cwd=REPO)
    try:
        for f, o, n in edits:
            p = os.path.join(REPO, 'src/pywriter', f)
            s = open(p, newline='').read()
            if '\r\n' in s:
                o, n = o.replace('\n', '\r\n'), n.replace('\n', '\r\n')
            assert s.count(o) == 1, (id, f, s.count(o), o)
            open(p, 'w', newline='').write(s.replace(o, n))
        diff = subprocess.run(['git', '-C', REPO, 'diff'], capture_output=True).stdout
        open(f'{d}/patch.diff', 'wb').write(diff)
        r1 = sh('bash', f'{d}/demo.sh', cwd=REPO)
        t = sh('/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '.', cwd=f'{REPO}/src',
               env=dict(os.environ, LC_ALL='en_US.UTF-8', LANG='en_US.UTF-8', PYTHONDONTWRITEBYTECODE='1'))
        broken = [x for x in t.stdout.splitlines() if x.startswith(('FAILED', 'ERROR')) and 'test_yw7_to_exp' not in x]
    finally:
        subprocess.run(['git', '-C', REPO, 'checkout', '-q', '--', '.'])
    orig = orig_lines(id)
    print(id, 'clean', r0.returncode, 'patched', r1.returncode, 'tests broken', broken, '' if orig else 'NOT ORIGINAL LINES')
    if r0.returncode:
        print(r0.stdout[-500:], r0.stderr[-1500:])
    print('   ', (r1.stdout + r1.stderr).strip().splitlines()[-1:])


def orig_lines(id):
    """Do the removed lines of the patch exist in the original repository?"""
    d = os.path.join(VERIF, 'seeded', id)
    f = None
    ok = True
    for line in open(f'{d}/patch.diff', newline='').read().split('\n'):
        if line.startswith('--- a/'):
            f = line[6:].strip()
            base = subprocess.run(['git', '-C', REPO, 'show', f'9230591:{f}'], capture_output=True).stdout.decode().split('\n')
        elif line.startswith('-') and not line.startswith('---'):
            if line[1:] not in base:
                ok = False
    return ok
