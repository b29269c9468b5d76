"""Build and judge planted bugs.  usage: plant.py SPEC.py [ID...] [--tests/--no-tests]
SPEC.py defines PLANTS: dicts with id, property, file, edits [(old, new)], needs, breaks, demo (python source).
For each: applies the edits to a scratch copy mounted over /repo in a private namespace, runs the stable tests, the demo
with and without the patch, and the property's quick check; writes /verif/seeded/<id> when the bug counts."""
import json, os, re, runpy, shutil, subprocess, sys
V = '/verif'
BASE = subprocess.run("git -C /repo log --format=%H --reverse | head -1", shell=True, capture_output=True, text=True).stdout.strip()
stable = set(json.load(open('/opt/vp/BASELINE.json')).get('stable') or [])


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def inside(copy, cmd, tmp):
    "run cmd with copy mounted on /repo and tmp on /verif/evidence"
    q = cmd.replace("'", "'\\''")
    return sh(f"unshare -Urm sh -c 'mount --bind {copy} /repo && mount --bind {tmp}/evidence /verif/evidence && cd /repo && {q}'", timeout=1500)


def base_lines(path):
    out = sh(f"git -C /repo blame -s -l --root HEAD -- {path}").stdout.splitlines()
    first = os.environ.get('BASE') or sh("git -C /repo log --format=%H --grep='^fix:' --invert-grep -1").stdout.strip()
    mine = set(sh(f"git -C /repo log --format=%H {first}..HEAD").stdout.split())
    return [l.split()[0].lstrip('^') not in mine for l in out]


def one(p, checks=True, tests=True):
    w = f"/tmp/wt/{p['id']}"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w + '/evidence')
    sh(f"cp -a /repo {w}/repo")
    copy = w + '/repo'
    path = f"{copy}/{p['file']}"
    s = open(path).read()
    for old, new in p['edits']:
        if s.count(old) != 1:
            return f"{p['id']}: edit matches {s.count(old)} times: {old!r}"
        s = s.replace(old, new)
    open(path, 'w').write(s)
    diff = sh(f"git -C {copy} diff").stdout
    touched, n = [], 0
    for l in diff.splitlines():
        m = re.match(r'@@ -(\d+)', l)
        if m: n = int(m.group(1)) - 1
        elif l.startswith('---') or l.startswith('+++'): pass
        elif l.startswith('-'): touched.append(n); n += 1
        elif l.startswith(' '): n += 1
    own = base_lines(p['file'])
    force = '--force' in sys.argv        # only ask whether the check notices; keep nothing
    if not any(own[i] for i in touched) and not force:
        return f"{p['id']}: touches no original line"
    note = [] if all(own[i] for i in touched) else ['(some lines are mine)']
    d = w + '/seed'
    os.makedirs(d)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.py', 'w').write(p['demo'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write('#!/bin/sh\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo exec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=p['property'], needs=p['needs'], what_it_breaks=p['breaks']), open(d + '/meta.json', 'w'), indent=1)
    if p.get('tests', True) and tests:
        r = inside(copy, f"bash /opt/vp/test.sh {w}/out.json", w)
        got = json.load(open(w + '/out.json'))
        passed = set(got.get('passed', []))
        base = json.load(open('/opt/vp/BASELINE.json'))
        want = set(base.get('passed') or base.get('stable') or [])
        if not want or want - passed:
            return f"{p['id']}: TESTS FAIL {sorted(want - passed)[:4]} ({len(want)} expected)"
    r = sh(f"cd /repo && sh {d}/demo.sh")
    if r.returncode:
        return f"{p['id']}: DEMO FAILS UNPATCHED {r.stdout}{r.stderr}"
    r = inside(copy, f"sh {d}/demo.sh", w)
    if not r.returncode:
        return f"{p['id']}: DEMO PASSES PATCHED {r.stdout}{r.stderr}"
    if not force:
        dest = f"{V}/seeded/{p['id']}"
        shutil.rmtree(dest, ignore_errors=True)
        shutil.copytree(d, dest)
    res = 'counts'
    if checks:
        r = inside(copy, f"VERIF_SEED=1 VERIF_TIER=quick {V}/check {p['property']}", w)
        caught = r.returncode == 1 and f"VIOLATION property={p['property']}" in r.stdout
        res = 'CAUGHT' if caught else f'MISSED (rc {r.returncode}) {(r.stdout + r.stderr)[-300:]}'
    shutil.rmtree(w, ignore_errors=True)
    return f"{p['id']}: {res} {' '.join(note)}"


if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    plants = runpy.run_path(args[0])['PLANTS']
    for p in plants:
        if len(args) == 1 or p['id'] in args[1:]:
            print(one(p, '--no-checks' not in sys.argv, '--no-tests' not in sys.argv), flush=True)
