"""Run every planted bug's property check (and, with --all, none else) against it; keep the outcome in tools/matrix.json.
usage: matrix.py [ID...]   (default: those not in matrix.json yet)"""
import json, os, re, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import inside, sh
P = '/verif/tools/matrix.json'


def load():
    return json.load(open(P)) if os.path.exists(P) else {}


ids = [a for a in sys.argv[1:] if not a.startswith('-')] or [i for i in sorted(os.listdir('/verif/seeded')) if i not in load()]
for i in ids:
    d = '/verif/seeded/' + i
    prop = json.load(open(d + '/meta.json'))['property']
    w = '/tmp/wt/matrix-' + i
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w + '/evidence')
    sh(f'cp -a /repo {w}/repo')
    r = sh(f'git -C {w}/repo apply {d}/patch.diff')
    if r.returncode:
        res = ['patch does not apply', '']
    else:
        r = inside(w + '/repo', f'cd /verif && VERIF_SEED=1 ./check {prop}', w)
        m = re.search(rf'VIOLATION property={prop} replay=\S*/{prop}-(\w+)-', r.stdout)
        res = ['caught', m.group(1)] if r.returncode == 1 and m else [f'missed (exit {r.returncode})', '']
    out = load()
    out[i] = res
    json.dump(out, open(P, 'w'), indent=0, sort_keys=True)
    print(i, *res, flush=True)
    shutil.rmtree(w, ignore_errors=True)
