#!/usr/bin/env python3
"""Planted-bug tooling (development only; no check uses it).
   plant.py confirm ID...   in a scratch copy of /repo: applies, builds, passes the stable tests, demo 0 clean / nonzero patched
   plant.py catch ID...     run the check of the bug's property (and --all checks) against the scratch copy; records bin/caught.json"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')
def sh(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors='replace')
def copy():
    d = tempfile.mkdtemp(prefix='plant-'); sh('cp -a /repo/. %s/' % d); return d
def confirm(b):
    r = []
    d = os.path.join(S, b)
    rc0, o0 = sh('sh %s/demo.sh' % d, cwd='/repo')
    rc, o = sh('git apply --check %s/patch.diff && git apply %s/patch.diff' % (d, d), cwd='/repo')
    if rc: return 'APPLY FAILS ' + o
    try:
        rb, ob = sh('bash /opt/vp/build.sh')
        rt, ot = sh('bash /opt/vp/test.sh /tmp/plant-out.json')
        base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        try: miss = base - set(json.load(open('/tmp/plant-out.json'))['passed'])
        except Exception as e: miss = {'?' + str(e)}
        rc1, o1 = sh('timeout 300 sh %s/demo.sh' % d, cwd='/repo')
    finally:
        sh('git checkout -- .', cwd='/repo')
    return 'build %s, missing tests %d %s, demo clean %d patched %d %s' % ('ok' if rb == 0 else 'FAIL ' + ob[-300:], len(miss), sorted(miss)[:3], rc0, rc1, 'OK' if rb == 0 and not miss and rc0 == 0 and rc1 != 0 else '<<<< BAD ' + o0[-300:] + o1[-300:])
def catch(b, checks):
    d = copy()
    try:
        sh('git apply %s/%s/patch.diff' % (S, b), cwd=d)
        out = []
        for c in checks:
            rc, o = sh('%s/bin/check %s quick' % (V, c), env=dict(os.environ, VERIF_REPO=d), timeout=1200)
            if rc == 1 and 'VIOLATION property=' + c in o: out.append(c)
            elif rc != 0: out.append(c + '(exit %d)' % rc)
        return out
    finally:
        shutil.rmtree(d)
if __name__ == '__main__':
    mode, ids = sys.argv[1], sys.argv[2:] or sorted(os.listdir(S))
    allc = '--all' in ids; ids = [i for i in ids if i != '--all'] or sorted(os.listdir(S))
    f = os.path.join(V, 'bin', 'caught.json')
    for b in ids:
        if mode == 'confirm': print(b, confirm(b), flush=True)
        else:
            sys.path.insert(0, os.path.join(V, 'bin'))
            from registry import CHECKS
            p = json.load(open(os.path.join(S, b, 'meta.json')))['property']
            r = catch(b, list(CHECKS) if allc else [p])
            caught = json.load(open(f)) if os.path.exists(f) else {}
            caught[b] = sorted(set(r)) if allc else sorted(set([x for x in caught.get(b, []) if x != p and x != '?'] + r)) or ['none']
            json.dump(caught, open(f, 'w'), indent=1, sort_keys=True)
            print(b, p, r or 'MISSED', flush=True)
