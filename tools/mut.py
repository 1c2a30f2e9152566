#!/usr/bin/env python3
"""mut.py <spec.py> [name...]: apply each edit of the spec to a scratch copy and run checks on it.
The spec defines MUTS = [(name, expect, [props], [(file, old, new)...])] with expect 'bad' (a violation is expected) or
'quiet' (behaviour is kept).  Development aid; no check uses it."""
import sys, os, subprocess, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get('MUT_REPO', '/tmp/mutrepo')
ALL = ['P%02d' % i for i in range(1, 23) if os.path.exists('%s/checks/p%02d.py' % (V, i))]
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def one(p, mir):
    r = sh('VERIF_MIR=%s VERIF_VERBOSE=1 VERIF_NOEVIDENCE=1 timeout 850 python3 %s/check.py %s 2>&1' % (mir, V, p))
    return p, r.returncode, r.stdout
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    if not os.path.isdir(W): sh('cp -a /repo ' + W)
    ex = cf.ThreadPoolExecutor(int(os.environ.get('MUT_JOBS', '7')))
    jobs = []
    for k, (name, expect, props, edits) in enumerate(ns['MUTS']):
        if sys.argv[2:] and name not in sys.argv[2:]: continue
        sh('git -C %s checkout -q -- . && git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD' % (W, W, W))
        ok = True
        for f, o, n in edits:
            s = open(os.path.join(W, f)).read()
            if s.count(o) < 1: print('%-40s EDIT does not apply: %s' % (name, o[:60])); ok = False; break
            open(os.path.join(W, f), 'w').write(s.replace(o, n, 1))
        if not ok: continue
        mir = '/tmp/mut-%d-%d.jsonl' % (os.getpid(), k)
        r = sh("cd %s && VERIF_REPO=%s python3 -c \"import sys; sys.argv=['x']; import check as m, shutil; shutil.move(m.dump(m.build_driver()), '%s')\"" % (V, W, mir))
        if r.returncode: print('%-40s DOES NOT COMPILE %s' % (name, r.stderr[-900:])); continue
        jobs.append((name, expect, mir, [ex.submit(one, p, mir) for p in (props or ALL)]))
    for name, expect, mir, fs in jobs:
        res = [f.result() for f in fs]
        os.unlink(mir)
        hit = [p for p, rc, o in res if rc == 1]
        odd = [p for p, rc, o in res if rc not in (0, 1)]
        und = []
        for p, rc, o in res:
            for l in o.splitlines():
                if 'obligations' in l and ' 0 undecided' not in l: und.append(p)
        good = (bool(hit) if expect == 'bad' else not hit) and not odd
        print('%-40s %s hit=%s%s%s' % (name, 'ok  ' if good else 'MISS' if expect == 'bad' else 'FALSE', ','.join(hit), ' und=' + ','.join(und) if und else '', ' odd=%s' % odd if odd else ''), flush=True)
        for p, rc, o in res:
            if (rc == 1) or (not good and p in und) or rc not in (0, 1) or (expect == 'quiet' and p in und):
                ls = o.splitlines()
                for l in [l for l in ls if 'undecided:' in l or 'Error' in l][:2]: print('      %s %s' % (p, l[:260]))
                i = [i for i, l in enumerate(ls) if l.startswith('    at ')]
                for i in i[:1]: print('      %s %s | %s' % (p, ls[i - 1].strip()[:100], ls[i + 1].strip()[:200]))
    sh('git -C %s checkout -q -- .' % W)
main()
