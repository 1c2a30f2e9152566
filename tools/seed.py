#!/usr/bin/env python3
"""seed.py <spec.py>: plant one bug in a scratch copy, confirm it (tests pass, demo fails only with it), keep it, run the checks on it.
The spec defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], MAIN (Rust source of the demonstration)."""
import sys, os, subprocess, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seedrepo'
ENV = dict(os.environ, PATH='/root/.cargo/bin:/usr/local/cargo/bin:' + os.environ['PATH'], RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', RUSTC_WRAPPER='')
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    if not os.path.isdir(W): sh('cp -a /repo ' + W)
    sh('git -C %s checkout -q -- . && git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD' % (W, W, W))
    d = os.path.join(V, 'seeded', ns['ID']); os.makedirs(d, exist_ok=True)
    open(d + '/main.rs', 'w').write(ns['MAIN'])
    shutil.copy(V + '/tools/demo.sh', d + '/demo.sh'); os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
    r = sh('bash %s/demo.sh' % d, cwd=W)
    if r.returncode: print('DEMO FAILS ON BASE', r.stderr[-2500:]); return 1
    for f, o, n in ns['EDITS']:
        s = open(os.path.join(W, f)).read()
        if s.count(o) != 1: print('EDIT does not apply once:', f, s.count(o)); return 1
        open(os.path.join(W, f), 'w').write(s.replace(o, n))
    diff = sh('git -C %s diff' % W).stdout
    open(d + '/patch.diff', 'w').write(diff)
    r = sh('cargo test --workspace --features contextual,serde --offline 2>&1', cwd=W, env=ENV)
    if r.returncode: print('TESTS FAIL', r.stdout[-2500:]); return 1
    r = sh('bash %s/demo.sh' % d, cwd=W)
    print('demo with patch: rc', r.returncode, (r.stderr or '')[-300:])
    if r.returncode == 0: print('DEMO PASSES WITH PATCH'); return 1
    ps = sys.argv[2:] or [ns['PROP']]
    for p in ps:
        if os.path.exists('%s/checks/%s.py' % (V, p.lower())):
            r = sh('VERIF_REPO=%s python3 %s/check.py %s 2>&1 | cut -c1-300 | tail -4' % (W, V, p))
            print('CHECK', p, r.stdout)
    sh('git -C %s checkout -q -- .' % W)
    return 0
sys.exit(main())
