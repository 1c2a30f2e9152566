#!/usr/bin/env python3
"""check.py <property> <quick|thorough>: dump the MIR of /repo's working tree, decide the property on it."""
import sys, os, json, time, subprocess, hashlib, importlib, shutil, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
CACHE = os.environ.get('VERIF_CACHE') or os.path.join(HERE, '.cache')
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.path.insert(0, os.path.join(HERE, 'checks'))
INLINE = "core::option;std::option;core::result;std::result;core::cmp;std::cmp;<std::option;core::iter;std::iter;std::ops;core::ops;std::convert;std::borrow;<std::borrow;std::tuple;core::tuple;<[closure;<std::result;<I as ;<T as ;<std::iter;<&mut I as ;std::iter::Once;std::iter::once;<std::cell;std::ops::ControlFlow;<std::ops::ControlFlow;<std::ops;<std::vec::Vec<T> as std::convert::From"


def env():
    e = dict(os.environ)
    for p in ('/root/.cargo/bin', '/usr/local/cargo/bin'):
        if p not in e.get('PATH', ''):
            e['PATH'] = p + ':' + e.get('PATH', '/usr/bin:/bin')
    e.pop('RUSTUP_TOOLCHAIN', None)
    e['RUSTC_WRAPPER'] = ''
    return e


def build_driver():
    src = os.path.join(HERE, 'driver', 'main.rs')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(CACHE, 'driver-' + h)
    if not os.path.exists(out):
        os.makedirs(CACHE, exist_ok=True)
        tmp = out + '.tmp%d' % os.getpid()
        r = subprocess.run(['rustc', '+nightly', '-O', '--edition', '2021', src, '-o', tmp], env=env(), capture_output=True, text=True, cwd=CACHE)
        if r.returncode:
            raise RuntimeError('driver does not build: ' + r.stderr[-3000:])
        os.rename(tmp, out)
    return out


def dump(drv):
    """type-check /repo with the driver as compiler; the driver writes MIR, types and the public surface"""
    e = env()
    target = os.path.join(CACHE, 'target')
    tag = hashlib.sha256(REPO.encode()).hexdigest()[:8]
    out = os.path.join(CACHE, 'mir-%s-%d.jsonl' % (tag, os.getpid()))
    for d in (os.path.join(target, 'debug', 'build', 'rdf-types'),):
        shutil.rmtree(d, ignore_errors=True)
    fp = os.path.join(target, 'debug', '.fingerprint')
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith('rdf-types-'):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    sysroot = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], env=e, capture_output=True, text=True).stdout.strip()
    e.update(LD_LIBRARY_PATH=sysroot + '/lib', RUSTC_WORKSPACE_WRAPPER=drv, VERIF_CRATE='rdf_types', VERIF_OUT=out,
             CARGO_TARGET_DIR=target, CARGO_INCREMENTAL='0', VERIF_INLINE=INLINE, CARGO_NET_OFFLINE='true')
    r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--lib', '--features', 'contextual,serde'], cwd=REPO, env=e, capture_output=True, text=True)
    if r.returncode or not os.path.exists(out):
        raise RuntimeError('the crate does not type-check: ' + r.stderr[-3000:])
    return out


def main():
    if sys.argv[1:2] == ['--setup']:
        os.unlink(dump(build_driver()))
        return 0
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else 'quick')
    t0 = time.time()
    known = load_known()
    import lib
    mod = importlib.import_module(pid.lower())
    mir = os.environ.get('VERIF_MIR')
    own = mir is None
    if getattr(mod, 'OWN_DUMP', False):
        prog = lib.Prog(os.devnull)     # the check compiles what it analyses itself
    else:
        if own:
            mir = dump(build_driver())
        try:
            prog = lib.Prog(mir)
        finally:
            if own:
                os.unlink(mir)
    ctx = lib.Ctx(prog)
    ctx.tier = tier
    ctx.section('whole check', mod.run_check, ctx)
    bad = [o for o in ctx.obs if o[1] == lib.BAD]
    und = [o for o in ctx.obs if o[1] == lib.UND]
    good = [o for o in ctx.obs if o[1] == lib.OK]
    if not ctx.obs:
        bad = [('analysis', lib.BAD, 'no obligation was generated', '')]
    kf = [k for k in known if k['property'] == pid]
    new = []
    for b in bad:
        m = [k for k in kf if k['obligation'] == b[0]]
        if m:
            print('KNOWN-FINDING: property=%s %s' % (pid, m[0]['what']))
        else:
            new.append(b)
    wall = time.time() - t0
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '0') or 0), 'level': 'other', 'wall_s': round(wall, 1),
        'coverage': {
            'explanation': (mod.__doc__ or '').strip() + ' Every obligation is decided on the MIR of /repo\'s working tree by trace-partitioned abstract interpretation; '
                           'undecided obligations are listed and claim nothing.',
            'obligations': len(ctx.obs), 'discharged': len(good), 'undecided': len(und), 'traces': ctx.paths,
            'functions_analysed': len(ctx.reach), 'public_functions_in_crate': sum(1 for r in prog.roots if r['eff_pub']),
            'rule': getattr(mod, 'RULE', ''),
            'decided': [o[0] for o in good][:600],
            'undecided_list': [[o[0], o[2][:300]] for o in und][:300],
        },
        'assumptions': ctx.assumptions,
        'violations': [{'obligation': b[0], 'detail': b[2][:600], 'where': b[3]} for b in new],
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if not os.environ.get('VERIF_NOEVIDENCE'):
        json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d undecided, %d violated; %d traces, %d functions, %.1fs' % (pid, len(ctx.obs), len(good), len(und), len(bad), ctx.paths, len(ctx.reach), wall))
    if os.environ.get('VERIF_VERBOSE'):
        for o in und:
            print('  undecided:', o[0], '|', o[2][:200])
    if new:
        rp = os.path.join(HERE, 'evidence', pid + '.violation.txt')
        with open(rp, 'w') as f:
            for b in new:
                f.write('%s\n  at %s\n  %s\n' % (b[0], b[3], b[2]))
        for b in new:
            print('  %s\n    at %s\n    %s' % (b[0], b[3], b[2][:500]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


def load_known():
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                out.append(json.loads(l))
    return [k for k in out if k.get('status') == 'known']


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException as e:
        traceback.print_exc(limit=-4)
        print('analysis did not complete: %s' % e)
        pid = sys.argv[1] if len(sys.argv) > 1 else '?'
        print('VIOLATION property=%s replay=%s' % (pid, os.path.join(HERE, 'check.py')))
        rc = 1
    sys.exit(rc)
