"""The statement macros build the statement that is written.  A witness crate that uses every macro with every kind of component in
every position is type-checked against /repo's working tree; the compiler's MIR of each use, expansion and called functions included,
is interpreted and its result compared with the statement written.  Texts that are not statements have to be refused by the compiler."""
from lib import *
import text
import check
import json, os, re, shutil, subprocess, hashlib

RULE = ('every witness expands, type-checks and evaluates to the statement (or the statements, in order) written, components in the places '
        'where they are written; every text that is not a statement is refused')

ASSUME = ['macro_rules handles each component whatever the texts of its literals, so that a kind of component in a position stands for all components of that kind',
          'Iri::new_unchecked keeps the text it is given (iref); iri! refuses texts that are not IRIs (iref)']
OWN_DUMP = True
W = os.path.join(check.CACHE, 'witness')
RES = 'rdf_types::pattern::ResourceOrVar<LocalTerm, u32>'
XSD = 'http://www.w3.org/2001/XMLSchema#string'


def txt(t):
    return Text([t.replace('\\"', '"').replace('\\n', '\n')] if t else [])


class Comp:
    """a component: source text, parameter, expected value"""
    def __init__(self, kind, n):
        self.kind, self.n = kind, n
        t = 'k%d' % n
        # texts that look like something else
        lex = (t, 'http://e.org/' + t, '', t + ' \\"x\\"', '_:' + t, 'true', '42', ' ' + t, t.upper() + ' ', '?' + t, '\\n')[n * 5 % 11]
        self.param = None
        if kind == 'iri':
            iri = ('http://e.org/' + t, 'HTTP://E.org/%s#' % t, 'urn:x:%s' % t, 'http://e.org/a/../%s?q=%%20' % t)[n % 4]
            self.src = '<"%s">' % iri
            self.val = X('LocalTerm', 'Named', X('Term', 'Iri', Text([iri])))
        elif kind == 'blank':
            label = (t, t.upper(), '0.' + t, '_:' + t, t + '-')[n % 5]
            self.src = '_:"%s"' % label
            self.val = X('LocalTerm', 'Anonymous', Text(['_:' + label]))
        elif kind == 'typed':
            ty = ('http://t.org/' + t, 'http://T.org/%s/' % t, XSD)[n % 3]
            self.src = '"%s"^^"%s"' % (lex, ty)
            self.val = X('LocalTerm', 'Named', X('Term', 'Literal', X('Literal', 'Literal', txt(lex), X('LiteralType', 'Any', Text([ty])))))
        elif kind == 'plain':
            self.src = '"%s"' % lex
            self.val = X('LocalTerm', 'Named', X('Term', 'Literal', X('Literal', 'Literal', txt(lex), X('LiteralType', 'Any', Text([XSD])))))
        elif kind == 'var':
            self.src, self.param = '?v%d' % n, ('v%d' % n, 'u32')
            self.val = None
        else:
            ty = {'ident': 'LocalTerm', 'id-iri': 'IriBuf', 'id-blank': 'BlankIdBuf', 'id-literal': 'Literal', 'id-term': 'Term'}[kind]
            self.src, self.param = 'v%d' % n, ('v%d' % n, ty)
            self.val = None

    def expected(self, args):
        if self.val is not None:
            return self.val
        a = args['v%d' % self.n]
        return {'ident': lambda: a, 'var': lambda: a,
                'id-iri': lambda: X('LocalTerm', 'Named', X('Term', 'Iri', a)),
                'id-blank': lambda: X('LocalTerm', 'Anonymous', a),
                'id-literal': lambda: X('LocalTerm', 'Named', X('Term', 'Literal', a)),
                'id-term': lambda: X('LocalTerm', 'Named', a)}[self.kind]()


class Witness:
    def __init__(self, macro, stmts, text=None):
        self.macro = macro
        self.stmts = stmts        # lists of Comp
        self.text = text
        self.list = macro.endswith('s')
        self.pattern = 'pattern' in macro
        self.error = None

    def source(self, name):
        ps = [c.param for s in self.stmts for c in s if c.param]
        body = self.text if self.text is not None else ' '.join(' '.join(c.src for c in s) + (' .' if self.list else '') for s in self.stmts)
        ty = 'Quad' if 'quad' in self.macro else 'Triple'
        if self.pattern:
            ty += '<%s>' % RES
        if self.list:
            ty = '[%s; %d]' % (ty, len(self.stmts))
        self.shown = '%s![%s]' % (self.macro, body)
        if self.list and self.text is not None:
            # however many statements are built: only the text itself may be what the compiler objects to
            return 'pub fn %s() { fn any<const N: usize>(_: [%s; N]) {} any(rdf_types::%s![%s]) }' % (name, 'Quad' if 'quad' in self.macro else 'Triple', self.macro, body)
        return 'pub fn %s(%s) -> %s { rdf_types::%s![%s] }' % (name, ', '.join('%s: %s' % p for p in ps), ty, self.macro, body)


def rows(kinds, n, full):
    """combinations of kinds over n places: all of them, or one for each pair of kinds in each pair of places"""
    k = len(kinds)
    out = []
    if full:
        def rec(p):
            if len(p) == n:
                out.append(tuple(p))
                return
            for x in range(k):
                rec(p + [x])
        rec([])
    else:
        q = k if k in (2, 3, 5, 7) else next(x for x in (3, 5, 7, 11) if x > k)
        seen = set()
        for i in range(q):
            for j in range(q):
                r = tuple(x % k for x in ((i, j, (i + j) % q, (i + 2 * j) % q)[:n]))
                if r not in seen:
                    seen.add(r)
                    out.append(r)
    return [[kinds[x] for x in r] for r in out]


def witnesses(thorough):
    out = []
    kinds = ['ident', 'iri', 'blank', 'typed', 'plain']
    cnt = [0]

    def stmt(ks):
        r = []
        for k in ks:
            cnt[0] += 1
            r.append(Comp(k, cnt[0]))
        return r
    for r in rows(kinds, 3, True):
        out.append(Witness('grdf_triple', [stmt(r)]))
    for r in rows(kinds, 3, thorough):
        out.append(Witness('grdf_quad', [stmt(r)]))
    for r in rows(kinds, 4, thorough):
        out.append(Witness('grdf_quad', [stmt(r)]))
    pk = kinds + ['var']
    for r in rows(pk, 3, thorough):
        out.append(Witness('grdf_quad_pattern', [stmt(r)]))
    for r in rows(pk, 4, thorough):
        out.append(Witness('grdf_quad_pattern', [stmt(r)]))
    # converted identifiers
    for m, n in (('grdf_triple', 3), ('grdf_quad', 4)):
        for r in rows(['id-iri', 'id-blank', 'id-literal', 'id-term'], n, False):
            out.append(Witness(m, [stmt(r)]))
    # lists
    for m, ns in (('grdf_triples', (3,)), ('grdf_quads', (3, 4))):
        out.append(Witness(m, []))
        rs = [r for n in ns for r in rows(kinds, n, False)]
        for i, r in enumerate(rs):
            out.append(Witness(m, [stmt(r)]))
            out.append(Witness(m, [stmt(r), stmt(rs[(i * 7 + 3) % len(rs)])]))
            if i % 5 == 0:
                out.append(Witness(m, [stmt(r), stmt(rs[(i + 11) % len(rs)]), stmt(rs[(i + 4) % len(rs)])]))
    return out


def refused():
    out = []
    for m in ('grdf_triple', 'grdf_quad', 'grdf_quad_pattern'):
        for t in ('_:"a"', '_:"a" <"http://e.org/p">', '', '_:"a" <"http://e.org/p"> "o" _:"g" "h"', '_:"a" <"not an iri"> "o"',
                  '_:"a" <"http://e.org/p"> "o"^^"no type"', '_:"a" <"http://e.org/p"> "o" ;', '_:"a" <"http://e.org/p"> @', '_ <"http://e.org/p"> "o"'):
            out.append(Witness(m, [], t))
    out.append(Witness('grdf_triple', [], '_:"a" <"http://e.org/p"> "o" _:"g"'))
    st = '_:"a" <"http://e.org/p"> "o"'
    for m in ('grdf_triples', 'grdf_quads'):
        for t in ('_:"a" <"http://e.org/p"> .', st, st + ' . "x"', st + ' ; "x" "y" "z" .', '.', st + ' . .', '. ' + st + ' .', st + ' . ' + st,
                  '_:"a" . <"http://e.org/p"> "o" .', st + ' . _:"a" "b" .', st + ' _:"g" "h" .', st + '^^ .', st + '^^"no type" .', '_ <"http://e.org/p"> "o" .'):
            out.append(Witness(m, [], t))
    out.append(Witness('grdf_triples', [], st + ' _:"g" .'))
    out.append(Witness('grdf_triples', [], st + ' . ' + st + ' _:"g" .'))
    # stray tokens: before, inside and after the statement, and between statements
    for x in (',', ';', '|', '=', '&', '#', '!', '-', '()', '=>', '^^', ':', '<', '>', '@'):
        for m in ('grdf_triple', 'grdf_quad', 'grdf_quad_pattern'):
            for t in ('%s ' + st, '_:"a" %s <"http://e.org/p"> "o"', '_:"a" <"http://e.org/p"> %s "o"', st + ' %s', st + ' %s _:"g"', st + ' _:"g" %s'):
                if not (m == 'grdf_triple' and '_:"g"' in t):
                    out.append(Witness(m, [], t % x))
        for m in ('grdf_triples', 'grdf_quads'):
            for t in ('%s ' + st + ' .', '_:"a" %s <"http://e.org/p"> "o" .', st + ' %s .', st + ' . %s', st + ' . %s ' + st + ' .', st + ' %s ' + st + ' .'):
                out.append(Witness(m, [], t % x))
    return out


def crate(name, ws, extra=''):
    d = os.path.join(W, name)
    os.makedirs(os.path.join(d, 'src'), exist_ok=True)
    with open(os.path.join(d, 'Cargo.toml'), 'w') as f:
        f.write('[package]\nname = "%s"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[dependencies]\nrdf-types = { path = "%s" }\niref = "*"\n' % (name, check.REPO))
    lock = os.path.join(check.REPO, 'Cargo.lock')
    if os.path.exists(lock) and not os.path.exists(os.path.join(d, 'Cargo.lock')):
        shutil.copy(lock, os.path.join(d, 'Cargo.lock'))
    lines = ['use rdf_types::*;', 'pub fn zz_types() -> std::fmt::Result { Ok(()) }' + extra]
    for i, w in enumerate(ws):
        lines.append(w.source('w%d' % i))
    with open(os.path.join(d, 'src', 'lib.rs'), 'w') as f:
        f.write('\n'.join(lines) + '\n')
    return d


def compile_crate(d, name, out, drv):
    """-> (return code, {line: message}, stderr)"""
    e = check.env()
    sysroot = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], env=e, capture_output=True, text=True).stdout.strip()
    e.update(LD_LIBRARY_PATH=sysroot + '/lib', RUSTC_WORKSPACE_WRAPPER=drv, VERIF_HOME='rdf_types', VERIF_CRATE=name, VERIF_OUT=out,
             CARGO_TARGET_DIR=os.path.join(W, 'target'), CARGO_INCREMENTAL='0', VERIF_INLINE=check.INLINE, CARGO_NET_OFFLINE='true',
             RUSTFLAGS='-Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=off -Cdebug-assertions=off -Awarnings')
    fp = os.path.join(W, 'target', 'debug', '.fingerprint')
    if os.path.isdir(fp):
        for x in os.listdir(fp):
            if x.startswith(('rdf-types-', name)):
                shutil.rmtree(os.path.join(fp, x), ignore_errors=True)
    r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--message-format=json'], cwd=d, env=e, capture_output=True, text=True)
    errs, other = {}, None
    for l in r.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get('reason') != 'compiler-message' or m['message']['level'] != 'error':
            continue
        mine = m.get('target', {}).get('name', '').replace('-', '_') == name
        ln = None

        def site(s):
            while s.get('expansion') and s['expansion'].get('span'):
                s = s['expansion']['span']
            return s
        if mine:
            for s in m['message']['spans']:
                s = site(s)
                if s['file_name'] == 'src/lib.rs':
                    ln = s['line_start']
                    errs.setdefault(ln, m['message']['message'])
        if not mine or ln is None and m['message']['spans']:
            other = m['message']['message']
    return r.returncode, errs, other, r.stderr


def run_check(ctx0):
    ctx0.assumptions += ASSUME
    drv = check.build_driver()
    shutil.rmtree(os.path.join(W, 'macro_witness'), ignore_errors=True)
    shutil.rmtree(os.path.join(W, 'macro_refused'), ignore_errors=True)
    ws = witnesses(ctx0.tier == 'thorough')
    out = os.path.join(check.CACHE, 'witness-%d.jsonl' % os.getpid())
    live = list(ws)
    where = 'src/macro.rs'
    for rnd in range(4):
        d = crate('macro_witness', live)
        rc, errs, other, err = compile_crate(d, 'macro_witness', out, drv)
        if rc == 0:
            break
        if other or not errs:
            raise RuntimeError('the witness crate does not build: %s' % (other or err[-600:]))
        for i, w in enumerate(live):
            if i + 3 in errs:
                w.error = errs[i + 3]
        if not any(w.error for w in live):
            raise RuntimeError('the witness crate does not build: %r' % errs)
        live = [w for w in live if not w.error]
    else:
        raise RuntimeError('the witness crate does not build')
    for w in ws:
        if w.error:
            ctx0.ob(w.shown, BAD, 'the statement written is refused: %s' % w.error, where)
    try:
        prog = Prog(out)
    finally:
        os.unlink(out)
    ctx = Ctx(prog)
    eng = ctx.engine({'iref::Iri::new_unchecked': lambda eng, st, c: c.args[0], 'iref::Iri::new': m_iri, 'iref::IriBuf::new': m_iri})
    eng.unroll = 200
    by = {r['name']: r for r in prog.roots}
    for i, w in enumerate(live):
        judge_witness(ctx, eng, w, by['w%d' % i])
    eng.loop_hook = None
    ctx0.obs += ctx.obs
    ctx0.paths += ctx.paths
    ctx0.reach |= ctx.reach
    ctx0.section('refused', check_refused, ctx0, drv)
    ctx0.floor('witnesses', len(ws), 300)


def m_iri(eng, st, c):
    """IRI from a text: decided for plain http texts and for texts without a scheme"""
    t = text.const_text(eng, st, c.args[0])
    if t is None:
        raise Unsupported('IRI from an unknown text')
    if re.fullmatch(r'http://[a-z0-9./#-]+', t, re.I):
        return eng.mk(c.dty, 'Ok', c.args[0])
    if ':' not in t or ' ' in t:
        return eng.mk(c.dty, 'Err', Sym(('invalid-iri', t)))
    raise Unsupported('IRI from %r' % t)


def judge_witness(ctx, eng, w, r):
    eng.loop_hook = text.auto_hook()
    outs, args = run(ctx, eng, r)
    names = [c.param[0] for s in w.stmts for c in s if c.param]
    amap = dict(zip(names, args))
    bad = und = None
    n = 0
    for o in outs:
        if o.kind == 'unsup':
            und = o.val
            continue
        if o.kind == 'panic':
            if o.st.imprecise:
                und = 'imprecise panic'
            else:
                bad = 'panics: %s' % o.val
            continue
        try:
            for s, m in refine(o.st, lambda s: compare(eng, s, w, o.val, amap), 2000):
                n += 1
                if m and s.imprecise:
                    und = 'imprecise: %s' % sorted(s.imprecise)[:2]
                elif m:
                    bad = m
        except Unsupported as x:
            und = str(x)
    ctx.ob(w.shown, BAD if bad else UND if und or not n else OK, bad or und or '', 'src/macro.rs')


def compare(eng, st, w, v, amap):
    want = []
    for s in w.stmts:
        cs = [c.expected(amap) for c in s]
        if w.pattern:
            cs = [X('ResourceOrVar', 'Var' if c.kind == 'var' else 'Resource', x) for c, x in zip(s, cs)]
        if 'quad' in w.macro:
            cs = cs[:3] + [some(cs[3]) if len(cs) == 4 else NONE]
        want.append(cs)
    v = st.res(v)
    got = [st.res(x) for x in v.f] if w.list else [v]
    if len(got) != len(want):
        return '%d statements are built instead of %d' % (len(got), len(want))
    for k, (g, cs) in enumerate(zip(got, want)):
        g = opened(eng, st, g)
        for name, a, b in zip(('subject', 'predicate', 'object', 'graph'), g.f, cs):
            if not same(eng, st, a, b):
                return 'the %s of statement %d is %s instead of the one written' % (name, k + 1, show(eng, st, a))
        if len(g.f) != len(cs):
            return 'statement %d has %d components' % (k + 1, len(g.f))
    return None


def check_refused(ctx, drv):
    """texts that are not statements: the compiler has to report an error at each of them"""
    ws = refused()
    out = os.path.join(check.CACHE, 'refused-%d.jsonl' % os.getpid())
    left = list(ws)
    for rnd in range(4):
        d = crate('macro_refused', left)
        rc, errs, other, err = compile_crate(d, 'macro_refused', out, drv)
        if rc == 0:
            break
        new = [w for i, w in enumerate(left) if i + 3 in errs]
        if not new:
            raise RuntimeError('the witness crate does not build: %s' % (other or err[-400:]))
        for w in new:
            w.error = errs[left.index(w) + 3]
        left = [w for w in left if not w.error]
    if os.path.exists(out):
        os.unlink(out)
    for w in ws:
        ctx.ob('refused: ' + w.shown, OK if w.error else BAD, w.error or 'the text is accepted although it is not a statement', 'src/macro.rs')
