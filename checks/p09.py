"""Every public safe function that returns blank node identifiers is interpreted; at each identifier-typed place of the result
the text must be one that the grammar automaton accepts whatever the inputs are (identifiers received as arguments are valid)."""
from lib import *
import text
RULE = 'every identifier-typed text reachable from a result is an identifier received, or ends in an accepting automaton state on every trace'
BLANK = ('blankid::BlankId', 'blankid::BlankIdBuf')


def mentions(ctx, t, seen=None):
    """can a value of the type own or show a blank node identifier"""
    seen = set() if seen is None else seen
    if t in seen:
        return False
    seen.add(t)
    ty = ctx.p.types.get(t)
    if ty is None:
        return False
    k = ty['k']
    if k in ('ref', 'ptr'):
        return mentions(ctx, ty['to'], seen)
    if k == 'adt':
        if ty['def'] in BLANK:
            return True
        if any(mentions(ctx, g, seen) for g in ty.get('ga', ())):
            return True
        return any(mentions(ctx, f[1], seen) for v in ty.get('v', ()) for f in v.get('f', ()))
    if k == 'tuple':
        return any(mentions(ctx, f, seen) for f in ty['f'])
    return False


def walk(ctx, eng, s, v, t, d=0):
    """-> message when an identifier-typed place may hold an invalid text"""
    ty = ctx.p.types.get(t)
    if ty is None or d > 12 or not mentions(ctx, t):
        return None
    k = ty['k']
    v = s.res(v)
    if k in ('ref', 'ptr'):
        if v.__class__ is Sym and v.ty == t:
            return None
        return walk(ctx, eng, s, eng.load(s, v), ty['to'], d + 1)
    if k == 'adt' and ty['def'] in BLANK:
        ps = text.parts_of(eng, s, v)
        acc = text.acceptance(eng, s, v)
        if acc != {True}:
            return 'an identifier may hold the text %s' % ' + '.join(repr(p) if isinstance(p, str) else show(eng, s, p) for p in ps)
        return None
    if k == 'adt' and ty['def'].endswith('boxed::Box'):
        return walk(ctx, eng, s, eng.load(s, v), ty['ga'][0], d + 1)
    if k in ('adt', 'tuple'):
        if v.__class__ is Sym:
            if v.ty == t or v.ty is None:
                return None     # received whole under that type
        if v.__class__ is not Agg:
            return None
        vt = ctx.p.types[v.ty] if v.ty is not None else ty
        fts = vt['f'] if vt['k'] == 'tuple' else [f[1] for f in vt['v'][v.var]['f']]
        for x, ft in zip(v.f, fts):
            m = walk(ctx, eng, s, x, ft, d + 1)
            if m:
                return m
    return None


def run_check(ctx):
    eng = ctx.engine()
    eng.unroll = 120
    n = 0
    for r in ctx.p.roots:
        visitor = r['btrait'] == 'Visitor' and 'BlankId' in r['path']
        if r['unsafe'] or not (r['eff_pub'] or visitor):
            continue
        b = ctx.p.insts[r['root']].get('body')
        if b is None or not mentions(ctx, b['locals'][0]):
            continue
        if not any(x in r['path'] + str(r['nself']) for x in ('lank', 'Id', 'Term', 'Quad', 'Triple')):
            continue
        n += 1
        eng.loop_hook = text.auto_hook()

        def post(env, s, o, t=b['locals'][0]):
            return walk(ctx, eng, s, o.val, t)
        check_fn(ctx, eng, r, None, label='identifiers from %s::%s' % (r['nself'] or '', r['name']), post=post, panics=True)
    eng.loop_hook = None
    ctx.floor('functions returning identifiers', n, 40)
    # what an identifier shows
    for r in ctx.need('BlankId', 'as_str'):
        check_fn(ctx, eng, r, lambda e: e.a(0))
    for r in ctx.need('BlankId', 'suffix'):
        check_fn(ctx, eng, r, lambda e: Sym(('sub', strip(e.eng, e.st, e.a(0)).key, 2)))
    for w in ('u8', 'u16', 'u32', 'u64'):
        for r in ctx.need('BlankIdBuf', 'from_' + w):
            check_fn(ctx, eng, r, lambda e: Text(('_:', Sym(('dec', e.eng.term(e.st, e.a(0)))))))
    # an identifier made from a suffix has that suffix
    for r in ctx.need('BlankIdBuf', 'from_suffix'):
        def post(env, s, o):
            v = s.res(o.val)
            n, var, f = head(env.eng, v)
            if var == 'Err':
                return None
            want = text.parts_of(env.eng, s, Text(('_:', env.a(0))))
            got = text.parts_of(env.eng, s, f[0])
            if key(env.eng, s, want) != key(env.eng, s, got):
                return 'the identifier is %s instead of "_:" and the suffix given' % ' + '.join(repr(p) if isinstance(p, str) else show(env.eng, s, p) for p in got)
        eng.loop_hook = text.auto_hook()
        check_fn(ctx, eng, r, None, label='BlankIdBuf::from_suffix keeps the suffix', post=post, panics=True)
        eng.loop_hook = None


def key(eng, s, ps):
    out = []
    for p in ps:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        else:
            out.append(p if isinstance(p, str) else eng.term(s, p))
    return out
