"""Freshness of generated identifiers: from an arbitrary generator state one step returns a text that is an injective function of the
counter and strictly increases the counter without overflow, so no two steps of any history return the same text."""
from lib import *
import text
RULE = 'identifier = fixed text + decimal digits of (count + constant) + fixed text; count grows; prefix is kept; the constant and the fixed texts are the same on every trace'


def step_check(ctx, eng, r, label, get):
    shapes = []

    def post(env, s, o):
        v = get(env, s, o.val)
        if isinstance(v, str):
            return v
        before, after = opened(eng, s, env.a(0)), opened(eng, s, env.now(0))
        return fresh(eng, s, env, v, shapes)
    eng.loop_hook = text.auto_hook()
    check_fn(ctx, eng, r, None, label=label, post=post, panics=True)
    eng.loop_hook = None
    numbering(ctx, r, label, shapes)


def digits(n, radix='d', width=0):
    return format(n, radix).rjust(width, '0')


def joined(ps):
    out = []
    for p in ps:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        else:
            out.append(p)
    return tuple(out)


def numbering(ctx, r, label, shapes):
    """two traces, or two counters on a trace: do they return the same text"""
    if len(set(x[3] for x in shapes)) < 2:
        return
    seen = {}
    for s, base, ps, shape in shapes:
        for n in witnesses([p[1] for p in ps if isinstance(p, tuple) and p[0] == 'dec']):
            if agrees(s, base, n) is not True:
                continue
            text = []
            for p in ps:
                if isinstance(p, tuple) and p[0] == 'dec':
                    v = value(p[1], base, n)
                    p = None if v is None else digits(v, *p[2:])
                text.append(p)
            if None in text:
                continue
            text = joined(text)
            m = seen.setdefault(text, (n, shape))
            if m[0] != n:
                ctx.ob(label + ': one numbering', BAD, 'the same identifier is generated when the counter is %d (%s) and when it is %d (%s)' % (*m, n, shape), ctx.where(r))
                return
    ctx.ob(label + ': one numbering', UND, 'the numbering depends on the trace: ' + ' / '.join(sorted(set(x[3] for x in shapes))), ctx.where(r))


def fields(ctx, eng, s, v, known=()):
    """the generator state as (counter terms, other terms)"""
    v = opened(eng, s, v)
    ints, rest = [], []
    for x in v.f:
        x = s.res(x)
        if x.__class__ is Lin or isinstance(x, int) or (x.__class__ is Sym and (x.ty is not None and eng.p.types[x.ty]['k'] in ('uint', 'int') or x.key in known or x.key[0] in ('overflowed', 'op', 'cast'))):
            ints.append(x)
        else:
            rest.append(x)
    return ints, rest


WITNESS = sorted({0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 19, 20, 21, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 999, 1000, 1001}
                 | {2 ** k + d for k in (8, 9, 16, 17, 31, 32, 33, 48, 63) for d in (-1, 0, 1, 2)} | {2 ** 64 - 1, 2 ** 64 - 2})
BITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128}


def value(t, base, n):
    """the value of a number term when the counter is n, None when it depends on something else"""
    if t == base:
        return n
    if isinstance(t, int):
        return t
    if isinstance(t, Lin):
        x = value(t.sym, base, n)
        return None if x is None else x + t.off
    if not isinstance(t, tuple) or not t:
        return None
    if t[0] == 'c' and isinstance(t[1], int):
        return t[1]
    if t[0] == 'lin' and len(t) == 3:
        x = value(t[1], base, n)
        return None if x is None else x + t[2]
    if t[0] == 'missing':
        x = value(t[1], base, n)
        return None if x is None else int(len(format(x, t[2])) == t[3])
    if t[0] == '+' and len(t) == 3:
        x, y = value(t[1], base, n), value(t[2], base, n)
        return None if x is None or y is None else x + y
    if t[0] == 'cast' and t[1] in BITS:
        x = value(t[2], base, n)
        return None if x is None else x & ((1 << BITS[t[1]]) - 1)
    if t[0] == 'op' and len(t) == 4:
        x, y = value(t[2], base, n), value(t[3], base, n)
        if x is None or y is None:
            return None
        m = 2 ** 64
        try:
            return {'Add': lambda: x + y if x + y < m else None, 'Sub': lambda: x - y if x >= y else None, 'Mul': lambda: x * y if x * y < m else None,
                    'Div': lambda: x // y if y else None, 'Rem': lambda: x % y if y else None, 'BitAnd': lambda: x & y, 'BitOr': lambda: x | y, 'BitXor': lambda: x ^ y,
                    'Shl': lambda: (x << y) % m if y < 64 else None, 'Shr': lambda: x >> y if y < 64 else None}[t[1]]()
        except KeyError:
            return None
    return None


def inside(t, base):
    return t == base or (isinstance(t, tuple) and any(inside(x, base) for x in t)) or (isinstance(t, Lin) and inside(t.sym, base))


def constants(t):
    if isinstance(t, tuple) and t and ((len(t) == 2 and t[0] == 'c') or (len(t) == 3 and t[0] == 'lin')) and isinstance(t[-1], int):
        return {abs(t[-1])}
    return set().union(*(constants(x) for x in t)) if isinstance(t, tuple) and t else set()


def agrees(s, base, n):
    """can the trace be followed with the counter at n; None when it hangs on something not computed"""
    ok = True
    for (a, b), c in s.zone.items():
        if inside(a, base) or inside(b, base):
            x = 0 if a is None else value(a, base, n)
            y = 0 if b is None else value(b, base, n)
            if x is None or y is None:
                ok = None if ok else ok
            elif x - y > c:
                return False
    for k, v in s.bind.items():
        if k != base and k[0] in ('op', 'cast', '+', 'lin', 'missing') and inside(k, base):
            x = value(k, base, n)
            if x is None or not isinstance(v, int):
                ok = None if ok else ok
            elif x != v:
                return False
    for k, v in s.uf.items():
        if (k[0] in ('op', 'cast', '+', 'lin', 'missing') and inside(k, base)):
            x, y = value(k, base, n), value(v, base, n)
            if x is None or y is None:
                ok = None if ok else ok
            elif x != y:
                return False
    for k, v in s.rng.items():
        if inside(k, base) and k[0] in ('op', 'cast', '+', 'lin', 'missing'):
            x = value(k, base, n)
            if x is None:
                ok = None if ok else ok
            elif not any(lo <= x <= hi for lo, hi in v):
                return False
    return ok


def witnesses(ts):
    ns = set(WITNESS)
    for t in ts:
        for c in constants(t):
            ns |= {x for x in (c - 1, c, c + 1, 2 * c, 2 * c + 1) if 0 <= x < 2 ** 64}
    return sorted(ns)


def repeated(s, base, ts):
    """two counters on the same trace at which all the printed numbers are equal"""
    seen = {}
    for n in witnesses(ts):
        if agrees(s, base, n) is not True:
            continue
        v = tuple(value(t, base, n) for t in ts)
        if None in v:
            continue
        if v in seen:
            return seen[v], n
        seen[v] = n
    return None


def fresh(eng, s, env, idv, shapes):
    for e in s.events:
        if e[0] == 'unchecked' and 'Add' in e[2]:
            return 'the counter is increased by an addition that wraps around in builds without overflow checks'
    old = env.a(0)
    a = ('*', strip_ref(env.args[0]))
    oi, orest = fields(None, eng, s, Sym(a, eng.p.types[env.args[0].ty]['to']))
    ni, nrest = fields(None, eng, s, env.now(0), [x.key for x in oi if x.__class__ is Sym])
    if len(oi) != 1 or len(ni) != 1:
        raise Unsupported('generator state')
    if not all(same(eng, s, x, y) for x, y in zip(orest, nrest)):
        return 'generation changes the prefix'
    c0 = oi[0]
    base = eng.term(s, c0)
    if ni[0].__class__ is Sym and ni[0].key[0] == 'overflowed':
        return 'the counter does not grow: %s starts over or stays at the greatest value' % short(ni[0].key[1])
    ps = text.parts_of(eng, s, idv)
    shape, nums, odd = [], [], False
    for p in ps:
        if not isinstance(p, str) and p.key[0] == 'dec':
            t = p.key[1]
            off = offset(t, base)
            odd = odd or off is None
            nums.append(t)
            shape.append('#%s%s' % (''.join(map(str, p.key[2:])), '%+d' % off if off is not None else kstr(t)))
        else:
            shape.append(repr(p) if isinstance(p, str) else kstr(eng.term(s, p)))
            odd = odd or (not isinstance(p, str) and inside(p.key, base))
    if not nums and not odd:
        return 'the identifier does not depend on the counter: every call returns the same one'
    if s.try_int('lt', c0, ni[0]) is not True:
        n = new_low(s, base, eng.term(s, ni[0]))
        if n is not None or not inside(eng.term(s, ni[0]), base) or offset(eng.term(s, ni[0]), base) is not None:
            return 'the counter does not grow: it goes from n to %s%s' % (show(eng, s, ni[0]), '' if n is None else ' (with n = %d)' % n)
        raise Unsupported('counter %s' % show(eng, s, ni[0]))
    key = [p if isinstance(p, str) else eng.term(s, p) if p.key[0] != 'dec' else p.key for p in ps]
    shapes.append((s, base, key, ' '.join(shape)))
    if odd or len(nums) != 1:
        rest = [p for p in ps if not isinstance(p, str) and p.key[0] != 'dec' and inside(p.key, base)]
        hit = None if rest else repeated(s, base, nums)
        if hit is not None:
            return 'the same identifier is generated when the counter is %d and when it is %d: %s' % (*hit, ' '.join(shape))
        raise Unsupported('number in %s' % ' '.join(shape))


def new_low(s, base, t):
    for n in WITNESS:
        if agrees(s, base, n) is True:
            v = value(t, base, n)
            if v is not None and v <= n:
                return n
    return None


def strip_ref(a):
    return a.key


def offset(t, base):
    if t == base:
        return 0
    if isinstance(t, tuple) and len(t) == 3 and t[0] == '+' and t[1] == base:
        return t[2]
    if isinstance(t, tuple) and len(t) == 3 and t[0] == 'lin' and t[1] == base:
        return t[2]
    if isinstance(t, Lin) and t.sym == base:
        return t.off
    return None


def run_check(ctx):
    eng = ctx.engine()
    eng.unroll = 120
    for r in ctx.need('Blank', 'next_blank_id'):
        step_check(ctx, eng, r, 'Blank::next_blank_id', lambda e, s, v: v)
    for r in ctx.need('Blank', 'next_local_term', trait='LocalGenerator'):
        def get(e, s, v):
            v = opened(eng, s, v)
            n, var, f = head(eng, v)
            if var != 'Anonymous':
                return 'the generated term is not a blank node'
            return f[0]
        step_check(ctx, eng, r, 'Blank as LocalGenerator', get)
    # construction and observation of the state
    B = lambda p, n: X('Blank', 'Blank', p, n)
    empty = Text(())
    for r in ctx.need('Blank', 'new'):
        check_fn(ctx, eng, r, lambda e: B(empty, 0))
    for r in ctx.need('Blank', 'default', trait='Default'):
        check_fn(ctx, eng, r, lambda e: B(empty, 0))
    for r in ctx.need('Blank', 'new_with_offset'):
        check_fn(ctx, eng, r, lambda e: B(empty, e.a(0)))
    for r in ctx.need('Blank', 'new_with_prefix'):
        check_fn(ctx, eng, r, lambda e: B(e.a(0), 0))
    for r in ctx.need('Blank', 'new_full'):
        check_fn(ctx, eng, r, lambda e: B(e.a(0), e.a(1)))
    for r in ctx.need('Blank', 'prefix'):
        check_fn(ctx, eng, r, lambda e: e.f(e.a(0), 0))
    for r in ctx.need('Blank', 'count'):
        check_fn(ctx, eng, r, lambda e: e.f(e.a(0), 1))
    # borrowed and shared generators continue the same sequence
    for tr, m in (('Generator', 'next_term'), ('LocalGenerator', 'next_local_term')):
        for r in ctx.need('&mut G', m, trait=tr):
            delegate(ctx, eng, r, m)
    for r in ctx.need('LocalGeneratorInterpretation', 'new_resource', trait='ConstGenerativeInterpretation'):
        delegate(ctx, eng, r, 'next_local_term', calls=1)
    for r in ctx.need('LocalGeneratorInterpretation', 'new'):
        check_fn(ctx, eng, r, lambda e: X('LocalGeneratorInterpretation', 'LocalGeneratorInterpretation', models.Cell(e.a(0))))
    for r in ctx.need('LocalGeneratorInterpretation', 'into_generator'):
        check_fn(ctx, eng, r, lambda e: Sym(('cell', e.eng.term(e.st, e.f(e.a(0), 0)))))


def delegate(ctx, eng, r, m, calls=1):
    """the function is one call of method m on the generator it was given, and returns its answer"""
    def post(env, s, o):
        ev = [e for e in s.events if short(e[0]) == m]
        if len(ev) != calls:
            return 'calls %s %d times instead of once' % (m, len(ev))
        k = ('app', ev[0][0]) + tuple(ev[0][1])
        if eng.term(s, strip(eng, s, o.val)) != eng.term(s, Sym(k)):
            return 'returns %s instead of the generated term' % show(eng, s, o.val)
    check_fn(ctx, eng, r, None, post=post, panics=True)
