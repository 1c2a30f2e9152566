"""Meaning of canonical patterns: the list of components, each unconstrained ('any',), equal to an
earlier component ('same', i) or given ('given', value); read off the public variant names."""
import re
from lib import *

POS = ['Subject', 'Predicate', 'Object', 'Graph']
TOP = re.compile(r'^Canonical(Triple|Quad)Pattern$')
NEST = re.compile(r'^(Any|Given)Subject(?:(Any|Given)Predicate(?:(Any|Given)Object)?)?$')
ONE = re.compile(r'^Pattern(Subject|Predicate|Object|Graph)$')


def prefix(name):
    """known classes of the components before the ones described by the type, or None"""
    if name is None:
        return None
    if TOP.match(name):
        return []
    m = NEST.match(name)
    if m:
        return [g for g in m.groups() if g]
    return None


def variant_part(var, f):
    if var.startswith('Any'):
        return ('any',)
    m = re.match(r'^SameAs(\w+)$', var)
    if m:
        return ('same', POS.index(m.group(1)))
    if var.startswith('Given'):
        return ('given', f[0])
    raise Unsupported('pattern variant ' + var)


def parts(eng, st, v):
    """components described by a (nested) canonical pattern value"""
    out = []
    for _ in range(5):
        v = opened(eng, st, v)
        if v.__class__ not in (Agg, X):
            raise Unsupported('pattern %r' % v)
        n, var, f = head(eng, v)
        p = variant_part(var, f)
        out.append(p)
        rest = f[1:] if p[0] == 'given' else f
        if not rest:
            return out
        v = rest[0]
    raise Unsupported('pattern too deep')


def one(eng, st, v):
    v = opened(eng, st, v)
    n, var, f = head(eng, v)
    return variant_part(var, f)


def part_same(eng, st, a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 'same':
        return a[1] == b[1]
    if a[0] == 'given':
        return same(eng, st, a[1], b[1])
    return True


def parts_same(eng, st, a, b):
    return len(a) == len(b) and all(part_same(eng, st, x, y) for x, y in zip(a, b))


def showp(eng, st, ps):
    return '[' + ', '.join(p[0] + ('(%s)' % (POS[p[1]] if p[0] == 'same' else show(eng, st, p[1])) if len(p) > 1 else '') for p in ps) + ']'


def same_as(eng, env, s, got, want):
    if not parts_same(eng, s, got, want):
        return 'describes %s, expected %s' % (showp(eng, s, got), showp(eng, s, want))


def pattern_roots(ctx):
    for r in ctx.p.roots:
        if r['eff_pub'] and r['file'].endswith('.rs') and r['bself'] and (prefix(r['bself']) is not None or ONE.match(r['bself']) or r['bself'] == 'ResourceOrVar'):
            yield r


def is_quad(r, eng, ctx):
    return 'quad' in r['path'] or 'Quad' in r['path']


# ------------------------------------------------------------------ specifications
def from_spec(r, eng):
    """expected components for the constructors; None when the function is not one"""
    pre = prefix(r['bself'])
    name = r['name']

    def opt(e, v):
        c, f = e.case(v)
        return ('given', f[0]) if c == 'Some' else ('any',)

    def rov(e, st, comps, v, graph):
        """comps: ('var', x) | None per earlier position; appends and returns the part"""
        if graph:
            c, f = e.case(v)
            if c == 'None':
                return ('given', NONE)
            v = f[0]
        c, f = e.case(v)
        if c == 'Resource':
            comps.append(None)
            return ('given', some(f[0]) if graph else f[0])
        for j, x in enumerate(comps):
            if x is not None and content_eq(eng, st, x[1], f[0]):
                comps.append(None)
                return ('same', j)
        comps.append(('var', f[0]))
        return ('any',)

    def pattern(fields):
        def want(e, st):
            comps = []
            vals = fields(e)
            i = 0
            for k in pre:
                if k == 'Any':
                    comps.append(('var', vals[i]))
                    i += 1
                else:
                    comps.append(None)
            out = []
            for v in vals[i:]:
                g = len(comps) == 3
                out.append(rov(e, st, comps, v, g))
            return out
        return want

    def args(e):
        return [e.a(i) for i in range(len(e.args))]

    top = pre == []
    quad = r['bself'] == 'CanonicalQuadPattern' or '::quad::' in r['path']
    f3 = lambda e: [e.f(e.a(0), i) for i in range(3)]
    f4 = lambda e: [e.f(e.a(0), i) for i in range(4)]
    from_triple = lambda e, st: [('given', x) for x in f3(e)] + ([('any',)] if quad else [])
    from_quad = lambda e, st: [('given', x) for x in f4(e)]
    from_ot = lambda e, st: [opt(e, x) for x in f3(e)] + ([('any',)] if quad else [])
    from_oq = lambda e, st: [opt(e, x) for x in f4(e)]
    if name == 'from_triple' and top:
        return from_triple
    if name == 'from_quad' and top:
        return from_quad
    if name == 'from_option_triple' and top:
        return from_ot
    if name == 'from_option_quad' and top:
        return from_oq
    if name in ('from_option_triple', 'from_option_quad', 'from_option') and not top:
        return lambda e, st: [opt(e, x) for x in args(e)]
    if name == 'from_triple_pattern' and top:
        return pattern(f3)
    if name == 'from_pattern':
        return pattern((f4 if quad else f3) if top else args)
    if name == 'from' and top:
        t = r['ntrait']
        m = re.match(r'^From<(Triple|Quad)<(.*)>>$', t)
        if not m:
            return None
        first = m.group(2)
        three = m.group(1) == 'Triple'
        if first.startswith('ResourceOrVar'):
            return pattern(f3 if three else f4)
        if first.startswith('Option'):
            return from_ot if three else from_oq
        return from_triple if three else from_quad
    return None


def substitute(ps, k, start, v):
    """components after giving component k the value v; None when bound outside"""
    def rep(i):
        p = ps[i - start]
        return p[1] if p[0] == 'same' else i
    if ps[k - start][0] == 'given':
        cls = {k}
    else:
        c = rep(k)
        if c < start:
            return None
        cls = {i for i in range(start, start + len(ps)) if ps[i - start][0] != 'given' and rep(i) == c}
    return [('given', v) if i in cls else ps[i - start] for i in range(start, start + len(ps))]


def check_pattern_fn(ctx, eng, r, groups):
    """returns True when the function falls in one of the groups and was checked"""
    pre = prefix(r['bself'])
    name = r['name']
    if r['btrait'] not in (None, 'From', 'Clone'):
        return False
    label = '%s::%s' % (('quad ' if '::quad::' in r['path'] else 'triple ') + r['nself'] if r['bself'] != 'ResourceOrVar' else r['nself'], name)
    quad = '::quad::' in r['path'] or 'Quad' in r['path']
    acc = 'quad' if quad else 'triple'

    def go(post, group):
        if group not in groups:
            return False
        check_fn(ctx, eng, r, None, label=label, post=post)
        return True

    if r['bself'] == 'ResourceOrVar':
        if 'triple' not in groups:
            return False

        def rov(e):
            if name == 'as_ref' or name == 'clone':
                return e.a(0)
            if name == 'from':
                return X('ResourceOrVar', 'Resource', e.a(0))
            c, f = e.case(e.a(0))
            if name == 'map':
                return X('ResourceOrVar', 'Resource', e.call(e.a(1), f[0])) if c == 'Resource' else X('ResourceOrVar', 'Var', f[0])
            if name == 'is_id_or':
                return 1 if c == 'Resource' else e.call(e.a(1), f[0])
        if name in ('as_ref', 'from', 'map', 'is_id_or', 'clone'):
            check_fn(ctx, eng, r, rov)
            return True
        return False

    if ONE.match(r['bself']):
        if acc not in groups:
            return False
        if name in ('id', 'into_id'):
            def want(e):
                p = one(eng, e.st, e.a(0))
                return some(p[1]) if p[0] == 'given' else NONE
            check_fn(ctx, eng, r, want, label=label)
            return True
        if name in ('cloned', 'clone', 'as_ref'):
            def post(env, s, o):
                return same_as(eng, env, s, [one(eng, s, o.val)], [one(eng, s, env.a(0))])
            return go(post, acc)
        if name == 'filter_triple':
            def want(e):
                p = one(eng, e.st, e.a(0))
                t = e.a(1)
                k = POS.index(ONE.match(r['bself']).group(1))
                x = e.f(t, k)
                if p[0] == 'any':
                    return 1
                return int(content_eq(eng, e.st, x, e.f(t, p[1]) if p[0] == 'same' else p[1]))
            check_fn(ctx, eng, r, want, label=label)
            return True
        return False

    if pre is None:
        return False
    start = len(pre)

    if name.startswith('from'):
        want = from_spec(r, eng)
        if want is None:
            return False

        def post(env, s, o):
            w = want(env, s)
            got = parts(eng, s, o.val)
            return same_as(eng, env, s, got[:len(w)], w)
        return go(post, 'from')

    m = re.match(r'^(into_)?(subject|predicate|object|graph)$', name)
    if m:
        k = [p.lower() for p in POS].index(m.group(2))

        def post(env, s, o):
            return same_as(eng, env, s, [one(eng, s, o.val)], [parts(eng, s, env.a(0))[k - start]])
        return go(post, acc)
    if name == 'as_given':
        def want(e):
            p = parts(eng, e.st, e.a(0))[0]
            return some(p[1]) if p[0] == 'given' else NONE
        if acc in groups:
            check_fn(ctx, eng, r, want, label=label)
            return True
        return False
    if name in ('as_ref', 'cloned', 'clone'):
        def post(env, s, o):
            return same_as(eng, env, s, parts(eng, s, o.val), parts(eng, s, env.a(0)))
        return go(post, acc)
    if name in ('map', 'map2'):
        def mapped(env, s, ps, proj):
            out = []
            for i, p in enumerate(ps):
                if p[0] == 'given':
                    v = p[1]
                    g = start + i == 3
                    if g:
                        c, f = env.case(v)
                        if c == 'None':
                            out.append(('given', NONE))
                            continue
                        v = f[0]
                    w = env.call(env.a(1), v)
                    if proj is not None:
                        w = env.f(w, proj)
                    p = ('given', some(w) if g else w)
                out.append(p)
            return out

        def post(env, s, o):
            ps = parts(eng, s, env.a(0))
            n = sum(1 for p in ps if p[0] == 'given' and not (len(ps) + start == 4 and p is ps[-1] and env.case(p[1])[0] == 'None'))
            k = sum(1 for e in s.events if e[0] == 'call')
            if n != k:
                return 'the function is called %d times instead of %d' % (k, n)
            if name == 'map':
                return same_as(eng, env, s, parts(eng, s, o.val), mapped(env, s, ps, None))
            for j in range(2):
                m = same_as(eng, env, s, parts(eng, s, env.f(o.val, j)), mapped(env, s, ps, j))
                if m:
                    return 'result %d %s' % (j, m)
        return go(post, acc)
    if name == 'into_triple':
        def post(env, s, o):
            ps = parts(eng, s, env.a(0))
            return same_as(eng, env, s, parts(eng, s, env.f(o.val, 0)) + [one(eng, s, env.f(o.val, 1))], ps)
        return go(post, acc)
    if name == 'into_parts':
        def post(env, s, o):
            ps = parts(eng, s, env.a(0))
            return same_as(eng, env, s, [one(eng, s, env.f(o.val, j)) for j in range(len(ps))], ps)
        return go(post, acc)
    if name == 'with_any_graph':
        def post(env, s, o):
            return same_as(eng, env, s, parts(eng, s, o.val), parts(eng, s, env.a(0)) + [('any',)])
        return go(post, 'quad')
    m = re.match(r'^(set|with)_(subject|predicate|object)$', name)
    if m:
        k = [p.lower() for p in POS].index(m.group(2))

        def post(env, s, o):
            ps = parts(eng, s, env.a(0))
            w = substitute(ps, k, start, env.a(1))
            got = parts(eng, s, o.val if m.group(1) == 'with' else env.now(0))
            if m.group(1) == 'set' and not part_same(eng, s, one(eng, s, o.val), ps[k - start]):
                return 'returns %s as the previous %s, expected %s' % (showp(eng, s, [one(eng, s, o.val)]), m.group(2), showp(eng, s, [ps[k - start]]))
            if w is None:
                return None
            return same_as(eng, env, s, got, w)
        return go(post, acc)
    return False
