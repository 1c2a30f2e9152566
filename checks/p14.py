"""Triple and quad operations act on the component they name and keep every other component."""
from lib import *
import text
RULE = 'result content equals the component-wise specification on every trace'

C3 = ['subject', 'predicate', 'object']
C4 = C3 + ['graph']


def run_check(ctx):
    eng = ctx.engine()

    def spec(bself, name, expect, post=None, ntrait=None):
        for r in ctx.need(bself, name, ntrait=ntrait):
            check_fn(ctx, eng, r, expect, post=post)

    def calls(n, C=C4):
        def post(env, s, o):
            k = sum(1 for e in s.events if e[0] == 'call')
            want = n(env) if callable(n) else n
            if k != want:
                return 'the mapping function is called %d times instead of %d' % (k, want)
            seen = []
            for ev in s.events:
                if ev[0] == 'call':
                    js = [j for j in range(len(C)) if ckey((eng.term(s, env.f(env.a(0), j)),)) == ckey(ev[1][1:2])]
                    seen.append(js[0] if js else len(C) - 1)
            if seen != sorted(seen):
                return 'the components are mapped in the order %s' % ', '.join(C[j] for j in seen)
        return post

    for T, C in (('Triple', C3), ('Quad', C4)):
        mk = lambda *f, T=T: X(T, T, *f)
        N = len(C)
        spec(T, 'new', lambda e: mk(*[e.a(i) for i in range(N)]))
        for i, c in enumerate(C):
            spec(T, c, lambda e: e.f(e.a(0), i))
            spec(T, 'into_' + c, lambda e: e.f(e.a(0), i))
            if c != 'graph':
                spec(T, c + '_mut', None, post=lens(lambda e, v: e.f(v, i)))
            spec(T, 'map_' + c, lambda e: mk(*[e.call(e.a(1), e.f(e.a(0), j)) if j == i else e.f(e.a(0), j) for j in range(N)]), post=calls(1, C))
        spec(T, 'into_parts', lambda e: tup(*[e.f(e.a(0), j) for j in range(N)]))
        spec(T, 'as_ref', lambda e: e.a(0))
        for m in ('cloned', 'into_cloned', 'copied', 'into_copied'):
            spec(T, m, lambda e: e.a(0))
        for r in ctx.find(T, 'clone', trait='Clone', pub=False):
            check_fn(ctx, eng, r, lambda e: e.a(0))
    spec('Triple', 'into_quad', lambda e: X('Quad', 'Quad', e.f(e.a(0), 0), e.f(e.a(0), 1), e.f(e.a(0), 2), e.a(1)))
    spec('Triple', 'map', lambda e: X('Triple', 'Triple', *[e.call(e.a(1), e.f(e.a(0), j)) for j in range(3)]), post=calls(3, C3))
    spec('Quad', 'borrow_components', lambda e: e.a(0))
    spec('Quad', 'into_triple', lambda e: tup(X('Triple', 'Triple', e.f(e.a(0), 0), e.f(e.a(0), 1), e.f(e.a(0), 2)), e.f(e.a(0), 3)))
    spec('Quad', 'with_graph', lambda e: X('Quad', 'Quad', e.f(e.a(0), 0), e.f(e.a(0), 1), e.f(e.a(0), 2), e.a(1)))
    spec('Quad', 'map_all', lambda e: X('Quad', 'Quad', *[e.call(e.a(1 + j), e.f(e.a(0), j)) for j in range(4)]), post=calls(4))

    def qmap(e):
        c, f = e.case(e.f(e.a(0), 3))
        g = some(e.call(e.a(1), f[0])) if c == 'Some' else NONE
        return X('Quad', 'Quad', *[e.call(e.a(1), e.f(e.a(0), j)) for j in range(3)], g)
    spec('Quad', 'map', qmap, post=calls(lambda e: 4 if e.case(e.f(e.a(0), 3))[0] == 'Some' else 3))

    # mutable view of the graph
    def graph_mut(env, s, o):
        v = opened(eng, s, o.val)
        n, var, f = head(eng, v)
        g = opened(eng, s, env.f(env.now(0), 3))
        if head(eng, g)[1] != var:
            return 'graph_mut is %s on a quad whose graph is %s' % (var, head(eng, g)[1])
        if var == 'Some':
            before = opened(eng, s, env.now(0))
            if not same(eng, s, f[0], g.f[0]):
                return 'graph_mut shows another component'
            probe = Sym(('probe', 1))
            eng.store(s, f[0], probe)
            if not same(eng, s, env.f(env.now(0), 3), some(probe)):
                return 'a write through graph_mut does not reach the graph'
            after = opened(eng, s, env.now(0))
            if not all(same(eng, s, before.f[i], after.f[i]) for i in range(3)):
                return 'a write through graph_mut changes other components'
    spec('Quad', 'graph_mut', None, post=graph_mut)
    ctx.floor('component operations', len(ctx.obs), 50)
