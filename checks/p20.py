"""Adapters and default methods: each is interpreted with the operations it stands for left uninterpreted,
and its answer must be the one those operations give, for the pattern that means the question asked."""
from lib import *
from deleg import *
import pat
RULE = 'on every trace the answer is determined by the right operation on the right arguments; patterns passed on mean exactly the question; no element is lost, added or repeated'
ANY = ('any',)


def G(v):
    return ('given', v)


def queries(s, name):
    return [e for e in s.events if isinstance(e[0], str) and short(e[0]) == name]


def res_of(s, e):
    return Sym(('app', e[0]) + tuple(e[1]))


def drawn(s, it, n=0):
    """(variant, payload) of the first element drawn from the iterator symbol"""
    for k, v in list(s.bind.items()):
        if isinstance(k, tuple) and len(k) == 3 and k[0] == 'app' and short(str(k[1])) == 'next' and nterm(k[2]) == nterm(it) and v.__class__ is Agg:
            return ('Some', v.f[0]) if v.f else ('None', None)
    return None, None


def run_check(ctx):
    eng = ctx.engine()

    def at(*suffixes):
        rs = [r for r in ctx.p.roots if any(r['path'].endswith(x) for x in suffixes) and r['eff_pub'] and r['btrait'] is None]
        if len(rs) < 1:
            ctx.ob('anchor ' + suffixes[0], UND, 'public function not found', '')
        return rs

    # ---- iterator adapters
    def adapter(conv):
        def post(env, s, o):
            it = env.f(env.a(0), 0)
            c, f = 'Some', (it,)
            tys = eng.p.types.get(getattr(it, 'ty', None))
            if tys is not None and tys['k'] == 'adt' and short(tys['def']) == 'Option':
                c, f = env.case(it)
            v = opened(eng, s, o.val)
            n, var, g = head(eng, v)
            nx = [e for e in s.events if isinstance(e[0], str) and short(e[0]) == 'next']
            if c == 'None':
                return None if var == 'None' and not nx else 'an absent iterator yields something'
            if len(nx) != 1:
                return 'draws %d elements for one' % len(nx)
            d, x = drawn(s, eng.term(s, f[0]))
            if d is None:
                src = Sym(('app', 'next', eng.term(s, f[0])))
                return None if agree(eng, s, o.val, src) else 'yields %s' % show(eng, s, o.val)
            if d != var:
                return 'yields %s for %s' % (var, d)
            if d == 'Some' and not agree(eng, s, g[0], conv(env, s, x)):
                return 'yields %s for the element %s' % (show(eng, s, g[0]), show(eng, s, x))
        return post
    for r in ctx.need('InfallibleIterator', 'next', trait='Iterator'):
        expect_call(ctx, eng, r, None, post=adapter(lambda e, s, x: ok(x)))
    for r in ctx.need('OptionIterator', 'next', trait='Iterator'):
        expect_call(ctx, eng, r, None, post=adapter(lambda e, s, x: x))
    for r in ctx.need('TripleToQuadIterator', 'next', trait='Iterator'):
        expect_call(ctx, eng, r, None, post=adapter(lambda e, s, x: X('Quad', 'Quad', e.f(x, 0), e.f(x, 1), e.f(x, 2), NONE)))
    for r in ctx.need('TripleToQuadIterator', 'new'):
        expect_call(ctx, eng, r, None, post=lambda env, s, o: None if agree(eng, s, opened(eng, s, o.val).f[0], env.a(0)) else 'wraps another iterator')

    # ---- fallible views
    def wrapped(m):
        def post(env, s, o):
            v = opened(eng, s, o.val)
            args = [env.a(i) for i in range(len(env.args))]
            if not agree(eng, s, v.f[0], A(env, m, *args)):
                return 'wraps %s instead of %s' % (show(eng, s, v.f[0]), m)
        return post
    for tr, m, w in (('FallibleTraversableDataset', 'try_quads', 'quads'), ('FalliblePatternMatchingDataset', 'try_quad_pattern_matching', 'quad_pattern_matching'),
                     ('FallibleTraversableGraph', 'try_triples', 'triples'), ('FalliblePatternMatchingGraph', 'try_triple_pattern_matching', 'triple_pattern_matching')):
        for r in ctx.need('D', m, trait=tr):
            expect_call(ctx, eng, r, None, lambda e: [], post=wrapped(w))
    for r in ctx.need('I', 'try_resources', trait='TraversableFallibleInterpretation'):
        expect_call(ctx, eng, r, None, post=wrapped('resources'))
    for r in ctx.need('I', 'try_new_resource', trait='FallibleGenerativeInterpretation'):
        expect_call(ctx, eng, r, lambda e: ok(A(e, 'new_resource', e.a(0))), lambda e: [A(e, 'new_resource', e.a(0))])
    for tr in ('FallibleDatasetMut', 'FallibleGraphMut'):
        for r in ctx.need('D', 'try_insert', trait=tr):
            expect_call(ctx, eng, r, lambda e: ok(tup()), lambda e: [A(e, 'insert', e.a(0), e.a(1))])

    # ---- questions answered by pattern matching
    def question(op, want, n, fallible=False):
        def post(env, s, o):
            qs = queries(s, op)
            if len(qs) != 1:
                return 'asks %d pattern matching questions' % len(qs)
            e = qs[0]
            if not agree(eng, s, e[2][0], env.a(0)):
                return 'asks another store'
            got = pat.parts(eng, s, e[2][1])
            w = want(env)
            if not pat.parts_same(eng, s, got[:len(w)], w):
                return 'asks for %s instead of %s' % (pat.showp(eng, s, got), pat.showp(eng, s, w))
            d, x = drawn(s, res_of(s, e).key)
            n = [res_of(s, q).key for q in queries(s, 'count') if nterm(q[1][0]) == nterm(res_of(s, e).key)] if d is None and not fallible else []
            if n:
                # the matches are counted: there is one if the count is not zero
                t = int(eng.truth(s, s.res(o.val)))
                z = s.try_int('eq', Sym(n[0]), 0)
                if z is None:
                    return 'answers %s whatever the number of matches' % t
                return None if t == (not z) else 'answers %s when the number of matches is %szero' % (t, '' if z else 'not ')
            if d is None:
                return 'does not look at the answer'
            if not fallible:
                if int(eng.truth(s, s.res(o.val))) != (d == 'Some'):
                    return 'answers %s when the first match is %s' % (show(eng, s, o.val), d)
                return
            v = opened(eng, s, o.val)
            rn, rv, rf = head(eng, v)
            if d == 'None':
                return None if rv == 'Ok' and int(eng.truth(s, s.res(rf[0]))) == 0 else 'answers %s without match' % show(eng, s, o.val)
            c, f = head(eng, opened(eng, s, x))[1:]
            if c == 'Ok':
                return None if rv == 'Ok' and int(eng.truth(s, s.res(rf[0]))) == 1 else 'answers %s with a match' % show(eng, s, o.val)
            return None if rv == 'Err' and agree(eng, s, rf[0], f[0]) else 'answers %s on an error' % show(eng, s, o.val)
        return post
    comps = lambda e, n: [G(e.f(e.a(1), i)) for i in range(n)]
    for T, n, m in (('Triple', 3, 'triple_pattern_matching'), ('Quad', 4, 'quad_pattern_matching')):
        base = 'PatternMatchingGraph::' if n == 3 else 'PatternMatchingDataset::'
        low = T.lower()
        for r in at(base + 'contains_' + low):
            expect_call(ctx, eng, r, None, post=question(m, lambda e: comps(e, n), n))
        for i, c in enumerate(['subject', 'predicate', 'object']):
            for r in at(base + 'contains_%s_%s' % (low, c)):
                expect_call(ctx, eng, r, None, post=question(m, lambda e: [G(e.a(1)) if j == i else ANY for j in range(n)], n))
    for r in at('PatternMatchingDataset::contains_named_graph'):
        expect_call(ctx, eng, r, None, post=question('quad_pattern_matching', lambda e: [ANY, ANY, ANY, G(some(e.a(1)))], 4))
    for r in at('FalliblePatternMatchingDataset::try_contains_triple'):
        expect_call(ctx, eng, r, None, post=question('try_quad_pattern_matching', lambda e: comps(e, 3), 4, True))
    for r in at('FalliblePatternMatchingGraph::try_contains_triple'):
        expect_call(ctx, eng, r, None, post=question('try_triple_pattern_matching', lambda e: comps(e, 3), 3, True))

    # ---- counts are the number of listed elements
    for t, m, l in (('TraversableGraph', 'triples_count', 'triples'), ('TraversableDataset', 'quads_count', 'quads')) + tuple(
            (p + 'Traversable' + k, pre + c + '_count', pre + c + 's') for p, c in (('Resource', 'resource'), ('Subject', 'subject'), ('Predicate', 'predicate'), ('Object', 'object'))
            for k, pre in (('Graph', 'graph_'), ('Dataset', ''))) + (('NamedGraphTraversableDataset', 'named_graph_count', 'named_graphs'),):
        for r in at(t + '::' + m):
            expect_call(ctx, eng, r, lambda e: A(e, 'count', Sym(('app', SAME.get(l, l), eng.term(e.st, e.a(0))))))

    # ---- a graph seen as a dataset
    for tr, m, l in (('Resource', 'resource', 'graph_resource'), ('Subject', 'subject', 'graph_subject'), ('Predicate', 'predicate', 'graph_predicate'), ('Object', 'object', 'graph_object')):
        for r in ctx.need('G', m + 's', trait=tr + 'TraversableDataset'):
            expect_call(ctx, eng, r, lambda e: A(e, l + 's', e.a(0)))
        for r in ctx.need('G', m + '_count', trait=tr + 'TraversableDataset'):
            expect_call(ctx, eng, r, lambda e: A(e, l + '_count', e.a(0)))
    for r in ctx.need('G', 'quads', trait='TraversableDataset'):
        expect_call(ctx, eng, r, None, post=lambda env, s, o: None if agree(eng, s, opened(eng, s, o.val).f[0], A(env, 'triples', env.a(0))) else 'lists %s' % show(eng, s, o.val))
    for r in ctx.need('G', 'quads_count', trait='TraversableDataset'):
        expect_call(ctx, eng, r, lambda e: A(e, 'triples_count', e.a(0)))
    for r in ctx.need('G', 'named_graph_count', trait='NamedGraphTraversableDataset'):
        expect_call(ctx, eng, r, lambda e: 0)
    for r in ctx.need('G', 'named_graphs', trait='NamedGraphTraversableDataset'):
        t = ctx.p.types[ctx.p.insts[r['root']]['body']['locals'][0]]
        ctx.ob('G::named_graphs lists nothing', OK if t.get('def') == 'std::iter::Empty' else UND, 'iterator type %s' % t['s'], ctx.where(r))

    def gpm(env, s, o):
        ps = pat.parts(eng, s, env.a(1))
        g = ps[3]
        match = g[0] == 'any'
        if g[0] == 'given':
            match = head(eng, opened(eng, s, g[1]))[1] == 'None'
        v = opened(eng, s, opened(eng, s, o.val).f[0])
        n, var, f = head(eng, v)
        if not match:
            return None if var == 'None' else 'statements of a graph are found in a named graph'
        if var != 'Some':
            return 'statements of a graph are not found in the default graph'
        qs = queries(s, 'triple_pattern_matching')
        if len(qs) != 1 or not agree(eng, s, opened(eng, s, f[0]).f[0], res_of(s, qs[0])) or not agree(eng, s, qs[0][2][0], env.a(0)):
            return 'yields %s' % show(eng, s, f[0])
        got = pat.parts(eng, s, qs[0][2][1])
        if not pat.parts_same(eng, s, got, ps[:3]):
            return 'asks for %s instead of %s' % (pat.showp(eng, s, got), pat.showp(eng, s, ps[:3]))
    for r in ctx.need('G', 'quad_pattern_matching', trait='PatternMatchingDataset'):
        expect_call(ctx, eng, r, None, post=gpm)

    # ---- objects, predicates and objects
    def fld(T, name):
        for t in ctx.p.types.values():
            if t['k'] == 'adt' and t['local'] and short(t['def']) == T:
                return [f[0] for f in t['v'][0]['f']].index(name)

    def objs(env, s, v, first, inner, T):
        v = opened(eng, s, v)
        if not agree(eng, s, v.f[fld(T, 'first')], first):
            return 'starts with %s' % show(eng, s, v.f[fld(T, 'first')])
        if not agree(eng, s, v.f[fld(T, 'inner')], inner):
            return 'continues with %s' % show(eng, s, v.f[fld(T, 'inner')])

    for T, n, op, qn, lst in (('Triple', 3, 'triple_pattern_matching', 'PatternMatchingGraph::triple_', 'graph_predicates'), ('Quad', 4, 'quad_pattern_matching', 'PatternMatchingDataset::quad_', 'predicates')):
        OB, PO = T + 'Objects', T + 'PredicatesObjects'
        for r in at(qn + 'objects'):
            def post(env, s, o):
                qs = queries(s, op)
                if len(qs) != 1 or not agree(eng, s, qs[0][2][0], env.a(0)):
                    return 'asks %d questions' % len(qs)
                want = [G(env.a(1)), G(env.a(2)), ANY] if n == 3 else [G(env.a(2)), G(env.a(3)), ANY, G(env.a(1))]
                got = pat.parts(eng, s, qs[0][2][1])
                if not pat.parts_same(eng, s, got, want):
                    return 'asks for %s instead of %s' % (pat.showp(eng, s, got), pat.showp(eng, s, want))
                return objs(env, s, o.val, NONE, res_of(s, qs[0]), OB)
            expect_call(ctx, eng, r, None, post=post)
        for r in at(qn + 'predicates_objects'):
            def post(env, s, o):
                v = opened(eng, s, o.val)
                a = {'predicates': A(env, lst, env.a(0)), 'subject': env.a(1 if n == 3 else 2), ('graph' if n == 3 else 'dataset'): env.a(0)}
                if n == 4:
                    a['graph'] = env.a(1)
                for k, w in a.items():
                    if not agree(eng, s, v.f[fld(PO, k)], w):
                        return 'the field %s is %s' % (k, show(eng, s, v.f[fld(PO, k)]))
            expect_call(ctx, eng, r, None, post=post)
        for r in ctx.need(OB, 'next', trait='Iterator'):
            def post(env, s, o):
                c, f = env.case(env.f(env.a(0), fld(OB, 'first')))
                inner = env.f(env.a(0), fld(OB, 'inner'))
                d, x = drawn(s, eng.term(s, inner))
                now = opened(eng, s, env.now(0))
                if head(eng, opened(eng, s, now.f[fld(OB, 'first')]))[1] != 'None':
                    return 'the first object is yielded again'
                if c == 'Some':
                    if d is not None:
                        return 'loses an element'
                    return None if agree(eng, s, o.val, some(f[0])) else 'yields %s' % show(eng, s, o.val)
                if d is None:
                    return 'ends early'
                w = some(env.f(x, 2)) if d == 'Some' else NONE
                return None if agree(eng, s, o.val, w) else 'yields %s, expected %s' % (show(eng, s, o.val), show(eng, s, w))
            expect_call(ctx, eng, r, None, post=post)
        for r in ctx.need(PO, 'next', trait='Iterator'):
            def post(env, s, o):
                it = eng.term(s, env.f(env.a(0), fld(PO, 'predicates')))
                subj = env.f(env.a(0), fld(PO, 'subject'))
                store = env.f(env.a(0), fld(PO, 'graph' if n == 3 else 'dataset'))
                qs = queries(s, op)
                v = opened(eng, s, o.val)
                rn, rv, rf = head(eng, v)
                for i in range(len(qs) + 1):
                    d, p = drawn(s, it)
                    it = ('mut', 'next', 0, it)
                    if d == 'None':
                        if i != len(qs) or rv != 'None':
                            return 'continues after the last predicate'
                        return
                    if d is None or i >= len(qs):
                        return 'stops before the last predicate' if rv == 'None' else 'yields a predicate without looking for objects'
                    want = [G(subj), G(p), ANY] + ([G(env.f(env.a(0), fld(PO, 'graph')))] if n == 4 else [])
                    got = pat.parts(eng, s, qs[i][2][1])
                    if not agree(eng, s, qs[i][2][0], store) or not pat.parts_same(eng, s, got, want):
                        return 'asks for %s instead of %s' % (pat.showp(eng, s, got), pat.showp(eng, s, want))
                    m = res_of(s, qs[i]).key
                    e, q = drawn(s, m)
                    if e == 'Some':
                        if rv != 'Some' or i != len(qs) - 1:
                            return 'skips a predicate that has objects'
                        pair = opened(eng, s, rf[0])
                        if not agree(eng, s, pair.f[0], p):
                            return 'yields another predicate'
                        return objs(env, s, pair.f[1], some(env.f(q, 2)), Sym(('mut', 'next', 0, m)), OB)
                    if e is None:
                        return 'does not look at the objects of a predicate'
            eng.loop_hook = lambda eng_, st, fr, inst, body, bb, k, depth: 'stop' if k >= 3 else None
            expect_call(ctx, eng, r, None, post=post)
            eng.loop_hook = None
    ctx.floor('adapters and default methods', len(ctx.obs), 50)
