"""Interpretations: each kind of term reaches the mapping of that kind, with that value, once, and the answer comes back."""
from lib import *
from deleg import *
import text
RULE = 'on every trace the result is the answer of exactly the method for the kind met, applied to exactly the value given, and no other mutating call is made'


def run_check(ctx):
    eng = ctx.engine()
    eng.lens = True
    I = lambda v: X('LocalTerm', 'Named', X('Term', 'Iri', v))
    L = lambda v: X('LocalTerm', 'Named', X('Term', 'Literal', v))
    Bl = lambda v: X('LocalTerm', 'Anonymous', v)

    def at(suffix, n=1):
        rs = [r for r in ctx.p.roots if r['path'].endswith(suffix) and r['eff_pub'] and r['btrait'] is None]
        if len(rs) < n:
            ctx.ob('anchor ' + suffix, UND, 'public function not found', '')
        return rs

    # ---- default methods: dispatch by kind
    def disp(name, table, mut=False):
        for r in at(name):
            def ex(e):
                var, f = into_case(e, e.a(1))
                m = table[var]
                return A(e, m, e.a(0), f[0])

            def mu(e):
                return [ex(e)]
            expect_call(ctx, eng, r, ex, mu if mut else None)
    disp('Interpretation::term', {'Iri': 'iri', 'Literal': 'literal'})
    disp('LocalInterpretation::local_term', {'Anonymous': 'blank_id', 'Named': 'term'})
    disp('LocalInterpretation::id', {'BlankId': 'blank_id', 'Iri': 'iri'})
    disp('InterpretationMut::insert_term', {'Iri': 'insert_iri', 'Literal': 'insert_literal'}, True)
    disp('LocalInterpretationMut::insert_local_term', {'Anonymous': 'insert_blank_id', 'Named': 'insert_term'}, True)
    disp('LocalInterpretationMut::insert_id', {'BlankId': 'insert_blank_id', 'Iri': 'insert_iri'}, True)
    for r in at('ReverseInterpretation::terms_of'):
        expect_call(ctx, eng, r, lambda e: X('TermsOf', 'TermsOf', A(e, 'iris_of', e.a(0), e.a(1)), A(e, 'literals_of', e.a(0), e.a(1))))
    for r in at('ReverseLocalInterpretation::local_terms_of'):
        def lt(env, s, o):
            v = opened(eng, s, o.val)
            if not agree(eng, s, v.f[1], A(env, 'blank_ids_of', env.a(0), env.a(1))):
                return 'the blank identifiers are %s' % show(eng, s, v.f[1])
            t = strip(eng, s, v.f[0])
            if t.__class__ is Sym and agree(eng, s, t, A(env, 'terms_of', env.a(0), env.a(1))):
                return
            t = opened(eng, s, t)
            if not (agree(eng, s, t.f[0], A(env, 'iris_of', env.a(0), env.a(1))) and agree(eng, s, t.f[1], A(env, 'literals_of', env.a(0), env.a(1)))):
                return 'the terms are %s' % show(eng, s, t)
        expect_call(ctx, eng, r, None, post=lt)
    # the chained listings yield every element of the first iterator, then those of the second
    for T, kinds in (('TermsOf', (('Iri',), ('Literal',))), ('LocalTermsOf', (('Named',), ('Anonymous',)))):
        for r in ctx.need(T, 'next', trait='Iterator'):
            chain(ctx, eng, r, kinds)
    for r in at('ReverseInterpretation::is_anonymous'):
        def an(env, s, o):
            firsts = []
            for m in ('iris_of', 'literals_of'):
                it = A(env, m, env.a(0), env.a(1))
                firsts.append(next_of(s, it.key))
            tk = A(env, 'terms_of', env.a(0), env.a(1)).key
            whole = next_of(s, tk)
            parts = [next_of(s, ('f', tk, 0, i)) for i in (0, 1)]
            firsts = [a or b for a, b in zip(firsts, parts)]
            v = s.res(o.val)
            res = int(eng.truth(s, v))
            if whole is not None:
                return None if res == (whole == 'None') else 'answers %s although the listing starts with %s' % (bool(res), whole)
            some = any(x == 'Some' for x in firsts)
            if some and res:
                return 'answers true although a term denotes the resource'
            if not some:
                if None in firsts:
                    return 'answers %s without looking at every kind of term' % bool(res)
                if not res:
                    return 'answers false although no term denotes the resource'
        expect_call(ctx, eng, r, None, post=an)
    # ---- the transparent interpretation and the generator interpretation
    for T in ('()', 'LocalGeneratorInterpretation'):
        for r in ctx.need(T, 'iri', trait='Interpretation'):
            expect_call(ctx, eng, r, lambda e: some(I(e.a(1))))
        for r in ctx.need(T, 'literal', trait='Interpretation'):
            expect_call(ctx, eng, r, lambda e: some(L(found(e, 'into', e.a(1)) or Sym('none'))))
        for r in ctx.need(T, 'insert_iri', trait='InterpretationMut'):
            expect_call(ctx, eng, r, lambda e: I(found(e, 'into', e.a(1)) or Sym('none')))
        for r in ctx.need(T, 'insert_literal', trait='InterpretationMut'):
            expect_call(ctx, eng, r, lambda e: L(found(e, 'into', e.a(1)) or Sym('none')))

        def listed(kind):
            def post(env, s, o):
                c, f = env.case(env.a(1))
                w = NONE
                if c == 'Named':
                    c2, f2 = env.case(f[0])
                    if c2 == kind:
                        w = some(f2[0])
                elif kind == c:
                    w = some(f[0])
                v = unwrap1(eng, s, o.val)
                if not agree(eng, s, v, w):
                    return 'lists %s, expected %s' % (show(eng, s, v), show(eng, s, w))
            return post
        for m, k, tr in (('iris_of', 'Iri', 'ReverseInterpretation'), ('literals_of', 'Literal', 'ReverseInterpretation'), ('blank_ids_of', 'Anonymous', 'ReverseLocalInterpretation')):
            for r in (ctx.find(T, m, trait=tr) if m == 'blank_ids_of' else ctx.need(T, m, trait=tr)):
                expect_call(ctx, eng, r, None, post=listed(k))
    for r in ctx.need('LocalGeneratorInterpretation', 'blank_id', trait='LocalInterpretation'):
        expect_call(ctx, eng, r, lambda e: some(Bl(e.a(1))))
    # ---- interpretations paired with a generator
    for T, gen, ins in (('WithGenerator', 'next_term', 'insert_term'), ('WithLocalGenerator', 'next_local_term', 'insert_local_term')):
        fi = field_index(ctx, T, 'interpretation')
        fg = field_index(ctx, T, 'generator')
        for tr, ms in (('Interpretation', ('iri', 'literal')), ('LocalInterpretation', ('blank_id',)), ('ReverseInterpretation', ('iris_of', 'literals_of')), ('ReverseLocalInterpretation', ('blank_ids_of',))):
            for m in ms:
                for r in ctx.find(T, m, trait=tr):
                    expect_call(ctx, eng, r, lambda e: A(e, m, e.f(e.a(0), fi), e.a(1)), lambda e: [])
        for tr, ms in (('InterpretationMut', ('insert_iri', 'insert_literal')), ('LocalInterpretationMut', ('insert_blank_id',))):
            for m in ms:
                for r in ctx.find(T, m, trait=tr):
                    expect_call(ctx, eng, r, lambda e: A(e, m, e.f(e.a(0), fi), e.a(1)), lambda e: [A(e, m, e.f(e.a(0), fi), e.a(1))])
        for r in ctx.need(T, 'new_resource', trait='GenerativeInterpretation'):
            def post(env, s, o):
                g = A(env, gen, env.f(env.a(0), fg))
                got = [nterm(('app', e[0]) + tuple(e[1])) for e in s.events if isinstance(e[0], str) and short(e[0]) in MUT]
                if got != [nterm(g.key), nterm(A(env, ins, env.f(env.a(0), fi), g).key)] and not expanded(env, s, got, g, env.f(env.a(0), fi)):
                    return 'performs %s instead of generating one term and inserting it' % '; '.join(kstr(x) for x in got)
                if nterm(eng.term(s, strip(eng, s, o.val))) != got[-1]:
                    return 'returns %s instead of the resource assigned to the generated term' % show(eng, s, o.val)
            expect_call(ctx, eng, r, None, post=post)
        mk = lambda e, a, b: X(T, T, *[a if j == fi else b for j in range(2)])
        for r in ctx.need(T, 'new'):
            check_fn(ctx, eng, r, lambda e: mk(e, e.a(0), e.a(1)))
        for r in ctx.need(T, 'into_parts'):
            check_fn(ctx, eng, r, lambda e: tup(e.f(e.a(0), fi), e.f(e.a(0), fg)))
        for m, i in (('inner_interpretation', fi), ('generator', fg), ('into_inner_interpretation', fi), ('into_generator', fg)):
            for r in ctx.need(T, m):
                check_fn(ctx, eng, r, lambda e: e.f(e.a(0), i))
        for m, i in (('inner_interpretation_mut', fi), ('generator_mut', fg)):
            for r in ctx.need(T, m):
                check_fn(ctx, eng, r, None, post=lens(lambda e, v: e.f(v, i)))
    # shared generation stands for exclusive generation
    for r in ctx.need('I', 'new_resource', trait='GenerativeInterpretation'):
        expect_call(ctx, eng, r, lambda e: A(e, 'new_resource', e.a(0)), lambda e: [A(e, 'new_resource', e.a(0))])
    ctx.floor('interpretation methods', len(ctx.obs), 50)


def expanded(env, s, got, g, interp):
    """generation followed by the insertion of the parts of the generated term by kind"""
    if len(got) != 2 or got[0] != nterm(g.key):
        return False
    a = None
    for k, v in s.bind.items():
        if nterm(k) == nterm(g.key) and v.__class__ is Agg:
            a = v
    if a is None:
        return False
    table = {'Anonymous': 'insert_blank_id', 'Named': 'insert_term', 'Iri': 'insert_iri', 'Literal': 'insert_literal'}
    for _ in range(2):
        n, var, f = head(env.eng, a)
        if got[1] == nterm(A(env, table[var], interp, f[0]).key):
            return True
        a = s.res(f[0])
        if a.__class__ is not Agg:
            return False
    return False


def next_of(s, key):
    """variant of the first element drawn from an iterator, if the trace drew it"""
    for k, v in s.bind.items():
        if isinstance(k, tuple) and len(k) == 3 and k[0] == 'app' and short(str(k[1])) == 'next' and nterm(k[2]) == nterm(key) and v.__class__ is Agg:
            return 'Some' if v.f else 'None'
    return None


def field_index(ctx, T, name):
    for t in ctx.p.types.values():
        if t['k'] == 'adt' and t['local'] and short(t['def']) == T:
            for i, f in enumerate(t['v'][0]['f']):
                if f[0] == name:
                    return i
    return {'interpretation': 0, 'generator': 1}[name]


def chain(ctx, eng, r, kinds):
    def post(env, s, o):
        before = [env.f(env.a(0), 0), env.f(env.a(0), 1)]
        n0 = next_of(s, eng.term(s, before[0]))
        n1 = next_of(s, eng.term(s, before[1]))
        v = opened(eng, s, o.val)
        n, var, f = head(eng, v)
        if n0 is None and kinds[0][0] == 'Named':
            # the first iterator is itself a chain, opened in place
            return chain2(env, s, o, eng, kinds)
        if n0 is None:
            return 'does not draw from the first iterator'
        k = 0 if n0 == 'Some' else 1
        if k == 0 and n1 is not None:
            return 'draws from both iterators at once, losing an element'
        if k == 1 and n1 is None:
            return 'ends after the first iterator'
        if (var == 'Some') != (n0 == 'Some' or n1 == 'Some'):
            return 'yields %s when the first iterator yields %s and the second %s' % (var, n0, n1)
        if var == 'Some':
            got = opened(eng, s, f[0])
            gn, gv, gf = head(eng, got)
            if gv != kinds[k][0]:
                return 'an element of the %s iterator is listed as %s' % (('first', 'second')[k], gv)
            src = Sym(('app', 'next', eng.term(s, before[k])))
            if not agree(eng, s, some(gf[0]), src):
                return 'yields %s instead of the element drawn' % show(eng, s, gf[0])
    check_fn(ctx, eng, r, None, post=post)


def chain2(env, s, o, eng, kinds):
    its = [env.f(env.f(env.a(0), 0), 0), env.f(env.f(env.a(0), 0), 1), env.f(env.a(0), 1)]
    path = [('Named', 'Iri'), ('Named', 'Literal'), ('Anonymous',)]
    ns = [next_of(s, eng.term(s, x)) for x in its]
    v = opened(eng, s, o.val)
    n, var, f = head(eng, v)
    if None in ns[:ns.index('Some') if 'Some' in ns else 3]:
        return 'skips one of the iterators'
    if ns.count('Some') > 1:
        return 'draws several elements at once'
    if (var == 'Some') != ('Some' in ns):
        return 'yields %s when the iterators yield %s' % (var, ns)
    if var == 'Some':
        k = ns.index('Some')
        x = f[0]
        for p in path[k]:
            x = opened(eng, s, x)
            gn, gv, gf = head(eng, x)
            if gv != p:
                return 'an element of iterator %d is listed as %s' % (k, gv)
            x = gf[0]
        if not agree(eng, s, some(x), Sym(('app', 'next', eng.term(s, its[k])))):
            return 'yields %s instead of the element drawn' % show(eng, s, x)
