"""Oracles for functions that delegate to the methods of a generic parameter: such calls are uninterpreted applications."""
from lib import *

COUNTS = {'graph_resource_count': 'graph_resources', 'graph_subject_count': 'graph_subjects', 'graph_predicate_count': 'graph_predicates', 'graph_object_count': 'graph_objects',
          'resource_count': 'resources', 'subject_count': 'subjects', 'predicate_count': 'predicates', 'object_count': 'objects', 'named_graph_count': 'named_graphs',
          'triples_count': 'triples', 'quads_count': 'quads'}
# blanket implementations: a graph seen as a dataset, infallible views
SAME = {'graph_resources': 'resources', 'graph_subjects': 'subjects', 'graph_predicates': 'predicates', 'graph_objects': 'objects'}


# what an operation on a value of known kind stands for
KIND = {'term': {'Iri': 'iri', 'Literal': 'literal'}, 'local_term': {'Anonymous': 'blank_id', 'Named': 'term'}, 'id': {'BlankId': 'blank_id', 'Iri': 'iri'},
        'insert_term': {'Iri': 'insert_iri', 'Literal': 'insert_literal'}, 'insert_local_term': {'Anonymous': 'insert_blank_id', 'Named': 'insert_term'},
        'insert_id': {'BlankId': 'insert_blank_id', 'Iri': 'insert_iri'}}


def nterm(k):
    """application names without paths; counting methods are the count of the listing they stand for"""
    if isinstance(k, tuple):
        if len(k) >= 2 and k[0] == 'app' and isinstance(k[1], str):
            n = short(k[1])
            rest = tuple(nterm(x) for x in k[2:])
            while n in KIND and len(rest) == 2 and isinstance(rest[1], tuple) and len(rest[1]) == 3 and rest[1][1] in KIND[n] and isinstance(rest[1][0], str) and rest[1][0] not in ('app', 'mut', 'f', '*', 'c'):
                n, rest = KIND[n][rest[1][1]], (rest[0], rest[1][2])
            if n in COUNTS:
                return ('app', 'count', ('app', SAME.get(COUNTS[n], COUNTS[n])) + rest)
            return ('app', SAME.get(n, n)) + rest
        if len(k) >= 2 and k[0] == 'mut' and isinstance(k[1], str):
            return ('mut', short(k[1])) + tuple(nterm(x) for x in k[2:])
        return tuple(nterm(x) for x in k)
    if isinstance(k, str) and '::' in k and '(' not in k and '<' not in k:
        return fam(k)
    return k


def A(env, name, *vals):
    return Sym(('app', name) + tuple(env.eng.term(env.st, v) if not isinstance(v, tuple) else v for v in vals))


def found(env, name, *vals):
    """the symbol of an application made on this trace"""
    want = nterm(A(env, name, *vals).key)
    for e in env.st.events:
        if isinstance(e[0], str) and short(e[0]) == name:
            k = ('app', e[0]) + tuple(e[1])
            if nterm(k) == want:
                return Sym(k)
    return None


def agree(eng, s, a, b):
    """same content, applications compared by name and arguments"""
    if a.__class__ is not X:
        a = strip(eng, s, a)
    if b.__class__ is not X:
        b = strip(eng, s, b)
    if same(eng, s, a, b):
        return True
    ca, cb = a.__class__ in (X, Agg), b.__class__ in (X, Agg)
    if ca != cb:
        # a materialised application: compare by the symbol it stands for
        v, agg = (a, b) if cb else (b, a)
        if v.__class__ is Sym:
            for k, w in s.bind.items():
                if w is agg or (w.__class__ is Agg and agg.__class__ is Agg and w == agg):
                    if nterm(k) == nterm(v.key):
                        return True
            if is_sym_adt(eng, v):
                return agree(eng, s, opened(eng, s, v), agg)
            for k in s.bind:
                if nterm(k) == nterm(v.key):
                    return agree(eng, s, s.res(Sym(k)), agg)
        return False
    if ca and cb:
        (na, va, fa), (nb, vb, fb) = head(eng, a), head(eng, b)
        if (na, va, len(fa)) != (nb, vb, len(fb)):
            return False
        return all(agree(eng, s, x, y) for x, y in zip(fa, fb))
    if isinstance(a, int) or isinstance(b, int) or a.__class__ is Lin or b.__class__ is Lin:
        return False
    return nterm(eng.term(s, a)) == nterm(eng.term(s, b))


def into_case(env, v, name='into'):
    """(variant, fields) of the conversion of a generic argument, as the trace decided it"""
    k = found(env, name, v)
    if k is None:
        raise Unsupported('no conversion of the argument')
    a = env.st.res(k)
    if a.__class__ is not Agg:
        raise Unsupported('kind of the argument not examined')
    n, var, f = head(env.eng, a)
    return var, f


def drawn_all(s, it):
    """number of elements of an iterator that the trace exhausted"""
    n = 0
    it = nterm(it)
    draws = {nterm(k[2]): v for k, v in s.bind.items() if isinstance(k, tuple) and len(k) == 3 and k[0] == 'app' and short(str(k[1])) == 'next' and v.__class__ is Agg}
    while it in draws:
        if not draws[it].f:
            return n
        n += 1
        it = nterm(('mut', 'next', 0, it))
    return None


def expect_call(ctx, eng, r, expect, muts=None, label=None, post=None, panics=False):
    """the result agrees with expect(env); the calls named in MUT are exactly muts(env)"""
    def p(env, s, o):
        if r['btrait'] is None:
            for e in s.events:
                if isinstance(e[0], str) and e[0] == r['path'] and e[2] and agree(eng, s, e[2][0], env.a(0)):
                    return 'calls itself on the same value'
        want = expect(env) if expect is not None else None
        if want.__class__ is Sym and want.key[:2] == ('app', 'count'):
            n = drawn_all(s, want.key[2])
            if n is not None:
                want = n
        if want is not None and not agree(eng, s, o.val, want):
            return 'returns %s, expected %s' % (show(eng, s, o.val), show(eng, s, want))
        if muts is not None:
            got = [nterm(('app', e[0]) + tuple(e[1])) for e in s.events if isinstance(e[0], str) and short(e[0]) in MUT]
            exp = [nterm(x.key) for x in muts(env)]
            if got != exp:
                return 'performs %s instead of %s' % ('; '.join(kstr(x) for x in got) or 'nothing', '; '.join(kstr(x) for x in exp) or 'nothing')
        if post is not None:
            return post(env, s, o)
    check_fn(ctx, eng, r, None, label=label, post=p, panics=panics)


MUT = {'insert_iri', 'insert_literal', 'insert_blank_id', 'insert_term', 'insert_local_term', 'insert_id', 'next_term', 'next_local_term', 'new_resource', 'insert', 'remove'}


def unwrap1(eng, s, v):
    """the option inside an option iterator"""
    for _ in range(4):
        v = opened(eng, s, v)
        if v.__class__ is Agg and head(eng, v)[0] != 'Option' and len(v.f) == 1:
            v = v.f[0]
        else:
            return v
    return v
