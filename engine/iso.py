"""Blank node isomorphism: the steps of the search, each on abstract quads and resources."""
import itertools
from core import *
from lib import *
import lib
import seq
from seq import VecF, MapF, ArrIter, keyeq, is_anon, has_name, reskey, deref, forked, fact

FILE = 'src/dataset/isomorphism.rs'


def roots(ctx, name):
    return [r for r in ctx.p.roots if r['file'] == FILE and r['name'] == name and r['btrait'] is None]


def one(ctx, name):
    rs = roots(ctx, name)
    if len(rs) != 1:
        ctx.ob('anchor ' + name, UND, 'function not found', FILE)
        return None
    return rs[0]


# ---------------------------------------------------------------- interception
def quad_key(v):
    """identity of an opaque quad, whatever is known of its components"""
    if v.__class__ is Sym and v.key[0] == 'Q':
        return v.key
    if v.__class__ is Agg and len(v.f) == 4:
        ks = set()
        for i, x in enumerate(v.f):
            k = getattr(x, 'key', None)
            if x.__class__ is Ref and isinstance(x.a, tuple) and x.a[0] == '*':
                k = x.a[1]
            if isinstance(k, tuple) and k[0] == 'f' and k[1][0] == 'Q' and k[3] == i:
                ks.add(k[1])
            else:
                return None
        if len(ks) == 1:
            return ks.pop()
    return None


def elem_id(st, v):
    if v.__class__ is Sym and v.key[0] == 'Q':
        return v.key
    return quad_key(v) if v.__class__ is Agg and len(v.f) == 4 else None


def engine(ctx, intercepts=None, quads=True):
    eng = ctx.engine()
    eng.unroll = 12
    eng.max_steps = 4000000
    base = seq.pre_call(eng.pre_call)
    intercepts = intercepts or {}

    def pre(e, st, c, depth):
        p = c.callee['path']
        n = p.split('::')[-1]
        if p.startswith('dataset::isomorphism') and n in intercepts:
            s = st.copy()
            r = intercepts[n](e, s, c)
            if r is not None:
                return e.norm(s, r)
        if p.startswith('interpretation::ReverseInterpretation::') and len(c.args) == 2:
            if n in ('iris_of', 'literals_of'):
                s = st.copy()
                r = reskey(e, s, c.args[1])
                return [Outcome(s, 'ret', seq.Names('iri' if n == 'iris_of' else 'lit', r))]
            if n == 'is_anonymous':
                s = st.copy()
                return [Outcome(s, 'ret', int(is_anon(s, reskey(e, s, c.args[1]))))]
        if p.startswith(('std::fmt::Arguments::', 'core::fmt::rt::', 'std::fmt::rt::')) and c.dty is not None:
            return [Outcome(st.copy(), 'ret', Sym(st.fresh('fmt'), c.dty))]      # messages on stderr
        if p in ('std::cmp::PartialEq::eq', 'std::cmp::PartialEq::ne') and len(c.args) == 2:
            s = st.copy()
            a, b = (deref(e, s, x) for x in c.args)
            if a.__class__ is Sym and b.__class__ is Sym and a.key[0] == 'name' and b.key[0] == 'name':
                return [Outcome(s, 'ret', int(s.decide_atom_eq(a.key, b.key) == (n == 'eq')))]
        if p.startswith('dataset::') and p.endswith('TraversableDataset::quads'):
            s = st.copy()
            q = s.x.get(('quads', e.term(s, c.args[0])))
            if q is not None:
                return [Outcome(s, 'ret', ArrIter(q))]
        return base(e, st, c, depth)
    eng.pre_call = pre
    return eng


def quad_type(ctx, generic=True):
    """type Quad<&Resource> of the generic bodies"""
    r = one(ctx, 'quad_matches')
    if r is None:
        return None
    b = ctx.p.insts[r['root']]['body']
    return b['locals'][2]


def local_of(ctx, r, i):
    return ctx.p.insts[r['root']]['body']['locals'][i]


def new_state():
    st = State()
    st.x['elem_id'] = elem_id
    return st


def comps(eng, st, q):
    """(s, p, o) references and the graph: None or (reference,)"""
    q = strip(eng, st, q)
    if q.__class__ is Sym:
        eng.expand(st, q)
        q = st.res(q)
    g = seq.opt_of(eng, st, q.f[3])
    return [q.f[0], q.f[1], q.f[2]], g


def share(eng, st, a, b):
    """have the two resources a name in common; forks"""
    ka, kb = reskey(eng, st, a), reskey(eng, st, b)
    for kind in ('iri', 'lit'):
        na = [i for i in range(seq.names_cap(st, ka)) if has_name(st, kind, ka, i)]
        nb = [i for i in range(seq.names_cap(st, kb)) if has_name(st, kind, kb, i)]
        t = st.x.get(('namety', kind))
        for i in na:
            for j in nb:
                x = Sym(('name', kind, st.rep(ka), i), t)
                y = Sym(('name', kind, st.rep(kb), j), t)
                if st.decide_atom_eq(x.key, y.key):
                    return True
    return False


# ---------------------------------------------------------------- single resources and quads
def names_types(ctx, st, owner='ReverseInterpretation'):
    """types of the names handed out by the interpretation, found at the calls of `next`"""
    return st


def resource_ok(eng, st, a, b, sigma):
    """may a statement containing a be mapped to one containing b at this place"""
    if share(eng, st, a, b):
        return True
    ka, kb = reskey(eng, st, a), reskey(eng, st, b)
    if not (is_anon(st, ka) and is_anon(st, kb)):
        return False
    if sigma is None:
        return True
    fw, bw = sigma
    i = seq.mfind(eng, st, fw, a)
    if i is not None:
        img = Sym(('img', fw.base, i[1]), fw.vty) if isinstance(i, tuple) else fw.es[i][1]
        return keyeq(eng, st, img, b)
    return seq.mfind(eng, st, bw, b) is None


def consistent(eng, st, sigma):
    """the two maps of a renaming are inverse to each other: other states do not exist"""
    fw, bw = sigma
    fs = {k: v for k, v in st.x.items() if isinstance(k, tuple) and k and k[0] == 'dom'}
    for (_, base, k), v in fs.items():
        if v and base in (fw.base, bw.base):
            o = bw if base == fw.base else fw
            me = fw if base == fw.base else bw
            img = Sym(('img', base, k), me.vty)
            ik = reskey(eng, st, img)
            d = fact(st, 'dom', o.base, ik)
            if d is False:
                raise Infeasible()
            if d:
                back = reskey(eng, st, Sym(('img', o.base, ik), o.vty))
                # find the recorded key for ik
                for (_, b2, k2), v2 in fs.items():
                    if b2 == o.base and st.rep(k2) == st.rep(ik):
                        back = reskey(eng, st, Sym(('img', o.base, k2), o.vty))
                if st.atom_eq(back, k) is False:
                    raise Infeasible()


def map_field(eng, st, v, i):
    x = st.res(eng.project(st, v, i))
    if x.__class__ is Sym:
        return MapF(x.key, vty=eng.p.types[x.ty]['ga'][1])
    return x


def sigma_fields(ctx, tyid):
    """indexes of `forward` and `backward`"""
    t = ctx.p.types[tyid]
    names = [n for n, _ in t['v'][0]['f']]
    return names.index('forward'), names.index('backward')


def result_bool(eng, s, o):
    return bool(eng.truth(s, s.res(o.val)))


def agree_facts(s):
    """facts recorded under resources found equal afterwards have to agree: other states do not exist"""
    seen = {}
    for k, v in s.x.items():
        if isinstance(k, tuple) and k and k[0] in ('anon', 'has', 'dom'):
            q = tuple(s.rep(x) if isinstance(x, tuple) else x for x in k)
            if seen.setdefault(q, v) != v:
                raise Infeasible()
            if k[0] == 'anon':
                seq.known(s, q[1])


def judge_all(ctx, name, r, outs, judge0, least=1, limit=40000):
    bad = und = None

    def judge(s, o):
        agree_facts(s)
        m = judge0(s, o)
        agree_facts(s)
        return m
    n = 0
    for o in outs:
        if o.kind == 'unsup':
            und = und or str(o.val)
            continue
        if o.kind == 'panic':
            try:
                for s, m in refine(o.st, lambda s: judge(s, None)):
                    if s.imprecise:
                        und = 'imprecise panic'
                    elif m is not None:
                        bad = 'panics: %s' % o.val
            except Unsupported as e:
                und = str(e)
            continue
        try:
            for s, m in refine(o.st, lambda s: judge(s, o), limit):
                n += 1
                if m and s.imprecise:
                    und = 'imprecise: %s' % sorted(s.imprecise)[:2]
                elif m and m.startswith('?'):
                    und = m
                elif m:
                    bad = m
        except Unsupported as e:
            und = und or str(e)
    if n < least and not und:
        und = 'nothing judged'
    ctx.ob(name, BAD if bad else UND if und else OK, bad or und or '%d cases' % n, ctx.where(r))
    return n


def check_quad_match(ctx, name, with_sigma):
    """the comparison of two quads: true only when every component may be mapped, false only when one may not"""
    r = one(ctx, name)
    if r is None:
        return
    eng = engine(ctx)
    inst = ctx.p.insts[r['root']]
    st = new_state()
    args = sym_args(eng, inst)
    qi = [i for i, a in enumerate(args) if short(eng.p.types.get(a.ty, {}).get('def') or '') == 'Quad' or base_ref_quad(eng, a.ty)]
    if len(qi) != 2:
        ctx.ob(name, UND, 'unexpected signature', ctx.where(r))
        return
    for k, i in zip('ab', qi):
        t = args[i].ty
        if eng.p.types[t]['k'] == 'ref':
            st.mem[('quad', k)] = Sym(('Q', k, 0), eng.p.types[t]['to'])
            args[i] = Ref(('quad', k))
        else:
            args[i] = Sym(('Q', k, 0), t)
    A, B = (args[i] for i in qi)
    me = args[0]

    def judge(s, o):
        sigma = None
        if with_sigma:
            v = deref(eng, s, me)
            if v.__class__ is Sym:
                eng.expand(s, v)
                v = s.res(v)
            fi, bi = sigma_fields(ctx, v.ty)
            sigma = (map_field(eng, s, v, fi), map_field(eng, s, v, bi))
            consistent(eng, s, sigma)
        if o is None:
            return 'panics'
        res = result_bool(eng, s, o)
        ca, ga = comps(eng, s, A)
        cb, gb = comps(eng, s, B)
        names = ['subject', 'predicate', 'object']
        pairs = list(zip(ca, cb))
        if (ga is None) != (gb is None):
            if res:
                return 'quads of a named graph and of the default graph are taken for the same' if not has_blank(eng, s, ca, ga) or with_sigma else None
            return None
        if ga is not None:
            pairs.append((ga[0], gb[0]))
            names.append('graph')
        for nm, (x, y) in zip(names, pairs):
            ok = resource_ok(eng, s, x, y, sigma)
            if sigma is not None:
                consistent(eng, s, sigma)
            if res and not ok:
                if not with_sigma and has_blank(eng, s, ca, ga) and has_blank(eng, s, cb, gb):
                    return None         # only a pruning step
                return 'two quads are taken for the same although the %s differs' % nm
            if not ok:
                return None
        if not res:
            # the components may be refused for their pattern of repetitions
            for (x, y), (z, w) in itertools.combinations(pairs, 2):
                e1 = s.atom_eq(reskey(eng, s, x), reskey(eng, s, z))
                e2 = s.atom_eq(reskey(eng, s, y), reskey(eng, s, w))
                if e1 is not None and e2 is not None and e1 != e2:
                    return None
            return 'two quads that may correspond are taken for different ones'
        return None
    outs, _ = run(ctx, eng, r, args, st)
    judge_all(ctx, name, r, outs, judge, 8)

    # resources with several names: in one position, the other positions sharing their IRI
    for f, word in enumerate(('subject', 'predicate', 'object', 'graph')):
        def prepare(s):
            ca, ga = comps(eng, s, A)
            cb, gb = comps(eng, s, B)
            if (ga is None) != (f != 3) or (gb is None) != (f != 3):
                raise Infeasible()
            for i, (x, y) in enumerate(zip(ca + list(ga or ()), cb + list(gb or ()))):
                kx, ky = reskey(eng, s, x), reskey(eng, s, y)
                if i == f:
                    s.x['two_names'] = (kx, ky)
                    continue
                for k in (kx, ky):
                    s.x[('has', 'iri', s.rep(k), 0)] = True
                s.merge(('name', 'iri', s.rep(kx), 0), ('name', 'iri', s.rep(ky), 0))
            return True
        outs = []
        for s, _ in refine(st.copy(), prepare, 100):
            outs += run(ctx, eng, r, args, s)[0]
        judge_all(ctx, '%s, several names: %s' % (name, word), r, outs, judge, 8)


def base_ref_quad(eng, t):
    d = eng.p.types.get(t)
    return d is not None and d['k'] == 'ref' and short(eng.p.types[d['to']].get('def') or '') == 'Quad'


def has_blank(eng, s, cs, g):
    return any(is_anon(s, reskey(eng, s, x)) for x in list(cs) + ([g[0]] if g is not None else []))


# ---------------------------------------------------------------- lists of quads
def block_completions(na, nb, known):
    """all relations between na and nb elements extending the known part in which elements fall into
    classes (an element matches all or none of a class)"""
    cells = [(i, j) for i in range(na) for j in range(nb)]
    free = [c for c in cells if known.get(c) is None]
    for bits in itertools.product((False, True), repeat=len(free)):
        m = dict(known)
        m.update(zip(free, bits))
        if all(not (m[i, j] and m[i, l] and m[k, j]) or m[k, l] for i in range(na) for k in range(na) for j in range(nb) for l in range(nb)):
            yield m


def perfect(na, nb, m):
    if na != nb:
        return False
    return any(all(m[i, p[i]] for i in range(na)) for p in itertools.permutations(range(nb)))


def match_atom(eng, st, a, b):
    """answer of the comparison of two opaque quads; forks"""
    ka, kb = quad_key(strip(eng, st, a)), quad_key(strip(eng, st, b))
    if ka is None or kb is None:
        raise Unsupported('comparison of other quads')
    if ka[1] == 'b' and kb[1] == 'a':
        ka, kb = kb, ka
    if ka[1] != 'a' or kb[1] != 'b':
        raise Unsupported('comparison of quads of the same dataset')
    k = ('qm', ka[2], kb[2])
    if k not in st.x:
        def yes(s):
            s.x[k] = True

        def no(s):
            s.x[k] = False
        raise NeedFork([yes, no])
    return int(st.x[k])


def quads_of_args(eng, st, c):
    out = []
    for a in c.args:
        try:
            k = quad_key(strip(eng, st, a))
        except (Unsupported, KeyError):
            continue
        if k is not None:
            out.append(a)
    return out


def match_icpt(eng, st, c):
    q = quads_of_args(eng, st, c)
    if len(q) != 2:
        raise Unsupported('comparison of other quads')
    return match_atom(eng, st, q[0], q[1])


def known_matches(s, na, nb):
    return {(i, j): s.x.get(('qm', i, j)) for i in range(na) for j in range(nb)}


def quads(side, n, t):
    return [Sym(('Q', side, i), t) for i in range(n)]


def check_sig_match(ctx, name, inner, sizes=((0, 0), (1, 1), (2, 2), (0, 1), (1, 0), (1, 2), (2, 1), (3, 3))):
    """two lists of quads match exactly when their elements can be paired off"""
    r = one(ctx, name)
    qt = quad_type(ctx)
    if r is None or qt is None:
        return
    if one(ctx, inner) is None:
        return
    eng = engine(ctx, {inner: match_icpt})
    inst = ctx.p.insts[r['root']]
    tot = 0
    for na, nb in sizes:
        st = new_state()
        args = sym_args(eng, inst)
        sides = iter('ab')
        n = 0
        for i, a in enumerate(args):
            d = eng.p.types[a.ty]
            to = eng.p.types[d['to']] if d['k'] == 'ref' else d
            if short(to.get('def') or '') == 'BlankSignature':
                side = next(sides)
                v = Agg(d['to'] if d['k'] == 'ref' else a.ty, 0, [VecF(quads(side, na if side == 'a' else nb, qt))])
                if d['k'] == 'ref':
                    st.mem[('sig', side)] = v
                    args[i] = Ref(('sig', side))
                else:
                    args[i] = v
                n += 1
        if n != 2:
            ctx.ob(name, UND, 'unexpected signature', ctx.where(r))
            return
        outs, _ = run(ctx, eng, r, args, st)

        def judge(s, o):
            if o is None:
                return 'panics'
            res = result_bool(eng, s, o)
            seen = False
            for m in block_completions(na, nb, known_matches(s, na, nb)):
                seen = True
                if perfect(na, nb, m) != res:
                    return ('lists of %d and %d statements are said to match although their statements cannot be paired off' if res else
                            'lists of %d and %d statements are said not to match although their statements can be paired off') % (na, nb)
            return None
        tot += judge_all(ctx, '%s, %d against %d' % (name, na, nb), r, outs, judge, 1)
    return tot


def check_ground(ctx, name='ground_quads_match', sizes=((0, 0), (0, 1), (1, 0), (1, 1), (2, 1), (1, 2), (2, 2), (3, 3))):
    """the quads without blank nodes have to be the same on both sides"""
    r = one(ctx, name)
    qt = quad_type(ctx)
    if r is None or qt is None:
        return
    if one(ctx, 'quad_matches') is None:
        return

    def count(eng, st, c):
        return None
    eng = engine(ctx, {'quad_matches': match_icpt, 'blank_count': ground_icpt})
    inst = ctx.p.insts[r['root']]
    for na, nb in sizes:
        st = new_state()
        args = sym_args(eng, inst)
        set_datasets(eng, st, args, na, nb, qt)
        if na == 3:
            # the third statements are open, the others are ground and have their own counterpart
            for i in range(2):
                st.x[('blank', ('Q', 'a', i))] = st.x[('blank', ('Q', 'b', i))] = False
            for i in range(3):
                for j in range(3):
                    st.add_neq(('Q', 'a', i), ('Q', 'b', j))
                    if i != 2 or j != 2:
                        st.x[('qm', i, j)] = i == j
                    if i < j:
                        st.add_neq(('Q', 'a', i), ('Q', 'a', j))
                        st.add_neq(('Q', 'b', i), ('Q', 'b', j))
        outs, _ = run(ctx, eng, r, args, st)

        def judge(s, o):
            if o is None:
                return 'panics'
            res = result_bool(eng, s, o)
            ga = [i for i in range(na) if not blanks_of(eng, s, ('Q', 'a', i))]
            gb = [i for i in range(nb) if not blanks_of(eng, s, ('Q', 'b', i))]
            # equal quads match, and have the same blank nodes
            for i in range(na):
                for j in range(nb):
                    if s.atom_eq(('Q', 'a', i), ('Q', 'b', j)):
                        if (i in ga) != (j in gb) or s.x.get(('qm', i, j)) is False:
                            raise Infeasible()
                        s.x[('qm', i, j)] = True
            for x, y in [(('Q', z, i), ('Q', z, j)) for z, n in (('a', na), ('b', nb)) for i in range(n) for j in range(i)]:
                if s.atom_eq(x, y):
                    raise Infeasible()      # a dataset holds a quad once
            kn = {(i, j): s.x.get(('qm', a, b)) for i, a in enumerate(ga) for j, b in enumerate(gb)}
            for m in block_completions(len(ga), len(gb), kn):
                if perfect(len(ga), len(gb), m) != res:
                    return 'statements without blank nodes are said %sto be the same on both sides%s' % ('' if res else 'not ', ' although they are not' if res else ' although they are')
            return None
        judge_all(ctx, '%s, %d against %d' % (name, na, nb), r, outs, judge, 1)


def blanks_of(eng, st, qk):
    """has the opaque quad blank nodes; forks"""
    k = ('blank', qk)
    if k not in st.x:
        def yes(s):
            s.x[k] = True

        def no(s):
            s.x[k] = False
        raise NeedFork([yes, no])
    return st.x[k]


def ground_icpt(eng, st, c):
    """number of blank nodes of an opaque quad: zero, or an unknown positive number"""
    q = quads_of_args(eng, st, c)
    if len(q) != 1:
        raise Unsupported('blank_count of other quads')
    k = quad_key(strip(eng, st, q[0]))
    if not blanks_of(eng, st, k):
        return 0
    v = Sym(('bc', k), c.dty)
    st.assume_int('le', 1, v)
    return v


def set_datasets(eng, st, args, na, nb, qt):
    """the two dataset arguments hold the given numbers of quads"""
    out = []
    for i, a in enumerate(args):
        d = eng.p.types[a.ty]
        if d['k'] == 'ref' and eng.p.types[d['to']]['k'] == 'param' and eng.p.types[d['to']]['s'] != 'I':
            out.append(a)
    if len(out) != 2:
        raise Unsupported('dataset arguments')
    for a, side, n in zip(out, 'ab', (na, nb)):
        st.x[('quads', eng.term(st, a))] = tuple(quads(side, n, qt))
    return out


# ---------------------------------------------------------------- blank_count, signatures
def check_blank_count(ctx, name='blank_count'):
    r = one(ctx, name)
    if r is None:
        return
    eng = engine(ctx)
    inst = ctx.p.insts[r['root']]
    args = sym_args(eng, inst)
    st = new_state()
    qi = [i for i, a in enumerate(args) if short(eng.p.types.get(a.ty, {}).get('def') or '') == 'Quad']
    if len(qi) != 1:
        ctx.ob(name, UND, 'unexpected signature', ctx.where(r))
        return
    q = args[qi[0]] = Sym(('Q', 'a', 0), args[qi[0]].ty)
    outs, _ = run(ctx, eng, r, args, st)

    def judge(s, o):
        if o is None:
            return 'panics'
        v = s.res(o.val)
        cs, g = comps(eng, s, q)
        n = sum(1 for x in list(cs) + list(g or ()) if is_anon(s, reskey(eng, s, x)))
        if not isinstance(v, int):
            return '?count %r' % (v,)
        if v != n:
            return 'a quad with %d blank nodes is counted as having %d' % (n, v)
    judge_all(ctx, name, r, outs, judge, 8)


def check_collect(ctx, name='collect_signatures'):
    """every quad reaches the signature of each of its blank nodes, and no other"""
    r = one(ctx, name)
    qt = quad_type(ctx)
    if r is None or qt is None:
        return
    eng = engine(ctx)
    inst = ctx.p.insts[r['root']]
    for n, given in ((0, ()), (1, ()), (2, (0,))):
        st = new_state()
        args = sym_args(eng, inst)
        ds = [a for a in args if eng.p.types[a.ty]['k'] == 'ref' and eng.p.types[eng.p.types[a.ty]['to']]['k'] == 'param' and eng.p.types[eng.p.types[a.ty]['to']]['s'] != 'I']
        maps = [i for i, a in enumerate(args) if eng.p.types[a.ty]['k'] == 'ref' and seq.target(eng, eng.p.types[a.ty]['to']) == 'BTreeMap']
        if len(ds) != 1 or len(maps) > 1:
            ctx.ob(name, UND, 'unexpected signature', ctx.where(r))
            return
        qs = quads('a', n, qt)
        if n == 2:
            st.add_neq(qs[0].key, qs[1].key)
        st.x[('quads', eng.term(st, ds[0]))] = tuple(qs)
        for i in maps:
            st.mem[('sigmap',)] = MapF()
            args[i] = Ref(('sigmap',))
        if n == 2:
            # two quads of the default graph whose predicate and object have names
            for q in qs:
                eng.expand(st, q)
                v = st.res(q)
                st.bind[v.f[3].key] = eng.none(v.f[3].ty)
                for x in v.f[1:3]:
                    st.x[('anon', reskey(eng, st, x))] = False
        outs, _ = run(ctx, eng, r, args, st)

        def judge(s, o):
            if o is None:
                return 'panics'
            m = s.res(s.mem[('sigmap',)]) if maps else s.res(o.val)
            if m.__class__ is not MapF:
                return '?signatures %r' % (m,)
            got = {}
            for i in m.live():
                k, v = m.es[i]
                if not is_anon(s, reskey(eng, s, k)):
                    return 'a signature is kept for a resource that has a name'
                v = strip(eng, s, v)
                vec = s.res(v.f[0])
                if vec.__class__ is not VecF:
                    return '?statements of a signature'
                got[s.rep(reskey(eng, s, k))] = [quad_key(strip(eng, s, x)) for x in vec.vs]
            want = {}
            for q in qs:
                cs, g = comps(eng, s, q)
                for x in list(cs) + list(g or ()):
                    k = reskey(eng, s, x)
                    if is_anon(s, k):
                        want.setdefault(s.rep(k), set()).add(('Q', 'a', q.key[2]))
            for k, w in want.items():
                if w - set(got.get(k, ())):
                    return 'a statement is missing from the signature of one of its blank nodes'
            for k, w in got.items():
                if None in w:
                    return '?statements of a signature'
                if set(w) - want.get(k, set()):
                    return 'the signature of a blank node has a statement it does not occur in'
        judge_all(ctx, '%s, %d statements' % (name, n), r, outs, judge, 1)


# ---------------------------------------------------------------- the search
def check_search(ctx, name='find_from_candidates'):
    r = one(ctx, name)
    if r is None:
        return
    inst = ctx.p.insts[r['root']]
    names = {}

    def sig_icpt(eng, st, c):
        ids = []
        for a in c.args:
            v = deref(eng, st, a)
            if v.__class__ is Sym and v.key[0] == 'SIG':
                ids.append(v.key)
        if len(ids) != 2:
            raise Unsupported('comparison of other signatures')
        me = [deref(eng, st, a) for a in c.args]
        sg = [v for v in me if v.__class__ is Agg and seq.target(eng, v.ty) == 'BTreeBijection']
        if len(sg) != 1:
            raise Unsupported('comparison under no renaming')
        snap = snapshot(eng, st, sg[0])
        k = ('sm', ids[0], ids[1], snap_key(eng, st, snap))
        if k not in st.x:
            def yes(s):
                s.x[k] = True

            def no(s):
                s.x[k] = False
            raise NeedFork([yes, no])
        st.events.append(('sm', ids[0], ids[1], snap, st.x[k]))
        return int(st.x[k])

    def rec_icpt(eng, st, c):
        me = [deref(eng, st, a) for a in c.args]
        sg = [v for v in me if v.__class__ is Agg and seq.target(eng, v.ty) == 'BTreeBijection']
        it = [v for v in me if v.__class__ in seq.ITERS]
        mp = [v for v in me if v.__class__ is MapF and not v.isset]
        if len(sg) != 1 or len(it) != 1 or it[0].__class__ is not ArrIter:
            raise Unsupported('recursion on other arguments')
        n = st.x.get('nrec', 0)
        k = ('rec', n)
        if k not in st.x:
            def yes(s):
                s.x[k] = True

            def no(s):
                s.x[k] = False
            raise NeedFork([yes, no])
        st.x['nrec'] = n + 1
        left = [reskey(eng, st, seq.deref(eng, st, v.f[0])) for v in it[0].vs]
        st.events.append(('rec', n, snapshot(eng, st, sg[0]), tuple(left), mp, st.x[k]))
        if st.x[k]:
            ot = eng.p.types[c.dty]
            return eng.some(c.dty, Sym(('REC', n), ot['v'][1]['f'][0][1]))
        return eng.none(c.dty)

    def snapshot(eng, st, v):
        fi, bi = sigma_fields(ctx, v.ty)
        return map_field(eng, st, v, fi), map_field(eng, st, v, bi)

    def flat(eng, st, m):
        return frozenset((st.rep(reskey(eng, st, k)), None if v is None else st.rep(reskey(eng, st, v))) for k, v in m.es)

    def snap_key(eng, st, s):
        return tuple((m.base, tuple(sorted(flat(eng, st, m), key=repr))) for m in s)

    eng = engine(ctx, {'signature_matches_with': sig_icpt})
    inner = eng.pre_call

    depth0 = []

    def pre(e, st, c, depth):
        p = c.callee['path']
        if p.startswith('dataset::isomorphism') and p.split('::')[-1] == name:
            s = st.copy()
            return e.norm(s, rec_icpt(e, s, c))
        return inner(e, st, c, depth)
    eng.pre_call = pre
    args0 = sym_args(eng, inst)
    by = {}
    for i, a in enumerate(args0):
        d = eng.p.types[a.ty]
        t = d['to'] if d['k'] == 'ref' else a.ty
        n = seq.target(eng, t) if eng.p.types[t]['k'] == 'adt' else eng.p.types[t]['k']
        by.setdefault(n, []).append(i)
    if len(by.get('BTreeBijection', ())) != 1 or len(by.get('Iter', ())) != 1 or len(by.get('BTreeMap', ())) != 2:
        ctx.ob(name, UND, 'unexpected signature', ctx.where(r))
        return
    si, ci = by['BTreeBijection'][0], by['Iter'][0]
    mi = by['BTreeMap']
    itd = eng.p.types[args0[ci].ty]
    at, bset = itd['ga'][0] if isinstance(itd['ga'][0], int) else itd['ga'][1], itd['ga'][-1]
    at = eng.p.types[args0[mi[0]].ty]
    at = eng.p.types[at['to']]['ga'][0]
    bt = eng.p.types[eng.p.types[args0[mi[1]].ty]['to']]['ga'][0]
    sa = eng.p.types[eng.p.types[args0[mi[0]].ty]['to']]['ga'][1]
    sb = eng.p.types[eng.p.types[args0[mi[1]].ty]['to']]['ga'][1]
    for na, nb in ((0, 0), (1, 0), (2, 1), (2, 2), (1, 2), (1, 3)):
        st = new_state()
        args = list(args0)
        # the renaming built so far is arbitrary
        sig = args[si]
        byval = eng.p.types[sig.ty]['k'] != 'ref'
        sty = sig.ty if byval else eng.p.types[sig.ty]['to']
        sv = Sym(('SIGMA',), sty)
        eng.expand(st, sv)
        sv = st.res(sv)
        fi, bi = sigma_fields(ctx, sty)
        fs = list(sv.f)
        for i in (fi, bi):
            fs[i] = MapF(fs[i].key, vty=eng.p.types[fs[i].ty]['ga'][1])
        sv = Agg(sty, 0, fs)
        base0 = (fs[fi].base, fs[bi].base)
        if byval:
            args[si] = sv
        else:
            st.mem[('sigma',)] = sv
            args[si] = Ref(('sigma',))
        As = [Sym(('A', i), at) for i in range(na)]
        Bs = [Sym(('B', i), bt) for i in range(max(2, nb))]
        for i in range(na):
            for j in range(i):
                st.add_neq(reskey(eng, st, As[i]), reskey(eng, st, As[j]))
            # a blank node is assigned once
            st.x[('dom', fs[fi].base, reskey(eng, st, As[i]))] = False
        for i in range(len(Bs)):
            for j in range(i):
                st.add_neq(reskey(eng, st, Bs[i]), reskey(eng, st, Bs[j]))
        items = []
        for i in range(na):
            st.mem[('ka', i)] = As[i]
            st.mem[('cs', i)] = MapF(isset=True, es=[(b, seq.UNIT) for b in Bs[:nb]])
            items.append(Agg(None, 0, [Ref(('ka', i)), Ref(('cs', i))]))
        args[ci] = ArrIter(items)
        st.mem[('ma',)] = MapF(es=[(a, Sym(('SIG', 'a', i), sa)) for i, a in enumerate(As)])
        st.mem[('mb',)] = MapF(es=[(b, Sym(('SIG', 'b', i), sb)) for i, b in enumerate(Bs)])
        args[mi[0]] = Ref(('ma',))
        args[mi[1]] = Ref(('mb',))
        outs, _ = run(ctx, eng, r, args, st)

        def judge(s, o):
            if o is None:
                return 'panics'
            v = s.res(o.val)
            res = seq.opt_of(eng, s, v)
            recs = [e for e in s.events if e[0] == 'rec']
            sms = [e for e in s.events if e[0] == 'sm']

            def extends(snap, i, j):
                a, b = reskey(eng, s, As[i]), reskey(eng, s, Bs[j])
                return (snap[0].base, snap[1].base) == base0 and flat(eng, s, snap[0]) == {(s.rep(a), s.rep(b))} and flat(eng, s, snap[1]) == {(s.rep(b), s.rep(a))}
            if na == 0:
                if res is None:
                    return 'no renaming is found although every blank node is assigned'
                x = strip(eng, s, res[0])
                sn = snapshot(eng, s, x)
                if (sn[0].base, sn[1].base) != base0 or sn[0].es or sn[1].es:
                    return 'another renaming is returned than the one built'
                return None
            failed = set()
            won = None
            for e in recs:
                _, n, snap, left, mp, got = e
                ijs = [(i, j) for i in range(na) for j in range(nb) if extends(snap, i, j)]
                if not ijs:
                    return 'the search goes on with a renaming that is not the current one with the blank node assigned to a candidate'
                i, j = ijs[0]
                if sorted(left, key=repr) != sorted([reskey(eng, s, a) for x, a in enumerate(As) if x != i], key=repr):
                    return 'the search does not go on with the blank nodes left'
                if len(mp) == 2 and (mp[0] != s.res(s.mem[('ma',)]) or mp[1] != s.res(s.mem[('mb',)])):
                    return 'the search goes on with other statements'
                if seq.mfind(eng, s, MapF(base0[1], vty=fs[bi].vty), Bs[j]) is not None:
                    return 'a blank node of the second dataset is assigned twice'
                ok = [x for x in sms if x[1:3] == (('SIG', 'a', i), ('SIG', 'b', j)) and extends(x[3], i, j) and x[4]]
                if not ok:
                    return 'a candidate is kept although the statements of the two blank nodes were not found to match'
                if got:
                    won = n
                else:
                    failed.add((i, j))
            if res is not None:
                x = strip(eng, s, res[0])
                if won is None or x.__class__ is not Sym or x.key != ('REC', won):
                    return 'a renaming is returned that is not complete'
                return None
            if won is not None:
                return 'a complete renaming is dropped'
            def tried(i, j):
                return ((i, j) in failed or any(x[1:3] == (('SIG', 'a', i), ('SIG', 'b', j)) and extends(x[3], i, j) and not x[4] for x in sms)
                        or seq.mfind(eng, s, MapF(base0[1], vty=fs[bi].vty), Bs[j]) is not None)
            # every candidate of one of the blank nodes left
            if not any(all(tried(i, j) for j in range(nb)) for i in range(na)):
                return 'a candidate is given up without trying it'
            return None
        judge_all(ctx, '%s, %d blank nodes left, %d candidates' % (name, na, nb), r, outs, judge, 1)


# ---------------------------------------------------------------- the whole
def check_top(ctx, name='find_bijection_with'):
    r = one(ctx, name)
    qt = quad_type(ctx)
    if r is None or qt is None:
        return
    for n in ('collect_signatures', 'ground_quads_match', 'find_from_candidates', 'matches', 'blank_count'):
        if one(ctx, n) is None:
            return
    inst = ctx.p.insts[r['root']]

    def ground(eng, st, c):
        k = 'ground'
        if k not in st.x:
            raise NeedFork([lambda s: s.x.__setitem__(k, True), lambda s: s.x.__setitem__(k, False)])
        return int(st.x[k])

    def count(eng, st, c):
        q = quads_of_args(eng, st, c)
        if len(q) != 1:
            raise Unsupported('blank_count of other quads')
        return Sym(('bc', quad_key(strip(eng, st, q[0]))), c.dty)

    def collect(eng, st, c):
        side = None
        for a in c.args:
            k = st.x.get(('side', eng.term(st, a)))
            if k:
                side = k
        ms = [a for a in c.args if a.__class__ is Ref and st.res(eng.load(st, a)).__class__ is MapF]
        if side is None or len(ms) > 1:
            raise Unsupported('collection of signatures')
        m = st.x[('sigs', side)]
        if ms:
            if deref(eng, st, ms[0]).es:
                raise Unsupported('collection into a map in use')
            eng.store(st, ms[0], m)
            return eng.unit()
        return m

    def sid(eng, st, v):
        v = deref(eng, st, v)
        if v.__class__ is not Agg:
            return None
        vec = st.res(v.f[0])
        if vec.__class__ is not VecF or not vec.vs:
            return None
        k = quad_key(strip(eng, st, vec.vs[0]))
        return k and (k[1], k[2] // 10)

    def matches(eng, st, c):
        ids = sorted(x for x in (sid(eng, st, a) for a in c.args) if x)
        if len(ids) != 2 or ids[0][0] == ids[1][0]:
            raise Unsupported('comparison of other signatures')
        k = ('m', ids[0][1], ids[1][1])
        if k not in st.x:
            raise NeedFork([lambda s: s.x.__setitem__(k, True), lambda s: s.x.__setitem__(k, False)])
        return int(st.x[k])

    def search(eng, st, c):
        me = [deref(eng, st, a) for a in c.args]
        sg = [v for v in me if v.__class__ is Agg and seq.target(eng, v.ty) == 'BTreeBijection']
        it = [v for v in me if v.__class__ in seq.ITERS]
        mp = [v for v in me if v.__class__ is MapF]
        if len(sg) != 1 or len(it) != 1 or it[0].__class__ is not ArrIter or len(mp) != 2:
            raise Unsupported('search on other arguments')
        cands = []
        for v in it[0].vs:
            cs = deref(eng, st, v.f[1])
            cands.append((reskey(eng, st, v.f[0]), tuple(reskey(eng, st, cs.es[i][0]) for i in cs.live())))
        st.events.append(('search', sg[0], tuple(cands), tuple(mp)))
        return Sym(('FOUND',), c.dty)
    icpt = {'ground_quads_match': ground, 'blank_count': count, 'collect_signatures': collect, 'matches': matches, 'find_from_candidates': search}
    eng = engine(ctx, icpt)
    one_ = lambda n: ctx.p.insts[roots(ctx, n)[0]['root']]['body']['locals']
    cl = one_('collect_signatures')
    mt = [eng.p.types[eng.p.types[t]['to']] for t in cl[1:4] if eng.p.types[t]['k'] == 'ref' and seq.target(eng, eng.p.types[t]['to']) == 'BTreeMap']
    if not mt:
        ctx.ob(name, UND, 'unexpected signature', ctx.where(r))
        return
    rt, sgt = mt[0]['ga'][0], mt[0]['ga'][1]
    def key(s, c, i):
        return s.rep(('*', (c, i)))

    shapes = [(), (1,), (2,), (1, 1), (1, 2)]
    tot = 0
    # three blank nodes on each side: all comparisons open for one blank node only, the others compare equal with every one
    many = [((1, 1, 1), (1, 1, 1), free) for free in (lambda i, j: i == 0, lambda i, j: i == 2, lambda i, j: j == 1)]
    for sa, sb, free in [(x, y, None) for x in shapes for y in shapes] + many:
        st = new_state()
        if free is not None:
            for i in range(3):
                for j in range(3):
                    if not free(i, j):
                        st.x[('m', i, j)] = True
        args = sym_args(eng, inst)
        ds = set_datasets(eng, st, args, 1, 1, qt)
        for a, side, sh in zip(ds, 'ab', (sa, sb)):
            st.x[('side', eng.term(st, a))] = side
            bc = Sym(('bc', ('Q', side, 0)), None)
            st.assume_int('le', len(sh), bc)
            if not sh:
                st.assume_int('le', bc, 0)
            ks = [Sym((side.upper(), i), rt) for i in range(len(sh))]
            for i in range(len(ks)):
                for j in range(i):
                    st.add_neq(reskey(eng, st, ks[i]), reskey(eng, st, ks[j]))
            st.x[('sigs', side)] = MapF(es=[(k, Agg(sgt, 0, [VecF([Sym(('Q', side, 10 * i + x), qt) for x in range(n)])])) for i, (k, n) in enumerate(zip(ks, sh))])
        outs, _ = run(ctx, eng, r, args, st)

        def judge(s, o):
            if o is None:
                return 'panics'
            v = s.res(o.val)
            se = [e for e in s.events if e[0] == 'search']
            f = s.bind.get(('FOUND',))
            if (v.__class__ is Sym and v.key == ('FOUND',)) or (f is not None and v == f and f.var == 1):
                if len(se) != 1:
                    return '?several searches'
                if not s.x.get('ground'):
                    return 'an isomorphism is looked for although the statements without blank nodes were not compared' if 'ground' not in s.x else 'the statements without blank nodes differ and an isomorphism is still looked for'
                if len(sa) != len(sb) and not counts_equal(eng, s, ds):
                    return 'an isomorphism is looked for although the numbers of blank nodes differ'
                _, sg, cands, mp = se[0]
                fi, bi = sigma_fields(ctx, sg.ty)
                if any(m.__class__ is not MapF or m.es or m.base for m in (map_field(eng, s, sg, fi), map_field(eng, s, sg, bi))):
                    return 'the search starts from a renaming that is not empty'
                if mp[0] != s.x[('sigs', 'a')] or mp[1] != s.x[('sigs', 'b')]:
                    return 'the search is given other statements'
                got = dict(cands)
                for i in range(len(sa)):
                    k = key(s, 'A', i)
                    if k not in got:
                        return 'a blank node of the first dataset is not assigned'
                    for j in range(len(sb)):
                        if key(s, 'B', j) not in got[k] and sorted(sa) == sorted(sb) and pairings(s, sa, sb, i, j):
                            return 'a blank node of the second dataset is not tried although its statements match'
                return None
            if v.__class__ is Sym:
                return '?result %r' % (v,)
            if f is not None and f.var == 0 and v == f:
                return None
            x = seq.opt_of(eng, s, v)
            if x is not None:
                x = strip(eng, s, x[0])
                if not sa and not sb and x.__class__ is Agg and all(m.__class__ is MapF and not m.es and m.base is None for m in (map_field(eng, s, x, i) for i in sigma_fields(ctx, x.ty))):
                    # no blank node to assign
                    if s.x.get('ground'):
                        return None
                    if 'ground' not in s.x:
                        return '?an isomorphism between datasets whose statements were not compared here'
                return 'an isomorphism is reported without a search'
            # refused: one of the necessary conditions has to fail
            if counts_equal(eng, s, ds) is False or s.x.get('ground') is False or sorted(sa) != sorted(sb):
                return None
            bc = [Sym(('bc', ('Q', x, 0)), None) for x in 'ab']
            if s.try_int('eq', bc[0], bc[1]) is False:
                return None
            if not pairings(s, sa, sb):
                return None
            return 'datasets are said not to be isomorphic although nothing found rules it out'
        tot += judge_all(ctx, '%s, blank nodes with %s and %s statements' % (name, list(sa), list(sb)), r, outs, judge, 1)

    return tot


def pairings(s, sa, sb, i=None, j=None):
    """can the blank nodes be paired off (the i-th with the j-th), as far as the comparisons made tell"""
    return any(all(sa[x] == sb[p[x]] and s.x.get(('m', x, p[x])) is not False for x in range(len(sa)))
               for p in itertools.permutations(range(len(sb))) if i is None or p[i] == j)


def counts_equal(eng, s, ds):
    """what is known of the equality of the numbers of statements"""
    cs = []
    for a in ds:
        t = eng.term(s, a)
        cs.append([Sym(k, None) for k in all_keys(s) if k[0] == 'app' and k[1].endswith('quads_count') and t in k[2:]])
    if not cs[0] or not cs[1]:
        return None
    return s.try_int('eq', cs[0][0], cs[1][0])


def all_keys(s):
    out = set()
    for d in (s.uf,):
        for a, b in d.items():
            out |= {a, b}
    for a, b in list(s.zone):
        out |= {a, b}
    for x in s.zneq:
        out |= set(x[:2])
    for a, b in s.neq:
        out |= {a, b}
    for e in s.events:
        if e[0].endswith('quads_count'):
            out.add(('app', e[0]) + tuple(e[1]))
    return [k for k in out if isinstance(k, tuple) and len(k) >= 3 and isinstance(k[1], str)]


def check_wrappers(ctx):
    """the other entry points give the answer of find_bijection_with on the same datasets"""
    r0 = one(ctx, 'find_bijection_with')
    if r0 is None:
        return

    def find(eng, st, c):
        ts = tuple(eng.term(st, a) for a in c.args)
        st.events.append(('find', ts))
        return Sym(('FOUND',), c.dty)
    eng = engine(ctx, {'find_bijection_with': find})
    for n in ('are_isomorphic', 'are_isomorphic_with', 'find_bijection'):
        for r in roots(ctx, n):
            inst = ctx.p.insts[r['root']]
            outs, args = run(ctx, eng, r, None, new_state())

            def judge(s, o):
                if o is None:
                    return 'panics'
                fs = [e for e in s.events if e[0] == 'find']
                v = s.res(o.val)
                ts = [eng.term(s, a) for a in args[-2:]]
                if len(fs) != 1:
                    return '?%d searches' % len(fs)
                got = list(fs[0][1][1:])
                if len(args) == 3 and fs[0][1][0] != eng.term(s, args[0]):
                    return 'another interpretation is used'
                if n == 'find_bijection':
                    if got != ts:
                        return 'the renaming is between other datasets'
                    return None if v.__class__ is Sym and v.key == ('FOUND',) else ('another renaming is returned' if v.__class__ is not Agg else None if same_found(eng, s, v) else 'another renaming is returned')
                if sorted(map(repr, got)) != sorted(map(repr, ts)):
                    return 'other datasets are compared'
                res = result_bool(eng, s, o)
                found = seq.opt_of(eng, s, Sym(('FOUND',), FT[0])) is not None
                if res != found:
                    return 'answers %s although a renaming was %sfound' % (res, '' if found else 'not ')
            FT = [local_of(ctx, r0, 0) if n != 'are_isomorphic' else None]
            FT = [ft_of(eng, ctx, r)]
            judge_all(ctx, n, r, outs, judge, 1)


def same_found(eng, s, v):
    f = s.bind.get(('FOUND',))
    return f is not None and f == v


def ft_of(eng, ctx, r):
    return ctx.p.insts[one(ctx, 'find_bijection_with')['root']]['body']['locals'][0]
