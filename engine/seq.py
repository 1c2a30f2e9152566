"""Sequences, vectors, sets and maps whose elements are known one by one.

Used where the code handles short sequences of abstract elements (quads, resources) and the
property is about which element goes where.  Elements stay opaque: equality of two of them is
decided by the state (and splits it), nothing is computed on them.  The models are immutable
values, so that copies are independent, and places inside them are reached by projection."""
from core import *
from lib import strip, short
import models
from models import ArrIter


class VecF(Model):
    def __init__(self, vs=()):
        self.vs = tuple(vs)

    def __eq__(self, o):
        return o.__class__ is VecF and self.vs == o.vs

    def __hash__(self):
        return hash(('vecf', self.vs))

    def term(self, st):
        return ('vecf',) + tuple(repr(v) for v in self.vs)

    def __repr__(self):
        return 'VecF%r' % (list(self.vs),)

    def idx(self, p):
        if isinstance(p, tuple) and p[0] in ('el', 'i') and isinstance(p[1], int) and p[1] < len(self.vs):
            return p[1]
        raise Unsupported('place %r of a vector' % (p,))

    def project(self, eng, st, p):
        return self.vs[self.idx(p)]

    def update(self, eng, st, p, rest, val):
        i = self.idx(p)
        vs = list(self.vs)
        vs[i] = eng.upd(st, vs[i], rest, val)
        return VecF(vs)


class MapF(Model):
    """base: None (empty) or the key of an unknown map; es: (key, value) or (key, None) once removed"""
    def __init__(self, base=None, es=(), isset=False, vty=None):
        self.base, self.es, self.isset, self.vty = base, tuple(es), isset, vty

    def __eq__(self, o):
        return o.__class__ is MapF and (self.base, self.es, self.isset) == (o.base, o.es, o.isset)

    def __hash__(self):
        return hash(('mapf', self.base, len(self.es)))

    def term(self, st):
        return ('mapf', self.base) + tuple(repr(v) for v in self.es)

    def __repr__(self):
        return 'MapF(%r)%r' % (self.base, list(self.es))

    def idx(self, p):
        if isinstance(p, tuple) and p[0] in ('mk', 'mv') and p[1] < len(self.es) and self.es[p[1]][1] is not None:
            return p[1]
        raise Unsupported('place %r of a map' % (p,))

    def project(self, eng, st, p):
        i = self.idx(p)
        return self.es[i][0] if p[0] == 'mk' else self.es[i][1]

    def update(self, eng, st, p, rest, val):
        i = self.idx(p)
        if p[0] == 'mk':
            raise Unsupported('write to a key')
        es = list(self.es)
        es[i] = (es[i][0], eng.upd(st, es[i][1], rest, val))
        return self.put(es)

    def put(self, es):
        return MapF(self.base, es, self.isset, self.vty)

    def live(self):
        if self.base is not None:
            raise Unsupported('listing of an unknown map')
        return [i for i, e in enumerate(self.es) if e[1] is not None]


UNIT = ('present',)


class EntF(Model):
    def __init__(self, ref, key, i):
        self.ref, self.key, self.i = ref, key, i

    def term(self, st):
        return ('entf', repr(self.key), self.i)


class Ad(Model):
    """iterator adaptor"""
    def __init__(self, kind, it, f=None):
        self.kind, self.it, self.f = kind, it, f

    def term(self, st):
        return ('ad', self.kind, repr(self.it))


class Names(Model):
    """iterator over the names of one kind of a resource"""
    def __init__(self, kind, r, n=0):
        self.kind, self.r, self.n = kind, r, n

    def term(self, st):
        return ('names', self.kind, self.r, self.n)


ITERS = (ArrIter, Ad, Names)


def deref(eng, st, v):
    v = st.res(v)
    for _ in range(8):
        if v.__class__ is Ref or (v.__class__ is Sym and eng.is_ref(v.ty)):
            v = st.res(eng.load(st, v))
        else:
            break
    return v


def last_ref(eng, st, r):
    """the reference whose target is the value itself"""
    r = st.res(r)
    for _ in range(8):
        if r.__class__ is Sym and eng.is_ref(r.ty):
            r = eng.deref_sym(st, r)
        if r.__class__ is not Ref:
            raise Unsupported('not a reference: %r' % (r,))
        v = st.res(eng.read(st, r.a, r.p))
        if v.__class__ is Ref or (v.__class__ is Sym and eng.is_ref(v.ty)):
            r = v
            continue
        return r


# ---- equality of elements
def keyeq(eng, st, a, b):
    a, b = strip(eng, st, a), strip(eng, st, b)
    h = st.x.get('elem_id')
    if h is not None:
        ka, kb = h(st, a), h(st, b)
        if ka is not None and kb is not None:
            return st.decide_atom_eq(ka, kb)
    if a.__class__ is Agg and b.__class__ is Agg:
        if a.var != b.var or len(a.f) != len(b.f):
            return False
        return all(keyeq(eng, st, x, y) for x, y in zip(a.f, b.f))
    return models.values_eq(eng, st, a, b)


def mfind(eng, st, m, k):
    for i, (q, v) in enumerate(m.es):
        if keyeq(eng, st, q, k):
            return i if v is not None else None
    if m.base is None:
        return None
    if any(v is None and keyeq(eng, st, q, k) for q, v in m.es):
        return None
    kk = st.akey(strip(eng, st, k))
    d = fact(st, 'dom', m.base, kk)
    if d is None:
        def yes(s):
            s.x[('dom', m.base, kk)] = True

        def no(s):
            s.x[('dom', m.base, kk)] = False
        raise NeedFork([yes, no])
    return ('base', kk) if d else None


def fact(st, tag, *ks):
    """recorded fact whose keys are the same atoms by now"""
    k = (tag,) + ks
    if k in st.x:
        return st.x[k]
    rs = tuple(st.rep(x) if isinstance(x, tuple) else x for x in ks)
    for f, v in st.x.items():
        if isinstance(f, tuple) and len(f) == len(k) and f[0] == tag and tuple(st.rep(x) if isinstance(x, tuple) else x for x in f[1:]) == rs:
            return v
    return None


def mval(eng, st, r, m, i):
    """reference to the value found"""
    if isinstance(i, tuple):
        # value of an unknown map at the given key
        s = Sym(('img', m.base, i[1]), m.vty)
        return eng.box(st, s, 'img')
    return Ref(r.a, r.p + (('mv', i),))


def minsert(eng, st, m, k, v):
    """-> (new map, old value or None)"""
    for i, (q, o) in enumerate(m.es):
        if keyeq(eng, st, q, k):
            es = list(m.es)
            es[i] = (q if o is not None else k, v)
            return m.put(es), o
    i = mfind(eng, st, m, k)
    old = Sym(('img', m.base, i[1]), m.vty) if i is not None else None
    return m.put(m.es + ((k, v),)), old


def mremove(eng, st, m, k):
    for i, (q, o) in enumerate(m.es):
        if keyeq(eng, st, q, k):
            es = list(m.es)
            if m.base is None:
                del es[i]
            else:
                es[i] = (q, None)
            return m.put(es), o
    i = mfind(eng, st, m, k)
    if i is None:
        return m, None
    return m.put(m.es + ((k, None),)), Sym(('img', m.base, i[1]), m.vty)


# ---- decisions inside lists of states
def decide(eng, st, v):
    out, work = [], [st]
    while work:
        s = work.pop()
        try:
            out.append((s, eng.truth(s, v)))
        except NeedFork as nf:
            for opt in nf.options:
                s2 = s.copy()
                try:
                    opt(s2)
                except Infeasible:
                    continue
                work.append(s2)
        except Infeasible:
            pass
    return out


def forked(st, fn):
    """fn(state) -> list of results, with the splits it asks for"""
    out, work = [], [st]
    while work:
        s0 = work.pop()
        s = s0.copy()
        try:
            out += fn(s)
        except NeedFork as nf:
            for opt in nf.options:
                s2 = s0.copy()
                try:
                    opt(s2)
                except Infeasible:
                    continue
                work.append(s2)
        except Infeasible:
            pass
    return out


def apply(eng, st, f, args, depth):
    """-> list of (state, result)"""
    if f.__class__ is not FnV and st.res(f).__class__ is not Ref:
        f = eng.box(st, f, 'adf')
    r = eng.call_fnlike(st, f, args, None, depth + 1, 'std::ops::FnMut::call_mut')
    if r is None:
        raise Unsupported('call of %r' % (f,))
    out = []
    for o in r:
        if o.kind == 'panic':
            raise Panic(o.val)
        if o.kind != 'ret':
            raise Unsupported(str(o.val))
        out.append((o.st, o.val))
    return out


def opt_of(eng, st, v):
    v = strip(eng, st, v)
    if v.__class__ is Sym:
        eng.variant_of(st, v)
        v = st.res(v)
    return (v.f[0],) if v.var == 1 else None


def tuple_of(eng, *f):
    return Agg(None, 0, f)


def pull(eng, st, it, depth):
    """-> list of (state, iterator, (value,) or None)"""
    it = deref(eng, st, it)
    if it.__class__ is ArrIter:
        if not it.vs:
            return [(st, it, None)]
        return [(st, ArrIter(it.vs[1:]), (it.vs[0],))]
    if it.__class__ is Names:
        return [names_next(eng, st, it)]
    if it.__class__ is not Ad:
        raise Unsupported('iteration over %r' % (it,))
    k = it.kind
    if k in ('zip',):
        out = []
        for s, a, v in pull(eng, st, it.it[0], depth):
            if v is None:
                out.append((s, Ad(k, (a, it.it[1])), None))
                continue
            for s2, b, w in pull(eng, s, it.it[1], depth):
                out.append((s2, Ad(k, (a, b)), None if w is None else (tuple_of(eng, v[0], w[0]),)))
        return out
    if k == 'chain':
        out = []
        for s, a, v in pull(eng, st, it.it[0], depth):
            if v is not None:
                out.append((s, Ad(k, (a, it.it[1])), v))
                continue
            for s2, b, w in pull(eng, s, it.it[1], depth):
                out.append((s2, Ad(k, (ArrIter(()), b)), w))
        return out
    if k in ('take', 'skip'):
        n = it.f
        if k == 'take':
            if n == 0:
                return [(st, it, None)]
            return [(s, Ad(k, a, n - 1), v) for s, a, v in pull(eng, st, it.it, depth)]
        cur = [(st, it.it, ())]
        for _ in range(n):
            cur = [x if x[2] is None else y for x in cur for y in ([x] if x[2] is None else pull(eng, x[0], x[1], depth))]
        out = []
        for s, a, v in cur:
            if v is None:
                out.append((s, Ad(k, a, 0), None))
            else:
                out += [(s2, Ad(k, b, 0), w) for s2, b, w in pull(eng, s, a, depth)]
        return out
    if k == 'flat':
        out = []
        cur, front = it.it
        if front is not None:
            for s, a, v in pull(eng, st, front, depth):
                if v is not None:
                    out.append((s, Ad(k, (cur, a), it.f), v))
                else:
                    out += pull(eng, s, Ad(k, (cur, None), it.f), depth)
            return out
        for s, a, v in pull(eng, st, cur, depth):
            if v is None:
                out.append((s, Ad(k, (a, None), it.f), None))
                continue
            for s2, w in (apply(eng, s, it.f, [v[0]], depth) if it.f is not None else [(s, v[0])]):
                fi = into_iter(eng, s2, w, depth)
                out += pull(eng, s2, Ad(k, (a, fi), it.f), depth)
        return out
    out = []
    for s, a, v in pull(eng, st, it.it, depth):
        me = Ad(k, a, it.f)
        if v is None:
            out.append((s, me, None))
        elif k == 'map':
            out += [(s2, me, (w,)) for s2, w in apply(eng, s, it.f, [v[0]], depth)]
        elif k == 'enumerate':
            out.append((s, Ad(k, a, it.f + 1), (tuple_of(eng, it.f, v[0]),)))
        elif k in ('copied', 'cloned'):
            out.append((s, me, (eng.load(s, v[0]),)))
        elif k == 'filter':
            for s2, w in apply(eng, s, it.f, [eng.box(s, v[0], 'item')], depth):
                for s3, b in decide(eng, s2, w):
                    if b:
                        out.append((s3, me, v))
                    else:
                        out += pull(eng, s3, me, depth)
        elif k == 'filter_map':
            for s2, w in apply(eng, s, it.f, [v[0]], depth):
                for s3, o in forked(s2, lambda q: [(q, opt_of(eng, q, w))]):
                    if o is not None:
                        out.append((s3, me, o))
                    else:
                        out += pull(eng, s3, me, depth)
        elif k == 'inspect':
            out += [(s2, me, v) for s2, w in apply(eng, s, it.f, [eng.box(s, v[0], 'item')], depth)]
        elif k == 'take_while':
            for s2, w in apply(eng, s, it.f, [eng.box(s, v[0], 'item')], depth):
                for s3, b in decide(eng, s2, w):
                    out.append((s3, me if b else ArrIter(()), v if b else None))
        elif k == 'map_while':
            for s2, w in apply(eng, s, it.f, [v[0]], depth):
                for s3, o in forked(s2, lambda q: [(q, opt_of(eng, q, w))]):
                    out.append((s3, me if o is not None else ArrIter(()), o))
        elif k == 'skip_while':
            for s2, w in apply(eng, s, it.f, [eng.box(s, v[0], 'item')], depth):
                for s3, b in decide(eng, s2, w):
                    if b:
                        out += pull(eng, s3, me, depth)
                    else:
                        out.append((s3, a, v))
        else:
            raise Unsupported('adaptor ' + k)
    return out


def drain(eng, st, it, depth):
    """-> list of (state, values)"""
    out, work = [], [(st, it, [])]
    while work:
        s, a, vs = work.pop()
        for s2, b, v in pull(eng, s, a, depth):
            if v is None:
                out.append((s2, vs))
            else:
                if len(vs) > 24:
                    raise Unsupported('long sequence')
                work.append((s2, b, vs + [v[0]]))
    return out


def names_next(eng, st, it):
    if it.n >= names_cap(st, it.r) or not has_name(st, it.kind, it.r, it.n):
        return (st, it, None)
    return (st, Names(it.kind, it.r, it.n + 1), (Sym(('name', it.kind, it.r, it.n), st.x.get(('namety', it.kind))),))


def names_cap(st, r):
    """how many names of each kind a resource has at most in this analysis"""
    r = st.rep(r)
    return 2 if any(st.rep(k) == r for k in st.x.get('two_names', ())) else 1


def has_name(st, kind, r, n=0):
    """does the resource have more than n names of this kind; forks"""
    r = st.rep(r)
    if fact(st, 'anon', r) is True:
        return False
    v = fact(st, 'has', kind, r, n)
    if v is None and n and not has_name(st, kind, r, n - 1):
        v = False
    if v is None:
        def yes(s):
            s.x[('has', kind, r, n)] = True
            known(s, r)

        def no(s):
            s.x[('has', kind, r, n)] = False
            known(s, r)
        raise NeedFork([yes, no])
    return v


def known(s, r):
    """facts on names and anonymity have to agree"""
    fs = [fact(s, 'has', k, r, 0) for k in ('iri', 'lit')]
    a = fact(s, 'anon', r)
    if a is True and True in fs:
        raise Infeasible()
    if a is False and fs == [False, False]:
        raise Infeasible()


def is_anon(st, r):
    r = st.rep(r)
    a = fact(st, 'anon', r)
    if a is not None:
        return a
    fs = [fact(st, 'has', k, r, 0) for k in ('iri', 'lit')]
    if True in fs:
        return False
    if fs == [False, False]:
        return True

    def yes(s):
        s.x[('anon', r)] = True
        known(s, r)

    def no(s):
        s.x[('anon', r)] = False
        known(s, r)
    raise NeedFork([yes, no])


def reskey(eng, st, v):
    return st.akey(strip(eng, st, v))


# ---- iterators over containers
def into_iter(eng, st, v, depth=0):
    v0 = v = st.res(v)
    if v.__class__ in ITERS:
        return v
    ref = None
    for _ in range(8):
        if v.__class__ is Ref or (v.__class__ is Sym and eng.is_ref(v.ty)):
            ref = last_ref(eng, st, v)
            v = st.res(eng.read(st, ref.a, ref.p))
            break
    if v.__class__ in ITERS:
        return v0                   # by mutable reference
    if v.__class__ is VecF:
        if ref is None:
            return ArrIter(v.vs)
        return ArrIter([Ref(ref.a, ref.p + (('el', i),)) for i in range(len(v.vs))])
    if v.__class__ is MapF:
        es = v.live()
        if ref is None:
            return ArrIter([v.es[i][0] if v.isset else tuple_of(eng, *v.es[i]) for i in es])
        return ArrIter([mref(eng, ref, i, v) for i in es])
    if v.__class__ is Sym and v.ty is not None and eng.p.types[v.ty].get('def', '').endswith('option::Option'):
        eng.variant_of(st, v)
        v = st.res(v)
    if v.__class__ is Agg and v.ty is not None and eng.p.types[v.ty].get('def', '').endswith('option::Option'):
        if ref is None:
            return ArrIter(v.f if v.var == 1 else ())
        return ArrIter([Ref(ref.a, ref.p + (('d', 1), 0))] if v.var == 1 else ())
    raise Unsupported('into_iter of %r' % (v,))


def mref(eng, ref, i, m):
    k = Ref(ref.a, ref.p + (('mk', i),))
    return k if m.isset else tuple_of(eng, k, Ref(ref.a, ref.p + (('mv', i),)))


def target(eng, t):
    d = eng.p.types[t]
    return short(d.get('def', '')) if d['k'] == 'adt' else d['k']


def collect(eng, st, t, vs):
    n = target(eng, t)
    if n == 'Vec':
        return VecF(vs)
    if n in ('BTreeSet', 'HashSet'):
        m = MapF(isset=True)
        for v in vs:
            m = sinsert(eng, st, m, v)[0]
        return m
    if n in ('BTreeMap', 'HashMap'):
        m = MapF()
        for v in vs:
            k, w = v.f
            m = minsert(eng, st, m, k, w)[0]
        return m
    raise Unsupported('collection into ' + n)


def sinsert(eng, st, m, k):
    for q, v in m.es:
        if keyeq(eng, st, q, k):
            return m, False
    return m.put(m.es + ((k, UNIT),)), True


def container(eng, st, v):
    """container and its place, given a reference to it or the value"""
    v = st.res(v)
    if v.__class__ is Ref or (v.__class__ is Sym and eng.is_ref(v.ty)):
        r = last_ref(eng, st, v)
        x = st.res(eng.read(st, r.a, r.p))
        return r, x
    return None, v


ITER = 'std::iter::Iterator::'
MAKERS = ('map', 'filter', 'filter_map', 'inspect', 'take_while', 'map_while', 'skip_while')


def iter_call(eng, st, c, depth, meth):
    it = st.res(c.args[0])
    base = deref(eng, st, it)
    if base.__class__ not in ITERS:
        return None
    byref = it.__class__ is not base.__class__
    A = c.args
    if meth in MAKERS:
        return [(st, Ad(meth, it, A[1]))]
    if meth in ('copied', 'cloned'):
        return [(st, Ad(meth, it))]
    if meth == 'enumerate':
        return [(st, Ad(meth, it, 0))]
    if meth in ('zip', 'chain'):
        return [(st, Ad(meth, (it, into_iter(eng, st, A[1], depth))))]
    if meth in ('take', 'skip'):
        n = st.res(A[1])
        if not isinstance(n, int):
            raise Unsupported(meth)
        # the sequences explored stand for longer ones: a fixed limit beyond them is one they reach
        return [(st, Ad(meth, it, n if n < 5 else 2))]
    if meth in ('flat_map', 'flatten'):
        return [(st, Ad('flat', (it, None), A[1] if meth == 'flat_map' else None))]
    if meth == 'rev':
        return [(s, ArrIter(list(reversed(vs)))) for s, vs in drain(eng, st, it, depth)]
    if meth in ('by_ref', 'into_iter', 'fuse'):
        return [(st, it)]
    if meth == 'size_hint':
        return None

    def put(s, a):
        # a reference to the iterator sees it advance
        if byref:
            r = last_ref(eng, s, c.args[0])
            eng.write(s, r.a, r.p, deref(eng, s, a))
    if meth == 'next':
        out = []
        for s, a, v in pull(eng, st, base, depth):
            put(s, a)
            out.append((s, eng.none(c.dty) if v is None else eng.some(c.dty, retype(eng, c.dty, v[0]))))
        return out
    if meth == 'nth':
        n = st.res(A[1])
        if not isinstance(n, int):
            raise Unsupported(meth)
        cur = [(st, base, None)]
        for i in range(n + 1):
            nxt = []
            for s, a, v in cur:
                nxt += [(s, a, v)] if v == 'end' else [(s2, b, w if w is not None else 'end') for s2, b, w in pull(eng, s, a, depth)]
            cur = nxt
        out = []
        for s, a, v in cur:
            put(s, a)
            out.append((s, eng.none(c.dty) if v == 'end' else eng.some(c.dty, retype(eng, c.dty, v[0]))))
        return out
    if meth == 'partition':
        out, work = [], [(st, base, [], [])]
        while work:
            s, a, xs, ys = work.pop()
            for s2, b, v in pull(eng, s, a, depth):
                if v is None:
                    t = eng.p.types[c.dty]
                    ts = t.get('f') or t.get('to') or t.get('el')
                    out += forked(s2, lambda q: [(q, tuple_of(eng, collect(eng, q, ts[0], xs), collect(eng, q, ts[1], ys)))])
                    continue
                if len(xs) + len(ys) > 24:
                    raise Unsupported('long sequence')
                for s3, w in apply(eng, s2, A[1], [eng.box(s2, v[0], 'item')], depth):
                    for s4, t in decide(eng, s3, w):
                        work.append((s4, b, xs + [v[0]], ys) if t else (s4, b, xs, ys + [v[0]]))
        return out
    if meth == 'collect':
        return [x for s, vs in drain(eng, st, base, depth) for x in forked(s, lambda q: [(q, collect(eng, q, c.dty, vs))])]
    if meth == 'count':
        return [(s, Len(len(vs))) for s, vs in drain(eng, st, base, depth)]
    if meth == 'last':
        return [(s, eng.some(c.dty, vs[-1]) if vs else eng.none(c.dty)) for s, vs in drain(eng, st, base, depth)]
    if meth in ('sum',):
        out = []
        for s, vs in drain(eng, st, base, depth):
            t = 0
            for v in vs:
                v = strip(eng, s, v)
                t = v if t == 0 else eng.linadd(s, t, v, 1)
            out.append((s, t))
        return out
    if meth == 'fold':
        out, work = [], [(st, base, A[1])]
        while work:
            s, a, acc = work.pop()
            for s2, b, v in pull(eng, s, a, depth):
                if v is None:
                    out.append((s2, acc))
                else:
                    work += [(s3, b, r) for s3, r in apply(eng, s2, A[2], [acc, v[0]], depth)]
        return out
    if meth in ('for_each', 'all', 'any', 'find', 'position', 'find_map'):
        f = A[1]
        if meth != 'for_each' and not byref:
            raise Unsupported(meth)
        if st.res(f).__class__ is not Ref and f.__class__ is not FnV:
            f = eng.box(st, f, 'adf')
        out, work = [], [(st, base, 0)]
        while work:
            s, a, n = work.pop()
            for s2, b, v in pull(eng, s, a, depth):
                if v is None:
                    if meth != 'for_each':
                        put(s2, b)
                    out.append((s2, eng.unit() if meth == 'for_each' else int(meth == 'all') if meth in ('all', 'any') else eng.none(c.dty)))
                    continue
                arg = eng.box(s2, v[0], 'item') if meth == 'find' else v[0]
                for s3, r in apply(eng, s2, f, [arg], depth):
                    if meth == 'for_each':
                        work.append((s3, b, n + 1))
                        continue
                    if meth == 'find_map':
                        for s4, o in forked(s3, lambda q: [(q, opt_of(eng, q, r))]):
                            if o is None:
                                work.append((s4, b, n + 1))
                            else:
                                put(s4, b)
                                out.append((s4, eng.some(c.dty, o[0])))
                        continue
                    for s4, t in decide(eng, s3, r):
                        if bool(t) == (meth != 'all'):
                            put(s4, b)
                            out.append((s4, 1 if meth == 'any' else 0 if meth == 'all' else eng.some(c.dty, v[0] if meth == 'find' else n)))
                        else:
                            work.append((s4, b, n + 1))
        return out
    return None


def retype(eng, opt, v):
    """tuples built here get the type of the item"""
    if v.__class__ is Agg and v.ty is None:
        t = eng.p.types[opt]['v'][1]['f'][0][1]
        if eng.p.types[t]['k'] == 'tuple':
            return Agg(t, 0, v.f)
    return v


def default_of(eng, st, t, depth):
    d = eng.p.types[t]
    if d['k'] == 'adt' and d['local']:
        for r in eng.p.roots:
            if r['name'] == 'default' and short(r.get('bself') or '') == short(d['def']) and r.get('btrait') == 'Default':
                outs = eng.run(st, r['root'], [], depth + 1)
                if len(outs) == 1 and outs[0].kind == 'ret':
                    return outs[0].st, outs[0].val
        raise Unsupported('default of ' + d['s'])
    n = target(eng, t)
    if n in ('Vec',):
        return st, VecF()
    if n in ('BTreeSet', 'HashSet'):
        return st, MapF(isset=True)
    if n in ('BTreeMap', 'HashMap'):
        return st, MapF()
    return st, models.default_value(eng, st, t)


MAPS = ('std::collections::BTreeMap::', 'std::collections::HashMap::')
SETS = ('std::collections::BTreeSet::', 'std::collections::HashSet::')
VECS = ('std::vec::Vec::', 'core::slice::<impl [T]>::', 'std::slice::<impl [T]>::', 'alloc::slice::<impl [T]>::')


def container_call(eng, st, c, depth):
    path = c.callee['path']
    rpath = c.callee.get('rpath', path)
    meth = path.split('::')[-1]
    A = c.args
    if c.dty is None:
        c.dty = c.callee.get('out')
    if path == 'std::mem::take' and A[0].__class__ is Ref:
        old = st.res(eng.load(st, A[0]))
        new = {VecF: VecF, ArrIter: lambda: ArrIter([]), MapF: lambda: MapF(isset=old.isset)}.get(old.__class__)
        if new is None:
            return None
        s = st.copy()
        eng.store(s, A[0], new())
        return [(s, old)]
    if path in ('std::default::Default::default', 'std::convert::From::from') or not A:
        if meth in ('new', 'default', 'with_capacity') and (path.startswith(MAPS + SETS + VECS) or meth == 'default') and c.dty is not None:
            n = target(eng, c.dty)
            if n == 'Vec':
                return [(st, VecF())]
            if n in ('BTreeSet', 'HashSet'):
                return [(st, MapF(isset=True))]
            if n in ('BTreeMap', 'HashMap'):
                return [(st, MapF())]
        return None
    if meth == 'with_capacity' and path.startswith('std::vec::Vec::'):
        return [(st, VecF())]
    if path == 'std::iter::FromIterator::from_iter':
        it = deref(eng, st, A[0])
        if it.__class__ in ITERS and target(eng, c.dty) in ('Vec', 'BTreeSet', 'HashSet', 'BTreeMap', 'HashMap'):
            return [x for s, vs in drain(eng, st, it, depth) for x in forked(s, lambda q: [(q, collect(eng, q, c.dty, vs))])]
        return None
    if path == 'std::iter::IntoIterator::into_iter':
        v = deref(eng, st, A[0])
        if v.__class__ in ITERS + (VecF, MapF):
            return [(st, into_iter(eng, st, A[0], depth))]
        if getattr(v, 'ty', None) is not None and eng.p.types[v.ty].get('def', '').endswith('option::Option'):
            return forked(st, lambda s: [(s, into_iter(eng, s, A[0], depth))])
        return None
    r0 = st.res(A[0])
    if r0.__class__ is EntF or (r0.__class__ is Agg and len(r0.f) == 1 and st.res(r0.f[0]).__class__ is EntF) or (r0.__class__ is Ref and deref(eng, st, r0).__class__ is EntF):
        return entry_call(eng, st, c, depth, meth)
    if not (r0.__class__ is Ref or (r0.__class__ is Sym and eng.is_ref(r0.ty)) or isinstance(r0, Model)):
        return None
    try:
        ref, v = container(eng, st, r0)
    except (Unsupported, KeyError):
        return None
    if v.__class__ is Sym and v.ty is not None and eng.p.types[v.ty]['k'] == 'adt' and short(eng.p.types[v.ty]['def']) in ('BTreeMap', 'HashMap') and path.startswith(MAPS):
        vty = eng.p.types[v.ty]['ga'][1]
        v = MapF(v.key, vty=vty)
        if ref is not None:
            eng.write(st, ref.a, ref.p, v)
    if v.__class__ is VecF:
        return vec_call(eng, st, c, depth, meth, path, ref, v)
    if v.__class__ is MapF:
        return map_call(eng, st, c, depth, meth, path, ref, v)
    if v.__class__ in ITERS and path == 'std::clone::Clone::clone':
        return [(st, v)]
    return None


def vec_call(eng, st, c, depth, meth, path, ref, v):
    A = c.args
    if path in ('std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut', 'std::convert::AsRef::as_ref') or meth in ('as_slice', 'as_mut_slice'):
        return [(st, ref)]
    if path == 'std::clone::Clone::clone' or meth in ('to_vec', 'into_boxed_slice', 'to_owned'):
        return [(st, v)]
    if meth == 'len':
        return [(st, Len(len(v.vs)))]
    if meth == 'is_empty':
        return [(st, int(not v.vs))]
    if meth in ('iter', 'iter_mut'):
        return [(st, into_iter(eng, st, ref, depth))]
    if meth == 'push':
        eng.write(st, ref.a, ref.p, VecF(v.vs + (A[1],)))
        return [(st, eng.unit())]
    if meth in ('sort', 'sort_unstable', 'sort_by', 'sort_unstable_by', 'sort_by_key', 'sort_unstable_by_key', 'reserve', 'shrink_to_fit', 'reverse'):
        return [(st, eng.unit())]
    if meth in ('index', 'index_mut', 'get', 'get_mut', 'get_unchecked'):
        i = st.res(A[1])
        if not isinstance(i, int):
            raise Unsupported('index')
        if i >= len(v.vs):
            if meth in ('get', 'get_mut'):
                return [(st, eng.none(c.dty))]
            raise Panic('index out of bounds')
        x = Ref(ref.a, ref.p + (('el', i),))
        return [(st, x if meth.startswith('index') else eng.some(c.dty, x))]
    if meth in ('first', 'last'):
        if not v.vs:
            return [(st, eng.none(c.dty))]
        return [(st, eng.some(c.dty, Ref(ref.a, ref.p + (('el', 0 if meth == 'first' else len(v.vs) - 1),))))]
    if meth in ('remove', 'swap_remove'):
        i = st.res(A[1])
        if not isinstance(i, int) or i >= len(v.vs):
            raise Unsupported('remove')
        vs = list(v.vs)
        x = vs[i]
        if meth == 'remove':
            del vs[i]
        else:
            vs[i] = vs[-1]
            vs.pop()
        eng.write(st, ref.a, ref.p, VecF(vs))
        return [(st, x)]
    if meth == 'pop':
        if not v.vs:
            return [(st, eng.none(c.dty))]
        eng.write(st, ref.a, ref.p, VecF(v.vs[:-1]))
        return [(st, eng.some(c.dty, v.vs[-1]))]
    if meth == 'truncate':
        n = st.res(A[1])
        if not isinstance(n, int):
            raise Unsupported('truncate')
        eng.write(st, ref.a, ref.p, VecF(v.vs[:n]))
        return [(st, eng.unit())]
    if meth in ('retain', 'retain_mut'):
        out = []
        for s, keep in kept(eng, st, A[1], [[Ref(ref.a, ref.p + (('el', i),))] for i in range(len(v.vs))], depth):
            w = st.res(eng.read(s, ref.a, ref.p)) if meth == 'retain_mut' else v
            eng.write(s, ref.a, ref.p, VecF([w.vs[i] for i in keep]))
            out.append((s, eng.unit()))
        return out
    if meth in ('clear',):
        eng.write(st, ref.a, ref.p, VecF())
        return [(st, eng.unit())]
    if meth == 'contains':
        return forked(st, lambda s: [(s, int(any(keyeq(eng, s, x, A[1]) for x in v.vs)))])
    if meth == 'extend':
        out = []
        for s, vs in drain(eng, st, into_iter(eng, st, A[1], depth), depth):
            eng.write(s, ref.a, ref.p, VecF(v.vs + tuple(vs)))
            out.append((s, eng.unit()))
        return out
    if meth == 'dedup':
        def dd(s):
            o = []
            for x in v.vs:
                if not any(keyeq(eng, s, x, y) for y in o):
                    o.append(x)         # equal elements are adjacent once sorted
            eng.write(s, ref.a, ref.p, VecF(o))
            return [(s, eng.unit())]
        return forked(st, dd)
    return None


def kept(eng, st, f, items, depth):
    """-> (state, positions of the elements the predicate holds for)"""
    if st.res(f).__class__ is not Ref and f.__class__ is not FnV:
        f = eng.box(st, f, 'adf')
    work = [(st, ())]
    for i, args in enumerate(items):
        work = [(s3, k + (i,) if t else k) for s, k in work for s2, r in apply(eng, s, f, list(args), depth) for s3, t in decide(eng, s2, r)]
    return work


def map_call(eng, st, c, depth, meth, path, ref, m):
    A = c.args
    if path == 'std::clone::Clone::clone':
        return [(st, m)]
    if meth == 'len' and m.base is not None:
        n = Sym(('maplen', m.base, tuple((repr(st.akey(strip(eng, st, k))), v is not None) for k, v in m.es)), c.dty)
        st.assume_int('le', sum(v is not None for _, v in m.es), n)
        return [(st, n)]
    if meth == 'len':
        return [(st, Len(len(m.live())))]
    if meth == 'is_empty':
        return [(st, int(not m.live()))]
    if meth in ('iter', 'iter_mut', 'drain'):
        return [(st, into_iter(eng, st, ref, depth))]
    if meth in ('keys',):
        return [(st, ArrIter([Ref(ref.a, ref.p + (('mk', i),)) for i in m.live()]))]
    if meth in ('values', 'values_mut'):
        return [(st, ArrIter([Ref(ref.a, ref.p + (('mv', i),)) for i in m.live()]))]
    if meth in ('into_keys', 'into_values'):
        return [(st, ArrIter([m.es[i][0 if meth == 'into_keys' else 1] for i in m.live()]))]
    if meth in ('first_key_value', 'last_key_value', 'first', 'last'):
        es = m.live()
        if not es:
            return [(st, eng.none(c.dty))]
        return [(st, eng.some(c.dty, mref(eng, ref, es[0 if meth.startswith('first') else -1], m)))]
    if meth in ('pop_first', 'pop_last'):
        es = m.live()
        if not es:
            return [(st, eng.none(c.dty))]
        i = es[0 if meth == 'pop_first' else -1]
        eng.write(st, ref.a, ref.p, m.put(m.es[:i] + m.es[i + 1:]))
        return [(st, eng.some(c.dty, m.es[i][0] if m.isset else retype(eng, c.dty, tuple_of(eng, *m.es[i]))))]
    if meth == 'retain' and m.base is None:
        es = m.live()
        out = []
        for s, keep in kept(eng, st, A[1], [[Ref(ref.a, ref.p + (('mk', i),))] + ([] if m.isset else [Ref(ref.a, ref.p + (('mv', i),))]) for i in es], depth):
            w = s.res(eng.read(s, ref.a, ref.p))
            eng.write(s, ref.a, ref.p, m.put(tuple(w.es[es[i]] for i in keep)))
            out.append((s, eng.unit()))
        return out
    if meth == 'clear':
        eng.write(st, ref.a, ref.p, MapF(isset=m.isset))
        return [(st, eng.unit())]
    if path == 'std::cmp::PartialEq::eq':
        _, o = container(eng, st, A[1])
        if o.__class__ is not MapF or not m.isset or not o.isset:
            raise Unsupported('comparison of maps')

        def eq(s):
            a, b = [m.es[i][0] for i in m.live()], [o.es[i][0] for i in o.live()]
            if len(a) != len(b):
                return [(s, 0)]
            return [(s, int(all(any(keyeq(eng, s, x, y) for y in b) for x in a)))]
        return forked(st, eq)
    if m.isset:
        if meth == 'insert':
            def ins(s):
                n, new = sinsert(eng, s, m, A[1])
                eng.write(s, ref.a, ref.p, n)
                return [(s, int(new))]
            return forked(st, ins)
        if meth == 'contains':
            return forked(st, lambda s: [(s, int(any(keyeq(eng, s, q, A[1]) for q, _ in m.es)))])
        if meth == 'remove':
            def rem(s):
                n, old = mremove(eng, s, m, A[1])
                eng.write(s, ref.a, ref.p, n)
                return [(s, int(old is not None))]
            return forked(st, rem)
        if meth in ('difference', 'intersection', 'is_subset', 'is_superset', 'is_disjoint', 'union', 'symmetric_difference'):
            oref, o = container(eng, st, A[1])
            if o.__class__ is not MapF:
                raise Unsupported(meth)

            def two(s):
                mine = [(i, any(keyeq(eng, s, m.es[i][0], o.es[j][0]) for j in o.live())) for i in m.live()]
                if meth in ('union', 'symmetric_difference', 'is_superset'):
                    theirs = [(j, any(keyeq(eng, s, m.es[i][0], o.es[j][0]) for i in m.live())) for j in o.live()]
                if meth == 'is_subset':
                    return [(s, int(all(b for _, b in mine)))]
                if meth == 'is_superset':
                    return [(s, int(all(b for _, b in theirs)))]
                if meth == 'is_disjoint':
                    return [(s, int(not any(b for _, b in mine)))]
                keep = [Ref(ref.a, ref.p + (('mk', i),)) for i, b in mine if meth == 'union' or b == (meth == 'intersection')]
                if meth in ('union', 'symmetric_difference'):
                    keep += [Ref(oref.a, oref.p + (('mk', j),)) for j, b in theirs if not b]
                return [(s, ArrIter(keep))]
            return forked(st, two)
        if meth == 'extend':
            def ext(s, vs):
                n = m
                for v in vs:
                    n = sinsert(eng, s, n, v)[0]
                eng.write(s, ref.a, ref.p, n)
                return [(s, eng.unit())]
            return [x for s, vs in drain(eng, st, into_iter(eng, st, A[1], depth), depth) for x in forked(s, lambda q: ext(q, vs))]
        return None
    if meth in ('get', 'get_mut', 'contains_key', 'index', 'get_key_value'):
        def get(s):
            i = mfind(eng, s, m, A[1])
            if meth == 'contains_key':
                return [(s, int(i is not None))]
            if i is None:
                if meth == 'index':
                    raise Panic('no entry for the key')
                return [(s, eng.none(c.dty))]
            r = mval(eng, s, ref, m, i)
            if meth == 'get_key_value':
                raise Unsupported(meth)
            return [(s, r if meth == 'index' else eng.some(c.dty, r))]
        return forked(st, get)
    if meth == 'insert':
        def ins(s):
            n, old = minsert(eng, s, m, A[1], A[2])
            eng.write(s, ref.a, ref.p, n)
            return [(s, eng.none(c.dty) if old is None else eng.some(c.dty, old))]
        return forked(st, ins)
    if meth == 'remove':
        def rem(s):
            n, old = mremove(eng, s, m, A[1])
            eng.write(s, ref.a, ref.p, n)
            return [(s, eng.none(c.dty) if old is None else eng.some(c.dty, old))]
        return forked(st, rem)
    if meth == 'entry':
        def ent(s):
            i = mfind(eng, s, m, A[1])
            if isinstance(i, tuple):
                raise Unsupported('entry of an unknown map')
            vs = eng.p.types[c.dty]['v']
            var = [j for j, v in enumerate(vs) if short(v['n']) == ('Vacant' if i is None else 'Occupied')][0]
            return [(s, Agg(c.dty, var, [EntF(ref, A[1], i)]))]
        return forked(st, ent)
    return None


def entry_call(eng, st, c, depth, meth):
    A = c.args
    e = st.res(A[0])
    if e.__class__ is Agg:
        e = st.res(e.f[0])
    e = deref(eng, st, e)
    r = e.ref
    m = st.res(eng.read(st, r.a, r.p))

    def place(i):
        return Ref(r.a, r.p + (('mv', i),))

    def add(s, v):
        n, _ = minsert(eng, s, m, e.key, v)
        eng.write(s, r.a, r.p, n)
        return place(len(n.es) - 1)
    if meth in ('or_default', 'or_insert', 'or_insert_with'):
        if e.i is not None:
            return [(st, place(e.i))]
        if meth == 'or_default':
            t = eng.p.types[c.dty]['to']
            s, v = default_of(eng, st, t, depth)
            return forked(s, lambda q: [(q, add(q, v))])
        if meth == 'or_insert':
            return forked(st, lambda q: [(q, add(q, A[1]))])
        out = []
        for o in eng.call_fnlike(st, A[1], [], None, depth + 1):
            if o.kind != 'ret':
                raise Unsupported('or_insert_with')
            out += forked(o.st, lambda q: [(q, add(q, o.val))])
        return out
    if meth == 'and_modify':
        if e.i is None:
            return [(st, A[0])]
        return [(s, A[0]) for s, _ in apply(eng, st, A[1], [place(e.i)], depth)]
    if meth == 'key':
        return [(st, eng.box(st, e.key, 'ekey'))]
    if e.i is None and meth == 'insert':
        return forked(st, lambda q: [(q, add(q, A[1]))])
    if e.i is not None:
        if meth in ('get', 'get_mut', 'into_mut'):
            return [(st, place(e.i))]
        if meth == 'insert':
            old = m.es[e.i][1]
            eng.write(st, r.a, r.p + (('mv', e.i),), A[1])
            return [(st, old)]
    return None


def arr_end(eng, st, c, meth):
    it = deref(eng, st, c.args[0])
    if it.__class__ is not ArrIter:
        return None
    if meth == 'len':
        return [(st, Len(len(it.vs)))]
    if not it.vs:
        return [(st, eng.none(c.dty))]
    r = last_ref(eng, st, c.args[0])
    eng.write(st, r.a, r.p, ArrIter(it.vs[:-1]))
    return [(st, eng.some(c.dty, retype(eng, c.dty, it.vs[-1])))]


def pre_call(base):
    """interception of the library calls modelled here"""
    def pre(eng, st, c, depth):
        p = c.callee['path']
        if not c.callee.get('local'):
            s2 = st.copy()
            r = None
            if p.startswith(ITER) and c.args:
                r = iter_call(eng, s2, c, depth, p[len(ITER):])
            if p in ('std::iter::DoubleEndedIterator::next_back', 'std::iter::ExactSizeIterator::len') and c.args:
                r = arr_end(eng, s2, c, p.split('::')[-1])
            if r is None:
                r = container_call(eng, s2, c, depth)
            if r is not None:
                return [Outcome(s, 'ret', v) for s, v in r]
        return base(eng, st, c, depth) if base is not None else None
    return pre
