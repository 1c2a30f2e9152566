"""Pattern matching iterators of the indexed stores.

Two stages.  The constructor is analysed from an arbitrary store and pattern: each component of the
pattern has to be turned into a constraint whose index set is the set of statements satisfying that
component.  Then `next` is analysed for every combination of constraints the constructor can build,
from an arbitrary state of the iterator satisfying the invariant: the statements still to come are
those at keys >= i, and no cursor has consumed a key >= i.  Cursors over ordered index sets yield
facts: the key peeked is a member, and no member lies between the cursor and it.  At loop heads the
modified locations are forgotten and the facts that every iteration preserves are kept (the largest
inductive subset of a fixed family of candidate facts).  Obligations: what is yielded matches, is
not below the frontier, nothing that matches is jumped over, and the state left satisfies the
invariant.
"""
from core import *
from lib import refine, same, strip, short, opened, head, X
import lib
import pat
import store
import bulk
from store import *
from bulk import *

INF = None


class PeekM(Model):
    """cursor over an ordered index set: all members >= lo are still to come"""
    def __init__(self, cid, lo, pk=None, dup=False, order=True, src=None):
        self.cid, self.lo, self.pk, self.dup, self.order, self.src = cid, lo, pk, dup, order, src

    def _t(self):
        return (self.cid, self.lo, self.pk, self.dup, self.order, self.src)

    def __eq__(self, o):
        return o.__class__ is PeekM and self._t() == o._t()

    def __hash__(self):
        return hash(self._t())

    def __repr__(self):
        return 'peek%r' % (self._t(),)

    def at(self, lo, pk):
        return PeekM(self.cid, lo, pk, self.dup, self.order, self.src)

    def term(self, st):
        return ('peek',) + self._t()


class LSlab(Model):
    """slab seen through the keys the iterator visits"""
    def __init__(self, kind):
        self.kind = kind

    def term(self, st):
        return ('lslab', self.kind)


class VecB(Model):
    """vector of keys filled by a loop: the entries in role x of the resources of a sequence"""
    def __init__(self, vid, adds=(), order=False):
        self.vid, self.adds, self.order = vid, adds, order

    def __eq__(self, o):
        return o.__class__ is VecB and (self.vid, self.adds, self.order) == (o.vid, o.adds, o.order)

    def __hash__(self):
        return hash((self.vid, self.adds))

    def __repr__(self):
        return 'vec(%r,%r,%r)' % (self.vid, self.adds, self.order)

    def term(self, st):
        return ('vecb', self.vid, self.adds, self.order)


# ================================================================ constructor
CM = dict(BM)


def cmodel(*names):
    def d(f):
        for n in names:
            CM[n] = f
        return f
    return d


@cmodel('std::iter::Iterator::peekable')
def m_peekable(eng, st, c):
    v = st.res(c.args[0])
    if v.__class__ is VecB:
        return PeekM(None, 0, None, True, v.order, ('multi',) + v.vid)
    it = whole_iter(eng, st, v)
    if it.at not in ('start', 'cut') or it.src[0] != 'set':
        raise Unsupported('cursor over %r' % (v,))
    return PeekM(None, 0, None, False, True, it.src[1:] if it.at == 'start' else (it.src[1], 'cut') + it.src[2:])


@cmodel('std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity')
def m_vec_new(eng, st, c):
    return VecB(fresh_id(st, 'vec'), (), True)


def vecb(eng, st, r):
    v = st.res(eng.load(st, r))
    if v.__class__ is not VecB:
        raise Unsupported('vector %r' % (v,))
    return v


@cmodel('<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend', "<std::vec::Vec<T, A> as std::iter::Extend<&'a T>>::extend")
def m_vec_extend(eng, st, c):
    v = vecb(eng, st, c.args[0])
    it = whole_iter(eng, st, c.args[1])
    if it.at not in ('start', 'cut') or it.src[0] != 'set':
        raise Unsupported('extension by %r' % (c.args[1],))
    eng.store(st, c.args[0], VecB(v.vid, v.adds + (it.src[1:] if it.at == 'start' else ('cut', 'cut') + it.src[2:],), False))
    return eng.unit()


@cmodel('core::slice::<impl [T]>::sort_unstable', 'std::slice::<impl [T]>::sort', 'core::slice::<impl [T]>::sort', 'std::slice::<impl [T]>::sort_unstable', 'alloc::slice::<impl [T]>::sort')
def m_vec_sort(eng, st, c):
    v = vecb(eng, st, c.args[0])
    eng.store(st, c.args[0], VecB(v.vid, v.adds, True))
    return eng.unit()


@cmodel('std::vec::Vec::<T, A>::dedup')
def m_vec_dedup(eng, st, c):
    vecb(eng, st, c.args[0])
    return eng.unit()


@cmodel('<std::vec::Vec<T, A> as std::ops::Deref>::deref', '<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut', 'std::vec::Vec::<T, A>::as_mut_slice')
def m_vec_deref(eng, st, c):
    return c.args[0]


@cmodel('std::vec::Vec::<T, A>::is_empty', 'core::slice::<impl [T]>::is_empty')
def m_vec_is_empty(eng, st, c):
    v = vecb(eng, st, c.args[0])
    k = ('vempty', v.vid)
    if k not in st.x:
        def opt(b):
            def f(s):
                s.x[k] = b
            return f
        raise NeedFork([opt(True), opt(False)])
    return int(st.x[k])


@cmodel('<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter')
def m_vec_into_iter(eng, st, c):
    v = st.res(c.args[0])
    if v.__class__ is VecB:
        return v
    return bulk.vec_into_iter(eng, st, c)


@cmodel('std::iter::IntoIterator::into_iter')
def m_into_iter(eng, st, c):
    return Sym(('sequence', eng.term(st, st.res(c.args[0]))), c.dty)


@cmodel('std::iter::Iterator::next')
def m_seq_next(eng, st, c):
    v = st.res(eng.load(st, c.args[0]))
    if v.__class__ is not Sym or v.key[0] != 'sequence':
        raise Unsupported('next on %r' % (v,))
    ity = eng.p.types[c.dty]['v'][1]['f'][0][1]
    x = take_item(eng, st, ity)
    st.events.append(('seq', v.key[1]))
    return eng.none(c.dty) if x is None else eng.some(c.dty, x)


def multi_hook(info):
    """loop rule for vectors filled from a sequence of resources"""
    cr = store.Carry()

    def hook(eng, st, fr, inst, body, bb, n, depth):
        live = [(a, v) for a, v in st.mem.items() if a[0] == fr and v.__class__ is VecB]
        if n == 0:
            if st.x.get('inloop') and ('item', None) not in since_loop(st) and any(a[0] == st.x['loopframe'] for a in st.mem):
                raise Unsupported('nested loops')
            st.x['loopframe'] = fr
            if any(v.adds for a, v in live):
                raise Unsupported('vector filled before the loop')
            if not live:
                raise Unsupported('loop without vector')
            seqs = {v.key for a, v in st.mem.items() if a[0] == fr for v in [st.res(v)] if v.__class__ is Sym and v.key[0] == 'sequence'}
            if len(seqs) != 1:
                raise Unsupported('loop over %d sequences' % len(seqs))
            vid = (inst['path'], bb, min(seqs, key=repr)[1])
            for a, v in live:
                st.mem[a] = VecB(vid, (), False)
            st.x['inloop'] = vid
            st.x['before'] = frozenset(world(st).ents)
            st.events.append(('loop', bb))
            cr.enter(eng, st, fr, body, bb)
            return None
        info.append((st.copy(), [v for a, v in live if v.vid == st.x['inloop']]))
        return None if cr.back(eng, st, fr, body, bb) else 'stop'
    return hook


def constructor(ctx, eng, r, positions):
    """-> (set of configurations, bad, und); a configuration: per position (semantics, variant, cursor kind)"""
    info = []
    eng.loop_hook = multi_hook(info)
    try:
        outs, args = explore(ctx, eng, r)
    finally:
        eng.loop_hook = None
    bad = und = None
    loops = {}
    for st, vs in info:
        def back(s):
            evs = since_loop(s)
            items = [e[1] for e in evs if e[0] == 'item']
            seqs = [e[1] for e in evs if e[0] == 'seq']
            if len(items) != 1 or items[0] is None:
                return 'a resource of the pattern is skipped'
            if len(set(v.adds for v in vs)) != 1:
                raise Unsupported('vectors %r' % (vs,))
            e = resolve_res(eng, s, 'S', strip(eng, s, items[0]))
            adds = vs[0].adds
            if e is None:
                if adds:
                    return 'adds statements for a resource that is not in the store'
                return None
            if len(adds) != 1 or adds[0][1] != 'role' or adds[0][3] != e.n:
                return 'the statements of a resource of the pattern are not all considered'
            return ('role', adds[0][2], seqs[0])
        try:
            for s, m in refine(st, back):
                if isinstance(m, tuple):
                    loops.setdefault(s.x['inloop'], set()).add(m[1:])
                elif m and s.imprecise:
                    und = 'imprecise'
                elif m:
                    bad = m
        except Unsupported as e:
            und = str(e)
    if und or any(o.kind == 'unsup' for o in outs):
        loops['partial'] = True
    configs = {}
    for o in outs:
        if o.kind == 'unsup':
            und = o.val
            continue
        if o.kind == 'panic':
            if o.st.imprecise:
                und = 'imprecise panic'
            else:
                bad = 'panics: %s' % o.val
            continue
        try:
            for s, m in refine(o.st, lambda s: conf(eng, s, o, args, loops, positions), 20000):
                if m[0] == 'bad':
                    if s.imprecise:
                        und = 'imprecise'
                    else:
                        bad = m[1]
                elif m[0] == 'ok':
                    configs[m[1]] = m[2]
        except Unsupported as e:
            und = str(e)
    return configs, bad, und


FIELD_POS = ['subject', 'predicate', 'object', 'graph']


def conf(eng, s, o, args, loops, arity):
    v = s.res(o.val)
    if v.__class__ is not Agg:
        raise Unsupported('iterator %r' % (v,))
    ty = eng.p.types[v.ty]
    names = [f[0] for f in ty['v'][0]['f']]
    ps = pat.parts(eng, s, args[1])
    if len(ps) != arity:
        raise Unsupported('pattern of %d components' % len(ps))
    segs = []
    for ev in s.events:
        if ev[0] == 'loop':
            segs.append([])
        elif segs and ev[0] == 'item':
            segs[-1].append(ev[1])
    if any(None not in g for g in segs):
        return ('bad', 'stops before all the resources given in the pattern are considered')
    out = []
    for i, n in enumerate(names):
        f = s.res(v.f[i])
        if n in FIELD_POS:
            continue
        if isinstance(f, int):
            if f != 0:
                return ('bad', 'the search starts after the first statement')
            continue
        t = f
        while t.__class__ is Ref:
            t = s.res(eng.load(s, t))
        if t.__class__ is SlabM and t.i[0] == 'S':
            continue
        if is_store(eng, t) and is_pristine(s, t, 'S'):
            continue
        raise Unsupported('field %s of the iterator' % n)
    for k in range(arity):
        if FIELD_POS[k] not in names:
            raise Unsupported('no %s constraint' % FIELD_POS[k])
        f = s.res(v.f[names.index(FIELD_POS[k])])
        if f.__class__ is not Agg:
            raise Unsupported('constraint %r' % (f,))
        p = ps[k]
        pk = [s.res(x) for x in f.f]
        cur = pk[0] if len(pk) == 1 and pk[0].__class__ is PeekM else None
        if pk and cur is None:
            raise Unsupported('constraint payload %r' % (pk,))
        if p[0] == 'any':
            sem = ('any',)
        elif p[0] == 'same':
            sem = ('same', p[1])
        else:
            g = opened(eng, s, p[1])
            if k == 3 and g.__class__ is Agg and head(eng, g)[0] == 'Option':
                g = g.f[0] if g.var == 1 else None
            sem = given_sem(eng, s, k, g, cur, loops)
            if sem[0] == 'bad':
                return sem
        if cur is not None and sem[0] not in ('set', 'never'):
            return ('bad', 'the %s is constrained although the pattern leaves it free' % FIELD_POS[k]) if sem[0] == 'any' else ('bad', 'the %s is compared with a fixed resource instead of the %s' % (FIELD_POS[k], FIELD_POS[sem[1]]))
        out.append((sem, f.var, None if cur is None else (cur.dup, cur.order)))
    return ('ok', tuple(out), (v.ty, tuple(s.res(v.f[names.index(FIELD_POS[k])]).ty for k in range(arity))))


def given_sem(eng, s, k, g, cur, loops):
    """semantics of a given component, checked against the cursor built for it"""
    x = ROLES[k]
    where = FIELD_POS[k]
    if g is None:
        if cur is None:
            return ('set',)
        if cur.src != ('S', 'defg'):
            return ('bad', 'the default graph is searched in another index')
        return ('set',)
    gs = strip(eng, s, g)
    if cur is not None and cur.src[0] == 'multi' or cur is None and loops:
        # a sequence of resources
        seqterm = eng.term(s, s.res(g))
        mine = [(vid, ls) for vid, ls in loops.items() if vid != 'partial' and any(q == seqterm for _, q in ls)]
        if cur is None:
            for vid, ls in mine:
                if s.x.get(('vempty', vid)) is True:
                    if any(y != x for y, q in ls):
                        return ('bad', 'the %s is searched in the index of another role' % where)
                    return ('never',)
            if loops.get('partial'):
                raise Unsupported('a loop could not be followed')
            return ('set',)
        vid = cur.src[1:]
        ls = loops.get(vid)
        if not ls:
            if loops.get('partial'):
                raise Unsupported('a loop could not be followed')
            return ('bad', 'the resources given for the %s are ignored' % where)
        if any(q != seqterm for _, q in ls):
            return ('bad', 'the %s is searched with the resources given for another component' % where)
        if any(y != x for y, _ in ls):
            return ('bad', 'the %s is searched in the index of another role' % where)
        return ('set',)
    e = resolve_res(eng, s, 'S', gs)
    if e is None:
        return ('never',)
    if cur is None:
        return ('set',)
    if cur.src[:2] != ('S', 'role'):
        return ('bad', 'the %s is searched in another index' % where)
    if cur.src[3] != e.n:
        return ('bad', 'the %s is searched among the statements of another resource' % where)
    if cur.src[2] != x:
        return ('bad', 'the %s is searched in the index of another role' % where)
    return ('set',)


# ================================================================ next
NM = {}


def nmodel(*names):
    def d(f):
        for n in names:
            NM[n] = f
        return f
    return d


def facts(st):
    return st.x.get('facts', ())


def add_fact(st, *f):
    if f not in facts(st):
        st.x['facts'] = facts(st) + (f,)


CAP = Sym(('cap',))


def lslab(eng, st, v):
    v = st.res(v)
    while v.__class__ is Ref:
        v = st.res(eng.load(st, v))
    if v.__class__ is not LSlab:
        raise Unsupported('slab %r' % (v,))
    return v


def entry(eng, st, key):
    """what the statement slab holds at a key: ('occ', n) or ('vac',); forks"""
    es = st.x.get('stm', ())
    for k, e in es:
        if st.try_int('eq', k, key) is True:
            return e
    for k, e in es:
        if st.decide_int('eq', k, key):
            return e
    n = len(es)

    def occ(s):
        s.x['stm'] = s.x.get('stm', ()) + ((key, ('occ', n)),)
        s.assume_int('lt', key, CAP)

    def vac(s):
        for f in facts(s):
            if f[0] == 'memb' and s.try_int('eq', f[2], key) is True and still(s, key):
                raise Infeasible()
        s.x['stm'] = s.x.get('stm', ()) + ((key, ('vac',)),)
    raise NeedFork([occ, vac])


def still(st, key):
    """a member at this key is still stored: extraction has removed those below the frontier"""
    return not st.x['extract'] or st.try_int('le', st.x['x0'], key) is True


def comp(st, x, n):
    return Sym(('comp', x, n), st.x['usize'])


def stm_cell(eng, st, n):
    a = ('stmcell', n)
    if a not in st.mem:
        fs = [comp(st, i, n) for i in range(3)]
        if st.x['arity'] == 4:
            fs.append(Sym(('gcomp', n), st.x['opt']))
        st.mem[a] = Agg(st.x['stmty'], 0, fs)
    return Ref(a)


@nmodel('slab::Slab::<T>::get')
def n_get(eng, st, c):
    h = lslab(eng, st, c.args[0])
    if h.kind == 'res':
        return eng.some(c.dty, res_cell(eng, st, c.args[1]))
    e = entry(eng, st, c.args[1])
    return eng.none(c.dty) if e[0] == 'vac' else eng.some(c.dty, stm_cell(eng, st, e[1]))


def res_cell(eng, st, key):
    key = st.res(key)
    a = ('rescell', key)
    if a not in st.mem:
        ty = eng.p.types[st.x['resty']]
        st.mem[a] = Agg(st.x['resty'], 0, [Sym(('rval' if n == 'value' else 'rother', key, n), t) for n, t in ty['v'][0]['f']])
    return Ref(a)


@nmodel('<slab::Slab<T> as std::ops::Index<usize>>::index')
def n_index(eng, st, c):
    h = lslab(eng, st, c.args[0])
    if h.kind == 'res':
        return res_cell(eng, st, c.args[1])
    e = entry(eng, st, c.args[1])
    if e[0] == 'vac':
        raise Panic('access to a vacant slot')
    return stm_cell(eng, st, e[1])


@nmodel('slab::Slab::<T>::contains')
def n_contains(eng, st, c):
    h = lslab(eng, st, c.args[0])
    if h.kind == 'res':
        raise Unsupported('contains')
    return int(entry(eng, st, c.args[1])[0] == 'occ')


@nmodel('slab::Slab::<T>::capacity')
def n_capacity(eng, st, c):
    if lslab(eng, st, c.args[0]).kind != 'stm':
        return Sym(('rescap',), c.dty)
    return CAP


@nmodel('slab::Slab::<T>::len')
def n_len(eng, st, c):
    if lslab(eng, st, c.args[0]).kind != 'stm':
        return Sym(('reslen',), c.dty)
    return Sym(('stmlen',), c.dty)


def peek_now(eng, st, ref):
    """-> the PeekM with its next element known: pk = a key or 'end'; forks"""
    p = st.res(eng.load(st, ref))
    if p.__class__ is not PeekM:
        raise Unsupported('cursor %r' % (p,))
    if p.pk is not None:
        return p
    k = st.x.get('npk', 0)
    ck = ('peeked', k)
    if ck not in st.x:
        j = Sym(('pk', p.cid, k), st.x['usize'])

        def some(s):
            if p.order:
                s.assume_int('le', p.lo if not p.dup else eng.linadd(s, p.lo, 1, -1), j)
                add_fact(s, 'gap', p.cid, p.lo, j)
            add_fact(s, 'memb', p.cid, j)
            s.assume_int('lt', j, CAP)
            for key, e in s.x.get('stm', ()):
                if e[0] == 'vac' and s.try_int('eq', key, j) is True and still(s, key):
                    raise Infeasible()
            s.x[ck] = j

        def none(s):
            if p.order:
                add_fact(s, 'gap', p.cid, p.lo, INF)
            s.x[ck] = 'end'
        raise NeedFork([some, none])
    st.x['npk'] = k + 1
    p = p.at(p.lo, st.x[ck])
    eng.store(st, ref, p)
    return p


@nmodel('std::iter::Peekable::<I>::peek')
def n_peek(eng, st, c):
    p = peek_now(eng, st, c.args[0])
    return eng.none(c.dty) if p.pk == 'end' else eng.some(c.dty, eng.box(st, p.pk))


def consume(eng, st, ref, p):
    if p.pk == 'end':
        return
    st.x['ncons'] = st.x.get('ncons', 0) + 1
    eng.store(st, ref, p.at(eng.linadd(st, p.pk, 1, 1), None))


@nmodel('<std::iter::Peekable<I> as std::iter::Iterator>::next')
def n_next(eng, st, c):
    p = peek_now(eng, st, c.args[0])
    if p.pk == 'end':
        return eng.none(c.dty)
    consume(eng, st, c.args[0], p)
    return eng.some(c.dty, p.pk)


@nmodel('std::iter::Peekable::<I>::next_if')
def n_next_if(eng, st, c):
    p = peek_now(eng, st, c.args[0])
    if p.pk == 'end':
        return eng.none(c.dty)
    outs = []
    for o in eng.call_fnlike(st, c.args[1], [eng.box(st, p.pk)], None, c.depth + 1):
        if o.kind != 'ret':
            outs.append(o)
            continue
        for s, t in refine(o.st, lambda s: eng.truth(s, o.val)):
            if t:
                consume(eng, s, c.args[0], p)
                outs.append(Outcome(s, 'ret', eng.some(c.dty, p.pk)))
            else:
                outs.append(Outcome(s, 'ret', eng.none(c.dty)))
    return outs


# ---- cover
def absent(eng, st, a, b, cid=None):
    """no statement at keys in [a, b) can match (cid: be a member of that cursor's set):
    every point of the interval lies in one of the intervals known to be free of them"""
    conf = st.x['conf']
    if cid is None and any(c[0][0] == 'never' for c in conf):
        return True
    iv = []
    for f in facts(st):
        if f[0] == 'gap' and (f[1] == cid if cid is not None else conf[f[1]][0][0] == 'set'):
            iv.append((f[2], f[3]))
        elif f[0] == 'M' and cid is None:
            iv.append((f[1], f[2]))
    for key, e in st.x.get('stm', ()):
        if e[0] == 'vac' or cid is None and mismatch(eng, st, e[1]):
            iv.append((key, eng.linadd(st, key, 1, 1)))
    x = Sym(('point',), st.x['usize'])
    s = st.copy()
    try:
        s.assume_int('le', a, x)
        if b is not INF:
            s.assume_int('lt', x, b)
        s.assume_int('lt', x, CAP)
    except Infeasible:
        return True
    return refuted(s, x, iv)


def refuted(s, x, iv):
    """x lies in one of the intervals, whatever the order of their bounds"""
    iv = list(iv)
    while True:
        rest = []
        moved = False
        for lo, hi in iv:
            below = s.try_int('lt', x, lo)
            above = False if hi is INF else s.try_int('le', hi, x)
            if below is True or above is True:
                continue
            if below is False and above is False:
                return True
            try:
                if below is False:
                    s.assume_int('le', hi, x)
                    moved = True
                    continue
                if above is False:
                    s.assume_int('lt', x, lo)
                    moved = True
                    continue
            except Infeasible:
                return True
            rest.append((lo, hi))
        iv = rest
        if not iv:
            return False
        if not moved:
            break
    lo, hi = iv[0]
    for f in (lambda t: t.assume_int('lt', x, lo), lambda t: t.assume_int('le', hi, x)):
        t = s.copy()
        try:
            f(t)
        except Infeasible:
            continue
        if not refuted(t, x, iv[1:]):
            return False
    return True


def comps_of(eng, st, n):
    v = st.res(st.mem[stm_cell(eng, st, n).a])
    return [st.res(x) for x in v.f]


def mismatch(eng, st, n):
    """is the statement known not to satisfy one of the equality constraints"""
    v = None
    for k, c in enumerate(st.x['conf']):
        if c[0][0] != 'same':
            continue
        v = v or comps_of(eng, st, n)
        a, b = v[k], v[c[0][1]]
        if k == 3:
            if a.__class__ is not Agg:
                continue
            if a.var == 0:
                return True
            a = st.res(a.f[0])
        if st.try_int('eq', a, b) is False:
            return True
    return False


def satisfied(eng, st, n, key):
    """-> None or why the statement is not known to match"""
    v = comps_of(eng, st, n)
    for k, c in enumerate(st.x['conf']):
        sem = c[0]
        if sem[0] == 'any':
            continue
        if sem[0] == 'never':
            return 'a statement is yielded although the %s given is not in the store' % FIELD_POS[k]
        if sem[0] == 'same':
            a, b = v[k], v[sem[1]]
            if k == 3:
                a = opened(eng, st, a)
                if a.var == 0:
                    return 'yields a statement of the default graph although its graph has to equal its %s' % FIELD_POS[sem[1]]
                a = st.res(a.f[0])
            if not st.decide_int('eq', a, b):
                return 'yields a statement whose %s differs from its %s although the pattern requires them equal' % (FIELD_POS[k], FIELD_POS[sem[1]])
        else:
            if not any(f[0] == 'memb' and f[1] == k and st.try_int('eq', f[2], key) is True for f in facts(st)):
                return 'yields a statement without comparing its %s with the one given' % FIELD_POS[k]
    return None


# ---- locations
def leaves(st, v, path=()):
    v = st.res(v)
    if v.__class__ is Agg:
        for i, x in enumerate(v.f):
            for y in leaves(st, x, path + (i,)):
                yield y
    else:
        yield path, v


def is_int(eng, v):
    return isinstance(v, int) or v.__class__ is Lin or (v.__class__ is Sym and v.ty is not None and eng.p.types[v.ty]['k'] == 'uint') or (v.__class__ is Sym and v.ty is None and v.key[0] in ('x0', 'hv', 'pk', 'cap'))


def locate(st, a, path):
    v = st.mem.get(a)
    if v is None:
        return None
    v = st.res(v)
    for i in path:
        if v.__class__ is not Agg or i >= len(v.f):
            return None
        v = st.res(v.f[i])
    return v


def put(st, a, path, x):
    def rec(v, p):
        if not p:
            return x
        v = st.res(v)
        fs = list(v.f)
        fs[p[0]] = rec(fs[p[0]], p[1:])
        return Agg(v.ty, v.var, fs)
    st.mem[a] = rec(st.mem[a], path)


def cell(a):
    return a == ('iter',) or (isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], tuple) and a[0][0] == 'fr')


class Houdini:
    def __init__(self, mods=None):
        self.mods = {} if mods is None else mods
        self.dropped = {}
        self.changed = False
        self.grown = False
        self.progress = []

    def drop(self, loop, t):
        s = self.dropped.setdefault(loop, set())
        if t not in s:
            s.add(t)
            self.changed = True

    def mod(self, loop, l):
        s = self.mods.setdefault(loop, set())
        if l not in s:
            s.add(l)
            self.changed = self.grown = True


def holds(eng, st, f):
    try:
        return all(v for _, v in refine(st, f, 400))
    except Unsupported:
        return False


def ints_in(eng, st, fr):
    out = []
    for a in st.mem:
        if cell(a):
            for p, v in leaves(st, st.mem[a]):
                if is_int(eng, v):
                    out.append(((('F', a[1]) if a[0] == fr else a), p, v))
    return out


def addr_of(l, fr):
    return (fr, l[1]) if l[0] == 'F' else l


def cursors_in(st):
    out = []
    for a in st.mem:
        if cell(a):
            for p, v in leaves(st, st.mem[a]):
                if v.__class__ is PeekM:
                    out.append((a, p, v))
    return out


def next_hook(hd, backs):
    def hook(eng, st, fr, inst, body, bb, n, depth):
        loop = (inst['path'], bb)
        mods = hd.mods.setdefault(loop, set())
        drop = hd.dropped.setdefault(loop, set())
        if n == 0:
            x0 = st.x['x0']
            ints = ints_in(eng, st, fr)
            curs = cursors_in(st)
            # candidate facts that hold on entry
            cand = []
            for (a, p, v) in ints:
                k2 = ('cov', a, p)
                if (a, p) in mods:
                    if k2 not in drop:
                        if holds(eng, st, lambda s: absent(eng, s, x0, v)) and st.try_int('le', x0, v) is True:
                            cand.append(k2)
                        else:
                            hd.drop(loop, k2)
            for (ca, cp, c) in curs:
                if (('F', ca[1]) if ca[0] == fr else ca, cp) not in mods and not mods:
                    continue
                if not c.order:
                    continue
                for (a, p, v) in ints:
                    k1 = ('lost', c.cid, a, p)
                    if k1 in drop:
                        continue
                    if holds(eng, st, lambda s: absent(eng, s, v, c.lo, c.cid)):
                        cand.append(k1)
                    else:
                        hd.drop(loop, k1)
            # forget what the loop modifies
            st.x['hv'] = st.x.get('hv', 0) + 1
            h = st.x['hv']
            for i, (a, p) in enumerate(sorted(mods, key=repr)):
                ad = addr_of(a, fr)
                v = locate(st, ad, p)
                if v is None:
                    continue
                if v.__class__ is PeekM:
                    nl = Sym(('hv', h, i), st.x['usize'])
                    st.assume_int('le', v.lo, nl)
                    put(st, ad, p, v.at(nl, None))
                elif is_int(eng, v):
                    put(st, ad, p, Sym(('hv', h, i), st.x['usize']))
                elif not p and ad[0] == fr:
                    st.mem.pop(ad, None)
                else:
                    raise Unsupported('a loop changes %r' % (v,))
            for k in cand:
                if k[0] == 'cov':
                    v = locate(st, addr_of(k[1], fr), k[2])
                    st.assume_int('le', x0, v)
                    add_fact(st, 'M', x0, v)
                else:
                    v = locate(st, addr_of(k[2], fr), k[3])
                    lo = [c.lo for _, _, c in cursors_in(st) if c.cid == k[1]]
                    if v is None or not lo:
                        continue
                    add_fact(st, 'gap', k[1], v, lo[0])
            st.x[('cand', loop)] = tuple(cand)
            st.x[('head', loop)] = dict(st.mem)
            st.x[('consat', loop)] = st.x.get('ncons', 0)
            return None
        # back edge
        headm = st.x.get(('head', loop))
        for a, v0 in headm.items():
            if not cell(a):
                continue
            if a not in st.mem:
                continue
            diff(eng, st, hd, loop, fr, a, (), v0, st.mem[a])
        hd.progress.append((progress(eng, st, headm, fr, eng.p.live_at(body, bb), st.x.get(('consat', loop), 0)), inst))
        x0 = st.x['x0']
        for k in st.x.get(('cand', loop), ()):
            if k in drop:
                continue
            if k[0] == 'cov':
                v = locate(st, addr_of(k[1], fr), k[2])
                ok = v is not None and is_int(eng, v) and st.try_int('le', x0, v) is True and holds(eng, st, lambda s: absent(eng, s, x0, v))
            else:
                v = locate(st, addr_of(k[2], fr), k[3])
                cs = [c for _, _, c in cursors_in(st) if c.cid == k[1]]
                ok = v is not None and is_int(eng, v) and len(cs) == 1 and holds(eng, st, lambda s: absent(eng, s, v, cs[0].lo, k[1]))
            if not ok:
                hd.drop(loop, k)
        backs.append((loop, st))
        return 'stop'
    return hook


def less(st, x, y):
    if st.try_int('lt', x, y) is True:
        return True
    zs = {f[2] for f in facts(st) if f[0] == 'memb'}
    return any(st.try_int('le', x, z) is True and st.try_int('lt', z, y) is True or st.try_int('lt', x, z) is True and st.try_int('le', z, y) is True for z in zs)


def progress(eng, st, headm, fr, live, cons):
    """does the iteration advance: True, False (the loop is in the very state it started from, so it
    repeats for ever) or None"""
    if st.x.get('ncons', 0) > cons:
        return True
    unchanged = True
    for a, v0 in headm.items():
        if not (a == ('iter',) or a[0] == fr and a[1] in live):
            continue
        v1 = st.mem.get(a)
        if v1 is None:
            unchanged = False
            continue
        l0, l1 = list(leaves(st, v0)), list(leaves(st, v1))
        if [p for p, _ in l0] != [p for p, _ in l1]:
            unchanged = False
        for (p, x), (_, y) in zip(l0, l1):
            x, y = st.res(x), st.res(y)
            if is_int(eng, x) and is_int(eng, y):
                r = st.try_int('eq', x, y)
                if r is True:
                    continue
                if less(st, x, y) and st.try_int('lt', x, CAP) is True:
                    return True
                unchanged = False
            elif x.__class__ is PeekM and y.__class__ is PeekM:
                if (x.cid, x.lo) != (y.cid, y.lo):
                    unchanged = False
            elif x != y:
                unchanged = False
    for e in st.events:
        if e[0] == 'remove':
            unchanged = False
    return False if unchanged and not st.imprecise else None


def diff(eng, st, hd, loop, fr, a, p, v0, v1):
    v0, v1 = st.res(v0), st.res(v1)
    if v0 == v1:
        return
    la = ('F', a[1]) if a[0] == fr else a
    if v0.__class__ is Agg and v1.__class__ is Agg and v0.ty == v1.ty and v0.var == v1.var and len(v0.f) == len(v1.f):
        if a[0] == fr and not any(x.__class__ is PeekM or is_int(eng, st.res(x)) for x in v1.f):
            hd.mod(loop, (la, p))
            return
        for i, (x, y) in enumerate(zip(v0.f, v1.f)):
            diff(eng, st, hd, loop, fr, a, p + (i,), x, y)
        return
    if v0.__class__ is PeekM and v1.__class__ is PeekM:
        if (v0.cid, v0.lo) == (v1.cid, v1.lo):
            # only the peeked element is remembered
            hd.mod(loop, (la, p))
            return
        hd.mod(loop, (la, p))
        return
    if is_int(eng, v0) and is_int(eng, v1):
        hd.mod(loop, (la, p))
        return
    # anything else: a temporary that is reassigned before it is used
    hd.mod(loop, (la, ()) if a[0] == fr else (la, p))


def start_state(eng, inst, cfg, tys, arity, store_ty):
    """an arbitrary state of the iterator satisfying its invariant"""
    st = State()
    ity, ctys = tys
    ty = eng.p.types[ity]
    fields = ty['v'][0]['f']
    st.x['conf'] = cfg
    st.x['arity'] = arity
    inf = store_info(eng, store_ty, 'S')
    st.x['usize'] = inf.usize
    st.x['opt'] = inf.opt_ty
    st.x['stmty'] = inf.stm_ty
    st.x['resty'] = inf.res_ty
    x0 = Sym(('x0',), inf.usize)
    st.x['x0'] = x0
    st.assume_int('le', CAP, 2 ** 62)
    st.mem[('lslab', 'stm')] = LSlab('stm')
    st.mem[('lslab', 'res')] = LSlab('res')
    out = []
    front = None
    for i, (n, t) in enumerate(fields):
        tt = eng.p.types[t]
        if n in FIELD_POS[:arity]:
            k = FIELD_POS.index(n)
            sem, var, cur = cfg[k]
            pl = []
            if cur is not None:
                lo = Sym(('lo', k), inf.usize)
                pl = [PeekM(k, lo, None, cur[0], cur[1])]
                if cur[1]:
                    add_fact(st, 'gap', k, x0, lo)
            out.append(Agg(ctys[k], var, pl))
        elif tt['k'] == 'uint':
            if front is not None:
                raise Unsupported('two positions in the iterator')
            front = i
            out.append(x0)
        elif tt['k'] == 'ref':
            to = eng.p.types[tt['to']]
            if short(to.get('def', '')) == 'Slab':
                el = to['ga'][0]
                out.append(Ref(('lslab', 'stm' if el == inf.stm_ty or short(eng.p.types[el].get('def', '')) in ('Triple', 'Quad') else 'res')))
            elif short(to.get('def', '')) in STORES:
                fs = []
                for j, (fn, ft) in enumerate(to['v'][0]['f']):
                    l = inf.lay[j]
                    fs.append(LSlab(l[1]) if l[0] == 'slab' else Sym(('dsfield', fn), ft))
                st.mem[('lds',)] = Agg(tt['to'], 0, fs)
                out.append(Ref(('lds',)))
            else:
                raise Unsupported('iterator field ' + n)
        else:
            raise Unsupported('iterator field ' + n)
    if front is None:
        raise Unsupported('no position in the iterator')
    st.x['front'] = front
    st.mem[('iter',)] = Agg(ity, 0, out)
    return st


def removal(eng, st, c):
    """summary of the removal of the statement at a key (decided separately)"""
    extra = tuple(st.res(x) for x in c.args[2:])
    if not all(isinstance(x, int) for x in extra):
        raise Unsupported('removal with %r' % (extra,))
    if st.imprecise:
        raise Unsupported('removal after %s' % sorted(st.imprecise)[:1])
    st.events.append(('remove', c.args[1]))
    eng.removals.add((c.name, extra))
    return eng.unit()


def removal_of(eng, st, c):
    """summary of the removal of a given statement (decided by P01)"""
    q = opened(eng, st, c.args[1])
    vals = [strip(eng, st, x) for x in q.f[:3]]
    for k, e in st.x.get('stm', ()):
        if e[0] != 'occ':
            continue
        cs = comps_of(eng, st, e[1])
        if all(v.__class__ is Sym and v.key[0] == 'rval' and st.try_int('eq', v.key[1], x) is True for v, x in zip(vals, cs)):
            if len(q.f) == 4:
                g, w = opened(eng, st, q.f[3]), opened(eng, st, cs[3])
                if g.var != w.var:
                    continue
                if g.var == 1:
                    gv = strip(eng, st, g.f[0])
                    if gv.__class__ is not Sym or gv.key[0] != 'rval' or st.try_int('eq', gv.key[1], w.f[0]) is not True:
                        continue
            st.events.append(('remove', k))
            return 1
    raise Unsupported('removal of another statement')


def removers(ctx):
    """local functions of a store that take a key and return nothing"""
    out = {}
    for i in ctx.p.insts.values():
        b = i.get('body')
        if not b or b['args'] < 2 or '{closure' in i['path']:
            continue
        t = ctx.p.types[b['locals'][1]]
        if t['k'] != 'ref' or not t.get('mut'):
            continue
        to = ctx.p.types[t['to']]
        if to['k'] != 'adt' or short(to['def']) not in STORES or ctx.p.types[b['locals'][2]]['k'] != 'uint':
            continue
        r = ctx.p.types[b['locals'][0]]
        if r['k'] == 'tuple' and not r.get('f'):
            out[i['path']] = i
    return out


def check_removal(ctx, eng, inst, extra):
    """the function removes exactly the statement at the key it is given, whatever the store and the statement"""
    nm = '%s(key%s)' % (inst['path'].split('::')[-1], ''.join(', %d' % x for x in extra))
    st0 = State()
    cow(st0)
    args = store_args(eng, st0, inst)
    bad = und = None
    n = 0
    for opt in pick_opts(eng, st0, 'S', None):
        st = st0.copy()
        cow(st)
        try:
            opt(st)
        except Infeasible:
            continue
        e = max(init_stm(st, 'S'), key=lambda e: e.n)
        eng.steps = 0
        try:
            outs = eng.run(st, inst['inst'], [args[0], e.key] + list(extra))
        except (Unsupported, Budget, NeedFork, RecursionError, KeyError, AttributeError, TypeError, IndexError, ValueError) as x:
            und = '%s: %s' % (type(x).__name__, x)
            continue
        for o in outs:
            if o.kind == 'unsup':
                und = o.val
                continue
            if o.kind == 'panic':
                if o.st.imprecise:
                    und = 'imprecise panic'
                else:
                    bad = 'panics: %s' % o.val
                continue
            try:
                for s, m in refine(o.st, lambda s: audit(eng, s, 'S', (e.n,), None), 20000):
                    n += 1
                    if m and s.imprecise:
                        und = 'imprecise'
                    elif m:
                        bad = m[1]
            except Unsupported as x:
                und = 'oracle: %s' % x
            except Panic as x:
                und = 'oracle: %s' % x.msg
    ctx.paths += n
    ctx.ob(nm, lib.BAD if bad else lib.UND if und or not n else lib.OK, bad or und or '%d traces' % n, inst['path'])


def judge_next(eng, s, o, extract):
    x0 = s.x['x0']
    v = opened(eng, s, o.val)
    it = s.res(s.mem[('iter',)])
    rem = [e[1] for e in s.events if e[0] == 'remove']
    if v.var == 0:
        if rem:
            return 'a statement is removed without being yielded'
        if not absent(eng, s, x0, INF):
            return 'stops although matching statements may remain'
        return None
    q = opened(eng, s, v.f[0])
    if q.__class__ is not Agg or head(eng, q)[0] not in ('Triple', 'Quad'):
        raise Unsupported('yields %r' % (q,))
    vals = [strip(eng, s, x) for x in q.f[:3]]
    if any(x.__class__ is not Sym or x.key[0] != 'rval' for x in vals):
        raise Unsupported('yields %r' % (vals,))
    # the statement it stands for: one of those looked at
    cands = [(k, e[1]) for k, e in s.x.get('stm', ()) if e[0] == 'occ']
    for k, n in cands:
        cs = comps_of(eng, s, n)
        if s.try_int('eq', vals[0].key[1], cs[0]) is not True:
            continue
        if not all(s.try_int('eq', vals[i].key[1], cs[i]) is True for i in range(3)):
            return 'the components yielded are not those of the statement, in order'
        if len(q.f) == 4:
            g, want = opened(eng, s, q.f[3]), opened(eng, s, cs[3])
            if g.var != want.var:
                return 'the graph of the statement yielded is not the one stored'
            if g.var == 1:
                gv = strip(eng, s, g.f[0])
                if gv.__class__ is not Sym or gv.key[0] != 'rval' or s.try_int('eq', gv.key[1], want.f[0]) is not True:
                    return 'the graph of the statement yielded is not the one stored'
        m = satisfied(eng, s, n, k)
        if m:
            return m
        if not s.decide_int('le', x0, k):
            return 'a statement may be yielded again'
        if not absent(eng, s, x0, k):
            return 'a matching statement may be jumped over'
        i2 = s.res(it.f[s.x['front']])
        if not s.decide_int('lt', k, i2):
            return 'a statement may be yielded again'
        if not absent(eng, s, eng.linadd(s, k, 1, 1), i2):
            return 'a matching statement may be jumped over'
        for p, c in leaves(s, it):
            if c.__class__ is PeekM and c.order and not absent(eng, s, i2, c.lo, c.cid):
                return 'an index is advanced past statements that are still to be matched'
        if extract:
            if len(rem) != 1 or s.try_int('eq', rem[0], k) is not True:
                return 'the statement removed is not the one yielded' if rem else 'the statement yielded is not removed'
        elif rem:
            return 'a statement is removed'
        return None
    return 'yields a statement that is not stored'


def run_next(ctx, eng, r, cfg, tys, arity, store_ty, extract, mods):
    """-> (bad, und, traces) for one configuration"""
    inst = eng.p.insts[r['root']]
    hd = Houdini(mods)
    for rnd in range(30):
        hd.changed = False
        hd.progress = []
        backs = []
        try:
            st = start_state(eng, inst, cfg, tys, arity, store_ty)
            st.x['extract'] = extract
            eng.steps = 0
            eng.loop_hook = next_hook(hd, backs)
            outs = eng.run(st, r['root'], [Ref(('iter',))])
        except (Unsupported, Budget, NeedFork, RecursionError, KeyError, AttributeError, TypeError, IndexError, ValueError) as e:
            return None, '%s: %s' % (type(e).__name__, e), 0
        finally:
            eng.loop_hook = None
        if hd.grown:
            hd.dropped.clear()
            hd.grown = False
        elif not hd.changed:
            break
    else:
        return None, 'loop facts do not stabilise', 0
    bad = und = None
    n = 0
    for o in outs:
        if o.kind == 'unsup':
            und = o.val
            continue
        if o.kind == 'panic':
            if o.st.imprecise:
                und = 'imprecise panic: %s' % o.val
            else:
                bad = 'panics: %s' % o.val
            continue
        try:
            for s, m in refine(o.st, lambda s: judge_next(eng, s, o, extract), 4000):
                n += 1
                if m:
                    if s.imprecise:
                        und = 'imprecise: %s' % sorted(s.imprecise)[:2]
                    else:
                        bad = m
        except Unsupported as e:
            und = 'oracle: %s' % e
    for m, i in hd.progress:
        n += 1
        if m is False:
            bad = 'an iteration of the loop in %s changes nothing, so that the search never ends' % i['path'].split('::<')[0]
        elif m is None:
            und = und or 'progress of the loop in %s' % i['path']
    return bad, und, n


def show_cfg(cfg):
    return ', '.join({'any': 'any', 'never': 'absent', 'set': 'given'}.get(c[0][0]) or 'same as %s' % FIELD_POS[c[0][1]] for c in cfg)


def check_matching(ctx, ceng, neng, r, extract=False):
    nm = '%s::%s' % (r['nself'] or '', r['name'])
    if r.get('ntrait'):
        nm += ' [%s]' % r['ntrait']
    arity = 4 if STORES[r['bself']] == 'Quad' else 3
    configs, bad, und = constructor(ctx, ceng, r, arity)
    where = ctx.where(r)
    ctx.ob(nm + ': search plan', lib.BAD if bad else lib.UND if und or not configs else lib.OK, bad or und or '%d combinations of constraints' % len(configs), where)
    if not configs:
        return
    b = ceng.p.insts[r['root']]['body']
    sty = ref_to(ceng, b['locals'][1])
    mods = {}
    n = 0
    bads, unds = [], []
    nx = None
    for cfg, tys in sorted(configs.items(), key=repr):
        key = (cfg, eng_type(neng, tys[0]))
        if nx is None or nx[0] != tys[0]:
            nx = (tys[0], local_next(neng, tys[0]))
            if nx[1] is None:
                unds.append('no next')
                break
        if key in neng.cache:
            bd, ud, k = neng.cache[key]
        else:
            bd, ud, k = neng.cache[key] = run_next(ctx, neng, nx[1], cfg, tys, arity, sty, extract, mods)
        n += k
        if bd:
            bads.append('%s (pattern: %s)' % (bd, show_cfg(cfg)))
        elif ud:
            unds.append('%s (pattern: %s)' % (ud, show_cfg(cfg)))
    ctx.paths += n
    ctx.ob(nm + ': iteration', lib.BAD if bads else lib.UND if unds or not n else lib.OK,
           ('%d of %d: ' % (len(bads), len(configs)) + bads[0]) if bads else unds[0] if unds else '%d traces' % n, ctx.where(nx[1]) if nx and nx[1] else where)


def eng_type(eng, t):
    return eng.p.types[t]['s']
