"""Loops over whole stores or unknown sequences of statements: bulk construction, conversion, removal of a graph.

The loop rule: at the loop head every store that is being built or emptied is replaced by an
arbitrary store satisfying the representation invariant (base case: it satisfied it, with the
content announced, before the loop); one iteration is analysed from there, and its effect has to be
exactly the effect of the statement the iteration took.  Induction over the iterations gives the
effect of the loop.
"""
from core import *
from lib import refine, same, strip, short, X, opened
import lib
import store
import models
from store import *


class Items(Model):
    """an unknown sequence of statements"""
    def __init__(self, key, ty):
        self.key, self.ty = key, ty

    def term(self, st):
        return ('items', self.key)


class VecM(Model):
    """a vector holding the elements of an iterator"""
    def __init__(self, it):
        self.it = it

    def term(self, st):
        return ('vec', self.it.term(st))


BM = dict(SM)


def bmodel(*names):
    def d(f):
        for n in names:
            BM[n] = f
        return f
    return d


def take_item(eng, st, ity):
    """the next element of the unknown sequence, or None; forks"""
    k = st.x.get('nitem', 0)
    ck = ('item', k)
    if ck not in st.x:
        def some(s):
            s.x[ck] = True

        def none(s):
            s.x[ck] = False
        raise NeedFork([some, none])
    st.x['nitem'] = k + 1
    if not st.x[ck]:
        st.events.append(('item', None))
        return None
    v = Sym(('item', k), ity)
    st.events.append(('item', v))
    return v


@bmodel('std::iter::Iterator::next')
def it_next(eng, st, c):
    if 'rpath' in c.callee:
        return NotImplemented
    v = st.res(c.args[0])
    for _ in range(4):
        if v.__class__ is Ref:
            v = st.res(eng.load(st, v))
    if v.__class__ is not Sym:
        raise Unsupported('next on %r' % (v,))
    ity = eng.p.types[c.dty]['v'][1]['f'][0][1]
    v = take_item(eng, st, ity)
    return eng.none(c.dty) if v is None else eng.some(c.dty, v)


@bmodel('std::iter::IntoIterator::into_iter')
def it_into(eng, st, c):
    if 'rpath' in c.callee:
        return NotImplemented
    v = st.res(c.args[0])
    if v.__class__ is not Sym:
        return v
    st.events.append(('into_iter', v))
    return Sym(('sequence',), c.dty)


@bmodel('serde::de::SeqAccess::next_element')
def seq_next(eng, st, c):
    rt = eng.p.types[c.dty]
    okt = rt['v'][0]['f'][0][1]
    ity = eng.p.types[okt]['v'][1]['f'][0][1]
    k = st.x.get('nitem', 0)
    ck = ('err', k)
    if ck not in st.x:
        def err(s):
            s.x[ck] = True

        def ok(s):
            s.x[ck] = False
        raise NeedFork([err, ok])
    if st.x[ck]:
        st.events.append(('item-error',))
        return Agg(c.dty, 1, [Sym(('seqerr', k), rt['v'][1]['f'][0][1])])
    v = take_item(eng, st, ity)
    return Agg(c.dty, 0, [eng.none(okt) if v is None else eng.some(okt, v)])


# vectors of keys
@bmodel('<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter')
def vec_from_iter(eng, st, c):
    v = st.res(c.args[0])
    if v.__class__ is IterM and not v.byval:
        raise Unsupported('vector of references')
    it = whole_iter(eng, st, v)
    return VecM(IterM(it.src, it.at, True))


@bmodel('<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter', '<std::vec::Vec<T> as std::iter::IntoIterator>::into_iter')
def vec_into_iter(eng, st, c):
    v = st.res(c.args[0])
    if v.__class__ is not VecM:
        raise Unsupported('into_iter of %r' % (v,))
    return v.it


@bmodel("<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", 'core::slice::<impl [T]>::iter', 'std::slice::<impl [T]>::iter')
def vec_iter(eng, st, c):
    v = st.res(eng.load(st, c.args[0]))
    if v.__class__ is not VecM:
        return models.m_slice_iter(eng, st, c)
    return IterM(v.it.src, v.it.at, False)


@bmodel('<std::vec::Vec<T, A> as std::ops::Deref>::deref')
def vec_deref(eng, st, c):
    v = st.res(eng.load(st, c.args[0]))
    if v.__class__ is not VecM:
        raise Unsupported('deref of %r' % (v,))
    return c.args[0]


@bmodel('std::vec::Vec::<T, A>::is_empty', 'core::slice::<impl [T]>::is_empty')
def vec_is_empty(eng, st, c):
    v = st.res(eng.load(st, c.args[0]))
    if v.__class__ is not VecM or v.it.at != 'start' or v.it.src[0] != 'set':
        raise Unsupported('is_empty of %r' % (v,))
    return int(set_empty(eng, st, v.it.src[1:]))


for _n in ('<std::vec::IntoIter<T, A> as std::iter::Iterator>::next', "<std::slice::Iter<'a, T> as std::iter::Iterator>::next"):
    BM[_n] = store.iter_next


# a slab built by mapping every entry of another one, key by key
@bmodel('<slab::Slab<T> as std::iter::FromIterator<(usize, T)>>::from_iter')
def slab_from_iter(eng, st, c):
    v = st.res(c.args[0])
    if v.__class__ is not Agg or short(eng.p.types[v.ty].get('def', '')) != 'Map':
        raise Unsupported('slab from %r' % (v,))
    it, f = st.res(v.f[0]), v.f[1]
    if it.__class__ is not IterM or it.src[0] != 'slab' or it.at != 'start' or not it.byval:
        raise Unsupported('slab from %r' % (v,))
    base = it.src[1]
    kind = it.src[2]
    inf = world(st).info.get(base)
    if inf is None or kind != 'res':
        raise Unsupported('slab from a fresh slab')
    # the function on an arbitrary entry
    s = st.copy()
    key = Sym(('mapkey',), inf.usize)
    fs = [Sym(('mapfield', a), t) for a, t in inf.rf]
    aty = None
    for t, ty in (eng.p.types.items() if isinstance(eng.p.types, dict) else enumerate(eng.p.types)):
        if ty['k'] == 'tuple' and len(ty['f']) == 2 and ty['f'][0] == inf.usize and ty['f'][1] == inf.res_ty:
            aty = t
    arg = Agg(aty, 0, [key, Agg(inf.res_ty, 0, fs)])
    outs = eng.call_fnlike(s, f, [arg], None, c.depth + 1)
    if not outs or len(outs) != 1 or outs[0].kind != 'ret':
        raise Unsupported('mapping of slab entries')
    q = outs[0].st
    res = q.res(outs[0].val)
    k2, body = q.res(res.f[0]), q.res(res.f[1])
    if k2 != key:
        raise Bad(('P04',), 'the entries of the resource slab are moved to other keys')
    ty = eng.p.types[body.ty]
    fresh = []
    for (a, ft), (n, _), x in zip(res_fields(eng, ty), ty['v'][0]['f'], body.f):
        x = q.res(x)
        if a == 'value':
            if x != fs[[a for a, _ in inf.rf].index('value')]:
                raise Bad(('P04',), 'the value of a resource is changed by the conversion')
            fresh.append(('value', ft))
        elif a in ROLES:
            if not isinstance(x, SetM) or x.i[1] != 'new' or overlay(q, x.i):
                raise Unsupported('role set of a converted resource')
            fresh.append((a, ft))
        else:
            raise Unsupported('field %s of a converted resource' % n)
    w = cow(st)
    w.n += 1
    name = 'D%d' % w.n
    st.x[('derived', name)] = (base, body.ty, tuple(fresh))
    return SlabM((name, 'res'))


def derived_index(eng, st, c):
    """entry of a derived slab: the mapped entry of the base slab"""
    h = handle(eng, st, c.args[0], SlabM)
    d = st.x.get(('derived', h.i[0]))
    if d is None:
        return store.slab_index(eng, st, c)
    base, bty, fresh = d
    e = lookup(eng, st, (base, 'res'), c.args[1])
    if e.cur != 'occ':
        raise Panic('access to a vacant slot')
    a = ('dslot', h.i[0], e.n)
    if a not in st.mem:
        st.mem[a] = Agg(bty, 0, [e.comps if n == 'value' else SetM((h.i[0], 'new', n, e.n)) for n, _ in fresh])
    return Ref(a)


def derived_get(eng, st, c):
    h = handle(eng, st, c.args[0], SlabM)
    if ('derived', h.i[0]) not in st.x:
        return store.slab_get(eng, st, c)
    try:
        return eng.some(c.dty, derived_index(eng, st, c))
    except Panic:
        return eng.none(c.dty)


for _n in ('<slab::Slab<T> as std::ops::Index<usize>>::index', '<slab::Slab<T> as std::ops::IndexMut<usize>>::index_mut'):
    BM[_n] = derived_index
for _n in ('slab::Slab::<T>::get', 'slab::Slab::<T>::get_mut'):
    BM[_n] = derived_get


def engine(ctx, max_steps=6000000):
    return ctx.engine(BM, max_steps)


# ---------------------------------------------------------------- the loop rule
def is_store(eng, v):
    return v.__class__ is Agg and v.ty is not None and eng.p.types[v.ty]['k'] == 'adt' and short(eng.p.types[v.ty]['def']) in STORES


def fresh_store(eng, st, v):
    """is the store made of distinct new containers that are all empty"""
    w = world(st)
    hs = [st.res(f) for f in v.f]
    if not all(isinstance(h, H) and h.__class__ is not Cloned for h in hs):
        return False
    if len(set((h.tag, h.i) for h in hs)) != len(hs):
        return False
    for h in hs:
        if h.i[1] != 'new' or h.i[0] in w.info:
            return False
        if w.dlen.get(h.i) or overlay(st, h.i) or any(e.slab == h.i for e in w.ents.values()):
            return False
    return True


def lift_fresh(eng, st, name):
    """replaces the empty stores held in memory by arbitrary ones; -> their names"""
    out = []
    for a, v in list(st.mem.items()):
        v = st.res(v)
        if is_store(eng, v) and all(isinstance(st.res(f), H) for f in v.f) and fresh_store(eng, st, v):
            nm = '%s%d' % (name, len(out))
            st.mem[a] = mk_store(eng, st, v.ty, nm)
            st.x[('addr', nm)] = a
            out.append(nm)
    return out


def given_of(eng, st, v):
    return keyval(eng, st, None, v)


def bulk_hook(found, bases):
    cr = store.Carry()

    def hook(eng, st, fr, inst, body, bb, n, depth):
        if n == 0:
            if any(e[0] == 'loop' for e in st.events):
                raise Unsupported('nested loops')
            w = world(st)
            names = lift_fresh(eng, st, 'L')
            for s in bases:
                if s in w.info and any(e.slab[0] == s for e in w.ents.values()):
                    raise Unsupported('the store is inspected before the loop')
            map_mem(st, lambda x: IterM(x.src, 'mid', x.byval) if x.__class__ is IterM else x)
            st.x['prenew'] = frozenset(new_ids(st))
            st.x['built'] = tuple(names)
            st.events.append(('loop', bb))
            cr.enter(eng, st, fr, body, bb)
            return None
        if store.at_end(st):
            return None
        found.append(st.copy())
        return None if cr.back(eng, st, fr, body, bb) else 'stop'
    return hook


def since_loop(st):
    for i in range(len(st.events) - 1, -1, -1):
        if st.events[i][0] == 'loop':
            return st.events[i + 1:]
    return None


def taken(eng, st, src=None):
    """statements taken since the loop head: list of tuples of values, None for the end; and error flag"""
    out, err = [], False
    for e in since_loop(st) or ():
        if e[0] == 'item':
            out.append(None if e[1] is None else given_of(eng, st, e[1]))
        elif e[0] == 'item-error':
            err = True
        elif e[0] == 'pull':
            if src is None or e[1][1:] != src[1:]:
                raise Unsupported('iteration over %r' % (e[1],))
            if e[2] is None:
                out.append(None)
            else:
                w = world(st)
                out.append(tuple(None if c is None else w.ents[c].comps for c in w.ents[e[2]].comps))
    return out, err


def check_bulk(ctx, eng, r, target, wrap=None, src=None, label=None, setup=None):
    """the function takes every statement of a sequence and adds exactly these to the target
    store: 'S' (an argument) or a new one"""
    nm = label or '%s::%s' % (r['nself'] or '', r['name'])
    if r.get('ntrait'):
        nm += ' [%s]' % r['ntrait']
    found = []
    eng.loop_hook = bulk_hook(found, ('S',) if target == 'S' else ())
    try:
        outs, args = explore(ctx, eng, r, setup)
    finally:
        eng.loop_hook = None
    bad = und = None
    n = 0

    def tgt(s):
        if target == 'S':
            return 'S'
        b = s.x.get('built', ())
        if len(b) != 1:
            raise Unsupported('no single store is built')
        return b[0]

    def back(s):
        ts, err = taken(eng, s, src)
        if err:
            return 'goes on after an error'
        if None in ts:
            return 'goes on after the end of the sequence'
        if len(ts) != 1:
            if not ts:
                raise Unsupported('an iteration takes no statement')
            return 'a statement of the sequence is dropped'
        e = resolve_stm(eng, s, tgt(s), ts[0])
        m = audit(eng, s, tgt(s), (), ts[0] if e is None else None)
        return m and m[1]

    def fin(s, o):
        v = s.res(o.val)
        evs = since_loop(s)
        if evs is None:
            if src is None and not any(e[0] == 'into_iter' for e in s.events):
                return 'returns without taking the statements'
            raise Unsupported('no loop over the statements')
        ts, err = taken(eng, s, src)
        if err:
            # the error is reported
            if v.__class__ is Agg and short(eng.p.types[v.ty]['def']) == 'Result' and v.var == 1:
                return None
            return 'an error of the sequence is ignored'
        if ts != [None]:
            return 'stops before the end of the sequence'
        if target != 'S':
            if v.__class__ is Agg and short(eng.p.types[v.ty]['def']) == 'Result':
                if v.var != 0:
                    return 'reports an error although none occurred'
                v = s.res(v.f[0])
            if not (is_store(eng, v) and is_pristine(s, v, tgt(s))):
                return 'returns another store than the one built'
            s.mem[('result',)] = v
            s.x[('addr', tgt(s))] = ('result',)
        m = audit(eng, s, tgt(s), (), None)
        return m and m[1]
    for o in outs:
        if o.kind == 'unsup':
            und = o.val
        elif o.kind == 'panic':
            if o.st.imprecise or o.st.x.get('wide'):
                und = 'imprecise panic'
            else:
                bad = 'panics: %s' % o.val
    jobs = [(o.st, lambda s, o=o: fin(s, o)) for o in outs if o.kind == 'ret'] + [(st, back) for st in found]
    for st, f in jobs:
        try:
            for s, m in refine(st, f, 20000):
                n += 1
                if m and s.imprecise:
                    und = 'imprecise: %s' % sorted(s.imprecise)[:2]
                elif m:
                    bad = m
        except Unsupported as e:
            und = str(e)
        except Panic as e:
            und = 'oracle: %s' % e.msg
    if not found and not bad and not und:
        und = 'no loop found'
    ctx.ob(nm, lib.BAD if bad else lib.UND if und else lib.OK, bad or und or '%d traces' % n, ctx.where(r))


def check_new(ctx, eng, r):
    nm = '%s::%s' % (r['nself'] or '', r['name']) + (' [%s]' % r['ntrait'] if r.get('ntrait') else '')
    outs, args = explore(ctx, eng, r)
    bad = und = None
    for o in outs:
        if o.kind != 'ret':
            und = o.val
            continue
        v = o.st.res(o.val)
        if not is_store(eng, v):
            und = 'value %r' % (v,)
        elif not fresh_store(eng, o.st, v):
            bad = 'a new store is not empty'
    ctx.ob(nm, lib.BAD if bad else lib.UND if und or not outs else lib.OK, bad or und or '%d traces' % len(outs), ctx.where(r))


def check_clone(ctx, eng, r):
    nm = '%s::%s [Clone]' % (r['nself'] or '', r['name'])
    outs, args = explore(ctx, eng, r)
    bad = und = None
    for o in outs:
        if o.kind != 'ret':
            und = o.val
            continue
        v, s = o.st.res(o.val), o.st
        want = s.res(s.mem[('store', 'S')])
        if not is_store(eng, v) or len(v.f) != len(want.f):
            und = 'value %r' % (v,)
            continue
        for i, (x, y) in enumerate(zip(v.f, want.f)):
            x = s.res(x)
            if x == Cloned((y.tag, y.i)):
                continue
            if isinstance(x, H):
                bad = 'field %d of the clone is not a copy of that field' % i
            else:
                und = 'field %r' % (x,)
    ctx.ob(nm, lib.BAD if bad else lib.UND if und or not outs else lib.OK, bad or und or '%d traces' % len(outs), ctx.where(r))


def check_convert(ctx, eng, r, label=None):
    """plain store to indexed store: same slab of statements, same ordered indexes, mapped
    resources and, for each statement, exactly its entries in the role sets and listings"""
    nm = label or '%s::%s' % (r['nself'] or '', r['name'])
    if r.get('ntrait'):
        nm += ' [%s]' % r['ntrait']
    found = []
    eng.loop_hook = bulk_hook(found, ())
    try:
        outs, args = explore(ctx, eng, r)
    finally:
        eng.loop_hook = None
    bad = und = None
    n = 0
    layouts = []
    for o in outs:
        if o.kind == 'unsup':
            und = o.val
            continue
        if o.kind == 'panic':
            if o.st.imprecise or o.st.x.get('wide'):
                und = 'imprecise panic'
            else:
                bad = 'panics: %s' % o.val
            continue
        s, v = o.st, o.st.res(o.val)
        if since_loop(s) is None:
            und = 'no loop'
            continue
        ps = [e for e in since_loop(s) if e[0] == 'pull']
        if not is_store(eng, v):
            und = 'value %r' % (v,)
            continue
        if s.x.get('built') and is_pristine(s, v, s.x['built'][0]):
            und = 'rebuilt'
            continue
        if [p[2] for p in ps] != [None] or ps[0][1] not in (('tree', 'S', 'stm'), ('slab', 'S', 'stm')):
            bad = 'does not visit every statement'
            continue
        inf = store_info(eng, v.ty, 'R')
        lay = {}
        for i, f in enumerate(v.f):
            k, f = inf.lay[i], s.res(f)
            if k == ('slab', 'res'):
                if not isinstance(f, SlabM):
                    und = 'slab %r' % (f,)
                elif ('derived', f.i[0]) not in s.x:
                    und = 'resource slab %r' % (f,)
                elif s.x[('derived', f.i[0])][0] != 'S':
                    und = 'resource slab'
                else:
                    lay[k] = f.i[0]
            elif k[0] in ('slab', 'tree'):
                want = (SlabM if k[0] == 'slab' else TreeM)(('S', k[1]))
                if f != want:
                    bad = 'the %s %s is not the one of the converted store' % ('statement' if k[1] == 'stm' else 'resource', 'slab' if k[0] == 'slab' else 'index')
            else:
                if not isinstance(f, SetM) or f.i[1] != 'new':
                    und = 'set %r' % (f,)
                elif f.i in lay.values():
                    bad = 'two listings share one set'
                else:
                    lay[k] = f.i
        w = world(s)
        if any(ov for ov in w.sets.values()):
            bad = 'a set is changed after the loop'
        m = intact(eng, s, 'S')
        if m:
            bad = m[1]
        n += 1
        layouts.append((inf, lay))
    if not bad and not und:
        for st in found:
            for inf, lay in layouts:
                try:
                    for s, m in refine(st, lambda s: conv_step(eng, s, inf, lay)):
                        n += 1
                        if m and s.imprecise:
                            und = 'imprecise'
                        elif m:
                            bad = m
                except Unsupported as e:
                    und = str(e)
        if not found:
            und = 'no loop found'
    if und == 'rebuilt' and not bad:
        return check_bulk(ctx, eng, r, 'new', src=('tree', 'S', 'stm'), label=label)
    ctx.ob(nm, lib.BAD if bad else lib.UND if und else lib.OK, bad or und or '%d traces' % n, ctx.where(r))


def conv_step(eng, s, inf, lay):
    w = world(s)
    ps = [e for e in since_loop(s) if e[0] == 'pull']
    if len(ps) != 1 or ps[0][2] is None:
        return 'a statement is skipped'
    if ps[0][1] not in (('tree', 'S', 'stm'), ('slab', 'S', 'stm')):
        raise Unsupported('iteration over %r' % (ps[0][1],))
    e = w.ents[ps[0][2]]
    m = intact(eng, s, 'S')
    if m:
        return m[1]
    want = {}
    D = lay[('slab', 'res')]
    for i, x in enumerate(ROLES[:inf.arity]):
        c = e.comps[i]
        if c is None:
            if inf.defg:
                want.setdefault(lay[('defg',)], []).append(e.key)
            continue
        want.setdefault((D, 'new', x, c), []).append(e.key)
        if ('list', x) in lay:
            want.setdefault(lay[('list', x)], []).append(w.ents[c].key)
    names = dict((v, k) for k, v in lay.items())
    for sid, ov in w.sets.items():
        for k, b in ov:
            if not b:
                return 'an entry is removed from a set'
            if not any(s.try_int('eq', k, q) is True for q in want.get(sid, ())):
                return 'a set receives an entry that the statement does not give it'
    for sid, ks in want.items():
        for k in ks:
            if not any(s.try_int('eq', k, q) is True and b for q, b in w.sets.get(sid, ()) + s.x.get(('pre', sid), ())):
                what = names.get(sid)
                return 'the statement is missing from %s' % ('the %s role of its resource' % sid[2] if what is None else 'the default graph index' if what == ('defg',) else 'the listing of role %s' % what[1])
    return None


# ---------------------------------------------------------------- removal of a graph
def ginsert(eng, st, c):
    """summary of insertion into the graph being built (decided by P01)"""
    a = st.res(c.args[0])
    while a.__class__ is Ref and st.res(eng.load(st, a)).__class__ is Ref:
        a = st.res(eng.load(st, a))
    st.events.append(('ginsert', (a.a, a.p), c.args[1]))
    return Sym(st.fresh('inserted'), c.dty)


def rename_store(eng, st, old, new):
    def f(x):
        if x.__class__ in (SlabM, TreeM, SetM) and x.i[0] == old:
            return x.__class__((new,) + x.i[1:])
        return x
    map_mem(st, f)


def graph_hook(heads, found):
    cr = store.Carry()

    def hook(eng, st, fr, inst, body, bb, n, depth):
        if n == 0:
            if any(e[0] == 'loop' for e in st.events):
                raise Unsupported('nested loops')
            its = []
            for a, v in st.mem.items():
                iterators(v, its)
            its = set(i for i in its if i.src[0] == 'set' and i.src[1] == 'S')
            if len(set((i.src, i.at == 'cut' or i.at) for i in its)) > 1:
                its = set(i for i in its if i.at in ('start', 'cut'))
            if len(set(i.src for i in its)) != 1 or len(set(i.at for i in its if i.at != 'cut')) > 1:
                raise Unsupported('iterators at the loop: %r' % (its,))
            it = sorted(its, key=lambda i: i.at == 'cut')[0]
            heads.append((st.copy(), it))
            inf = world(st).info['S']
            w = cow(st)
            w.info['H'] = store_info(eng, inf.ty, 'H')
            rename_store(eng, st, 'S', 'H')
            st.x[('addr', 'H')] = st.x[('addr', 'S')]
            g = None
            if it.src[2] == 'role':
                e = w.ents[it.src[4]]
                g = mat_res(eng, st, 'H', e.key, e.comps).n
            elif it.src[2] != 'defg':
                raise Unsupported('iteration over %r' % (it.src,))
            src = ('rem', 'H', it.src[3] if g is not None else 'g', g)
            map_mem(st, lambda x: IterM(src + (('cut',) if x.at == 'cut' else ()), 'mid', x.byval) if x.__class__ is IterM and x.src == it.src else x)
            st.x['prenew'] = frozenset(new_ids(st))
            st.events.append(('loop', bb))
            cr.enter(eng, st, fr, body, bb)
            return None
        if store.at_end(st):
            return None
        found.append(st.copy())
        return None if cr.back(eng, st, fr, body, bb) else 'stop'
    return hook


def check_remove_graph(ctx, eng, r):
    nm = '%s::%s' % (r['nself'] or '', r['name'])
    heads, found = [], []
    eng.loop_hook = graph_hook(heads, found)
    try:
        outs, args = explore(ctx, eng, r)
    finally:
        eng.loop_hook = None
    bad = und = None
    n = 0

    def garg(s):
        o = opened(eng, s, args[1])
        return strip(eng, s, o.f[0]) if o.var == 1 else None

    def head(s, it):
        g = garg(s)
        if it.at != 'start':
            return 'some statements of the graph are skipped'
        if it.src[2] == 'defg':
            if g is not None:
                return 'the default graph is removed instead of a named graph'
        elif it.src[3] != 'g':
            return 'iterates over statements of another role'
        else:
            if g is None:
                return 'a named graph is removed instead of the default graph'
            if not s.decide_atom_eq(s.akey(g), s.akey(world(s).ents[it.src[4]].comps)):
                return 'another graph is removed'
        m = audit(eng, s, 'S', (), None)
        return m and m[1]

    def back(s):
        ps = [e for e in since_loop(s) if e[0] == 'pull']
        if len(ps) != 1 or ps[0][2] is None:
            return 'a statement of the graph is skipped'
        if ps[0][1][-1] == 'cut':
            return 'some statements of the graph are skipped'
        ins = [e for e in since_loop(s) if e[0] == 'ginsert']
        e = world(s).ents[ps[0][2]]
        if len(ins) != 1:
            return 'a removed statement is missing from the returned graph' if not ins else 'a statement is inserted twice'
        w = world(s)
        if not same(eng, s, ins[0][2], X('Triple', 'Triple', *[w.ents[c].comps for c in e.comps[:3]])):
            return 'the triple added to the returned graph differs from the statement removed'
        m = audit(eng, s, 'H', (e.n,), None)
        return m and m[1]

    def fin(s, o):
        v = opened(eng, s, o.val)
        if since_loop(s) is None:
            if v.var == 1:
                raise Unsupported('no loop over the statements of the graph')
            g = garg(s)
            n = None
            if g is not None:
                e = resolve_res(eng, s, 'S', g)
                if e is None:
                    m = audit(eng, s, 'S', (), None)
                    return m and m[1]
                n = e.n
            if role_nonempty0(eng, s, 'S', 'g', n):
                return 'answers that a graph with statements does not exist'
            m = audit(eng, s, 'S', (), None)
            return m and m[1]
        ps = [e for e in since_loop(s) if e[0] == 'pull']
        if [p[2] for p in ps] != [None]:
            return 'stops before all statements of the graph are removed'
        if v.var == 0:
            return 'does not return the graph it removed'
        if not (is_store(eng, s.res(v.f[0])) and fresh_store(eng, s, s.res(v.f[0]))):
            return 'returns something else than the graph built'
        m = audit(eng, s, 'H', (), None)
        return m and m[1]
    for o in outs:
        if o.kind == 'unsup':
            und = o.val
        elif o.kind == 'panic':
            if o.st.imprecise or o.st.x.get('wide'):
                und = 'imprecise panic'
            else:
                bad = 'panics: %s' % o.val
    jobs = [(st, lambda s, it=it: head(s, it)) for st, it in heads] + [(st, back) for st in found] + [(o.st, lambda s, o=o: fin(s, o)) for o in outs if o.kind == 'ret']
    for st, f in jobs:
        try:
            for s, m in refine(st, f, 20000):
                n += 1
                if m and s.imprecise:
                    und = 'imprecise: %s' % sorted(s.imprecise)[:2]
                elif m:
                    bad = m
        except Unsupported as e:
            und = str(e)
        except Panic as e:
            und = 'oracle: %s' % e.msg
    if not found and not bad and not und:
        und = 'no loop found'
    ctx.ob(nm, lib.BAD if bad else lib.UND if und else lib.OK, bad or und or '%d traces' % n, ctx.where(r))
