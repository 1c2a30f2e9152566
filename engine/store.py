"""Shape analysis of the in-memory stores.

A store is abstracted by its representation invariant: the two slabs are partial maps from
keys to resources and to statements, the two ordered trees hold exactly the occupied keys,
and the role sets are the inverse images of the statements.  Entries are materialised the
first time a key, a value or a statement is looked up; everything not materialised satisfies
the invariant and is unchanged.  An operation is analysed from an arbitrary store satisfying
the invariant, and its final store is audited against the invariant and the exact change
the operation announces.
"""
import collections
from core import *
import models
from lib import content_cmp, content_eq, opened, strip, head, refine, same, X, short

E = collections.namedtuple('E', 'n slab key init cur comps intree')
# slab: (store, 'res'|'stm'); init/cur: 'occ'|'vac'; comps: initial components (entry numbers) of a statement
ROLES = 'spog'


class W:
    def __init__(self):
        self.ents = {}
        self.sets = {}
        self.absent_stm = {}
        self.absent_res = {}
        self.free = {}
        self.vk = {}
        self.dlen = {}
        self.ver = {}
        self.info = {}
        self.rests = {}
        self.cmps = {}
        self.n = 0

    def copy(self):
        w = W.__new__(W)
        for k, v in self.__dict__.items():
            w.__dict__[k] = dict(v) if isinstance(v, dict) else v
        return w


class Info:
    """static description of one symbolic store"""
    def __init__(self, **k):
        self.__dict__.update(k)


def world(st):
    return st.x['W']


def cow(st):
    w = st.x.get('W')
    w = w.copy() if w is not None else W()
    st.x['W'] = w
    return w


class H(Model):
    """handle on a library container"""
    tag = '?'

    def __init__(self, i):
        self.i = i

    def __eq__(self, o):
        return self.__class__ is o.__class__ and self.i == o.i

    def __hash__(self):
        return hash((self.tag, self.i))

    def __repr__(self):
        return '%s%r' % (self.tag, self.i)

    def term(self, st):
        return (self.tag, self.i)


class SlabM(H):
    tag = 'slab'


class TreeM(H):
    tag = 'tree'


class SetM(H):
    tag = 'set'


class Cloned(H):
    tag = 'clone'


# ---------------------------------------------------------------- layout
def tstr(eng, t):
    return eng.p.types[t]['s']


def role_word(n):
    """the statement position a field is named after, if exactly one"""
    hit = [r for w, r in (('subject', 's'), ('predicate', 'p'), ('object', 'o'), ('graph', 'g')) if w in n.lower()]
    return hit[0] if len(hit) == 1 else None


def res_fields(eng, rt):
    """what the fields of a stored resource hold"""
    rf = []
    for n, ft in rt['v'][0]['f']:
        if eng.p.types[ft]['k'] == 'uint':
            rf.append(('occ', ft))
        elif short(eng.p.types[ft].get('def', '')) == 'BTreeSet':
            if not role_word(n):
                raise Unsupported('resource field ' + n)
            rf.append((role_word(n), ft))
        else:
            rf.append(('value', ft))
    if len(set(a for a, _ in rf)) != len(rf) or rf.count('value') > 1:
        raise Unsupported('fields of ' + rt['s'])
    return rf


def tree_roles(eng, fields):
    """which ordered index is over the resources and which over the statements: by name, the other one by elimination"""
    out = {}
    idx = [i for i, (n, ft) in enumerate(fields) if short(eng.p.types[ft].get('def', '')) == 'RawBTree']
    for i in idx:
        n = fields[i][0].lower()
        r = any(w in n for w in ('resource', 'term', 'node'))
        q = any(w in n for w in ('triple', 'quad', 'statement', 'stmt'))
        if r != q:
            out[i] = 'res' if r else 'stm'
    for i in idx:
        if i not in out and len(idx) == 2:
            o = [out.get(j) for j in idx if j != i][0]
            if o is not None:
                out[i] = 'stm' if o == 'res' else 'res'
    return out


def store_info(eng, ty, name):
    t = eng.p.types[ty]
    if t['k'] != 'adt' or t['kind'] == 'enum':
        raise Unsupported('store type %s' % t['s'])
    fields = t['v'][0]['f']
    names = [f[0] for f in fields]
    lay = {}
    sl = {}
    trees = tree_roles(eng, fields)
    for i, (n, ft) in enumerate(fields):
        d = eng.p.types[ft].get('def', '')
        s = short(d)
        if s == 'Slab':
            el = eng.p.types[ft]['ga'][0]
            k = 'stm' if short(eng.p.types[el].get('def', '')) in ('Triple', 'Quad') else 'res'
            sl[k] = el
            lay[i] = ('slab', k)
        elif s == 'RawBTree':
            if i not in trees:
                raise Unsupported('store field ' + n)
            lay[i] = ('tree', trees[i])
        elif s == 'BTreeSet':
            if 'default' in n.lower():
                lay[i] = ('defg',)
            elif role_word(n):
                lay[i] = ('list', role_word(n))
            else:
                raise Unsupported('store field ' + n)
        else:
            raise Unsupported('store field ' + n)
    if set(v for v in lay.values() if v[0] != 'list' and v[0] != 'defg') != {('slab', 'res'), ('slab', 'stm'), ('tree', 'res'), ('tree', 'stm')}:
        raise Unsupported('store layout of %s' % t['s'])
    rt = eng.p.types[sl['res']]
    rf = res_fields(eng, rt)
    arity = 4 if short(eng.p.types[sl['stm']]['def']) == 'Quad' else 3
    return Info(ty=ty, name=name, lay=lay, names=names, res_ty=sl['res'], stm_ty=sl['stm'], rf=rf, arity=arity,
                occ=any(a == 'occ' for a, _ in rf), roles=[a for a, _ in rf if a in ROLES], lists=[v[1] for v in lay.values() if v[0] == 'list'],
                defg=('defg',) in lay.values(), vty=[f for a, f in rf if a == 'value'][0],
                opt_ty=(eng.p.types[sl['stm']]['v'][0]['f'][3][1] if arity == 4 else None),
                usize=eng.p.types[sl['stm']]['v'][0]['f'][0][1])


def mk_store(eng, st, ty, name):
    """an arbitrary store satisfying the representation invariant"""
    inf = store_info(eng, ty, name)
    w = cow(st)
    w.info[name] = inf
    fs = []
    for i in range(len(inf.names)):
        k = inf.lay[i]
        if k[0] == 'slab':
            fs.append(SlabM((name, k[1])))
        elif k[0] == 'tree':
            fs.append(TreeM((name, k[1])))
        elif k[0] == 'list':
            fs.append(SetM((name, 'list', k[1])))
        else:
            fs.append(SetM((name, 'defg')))
    return Agg(ty, 0, fs)


def is_pristine(st, v, name):
    return v.__class__ is Agg and all(isinstance(f, H) and f.i[0] == name for f in v.f)


# ---------------------------------------------------------------- entries
def ents(st, slab):
    return [e for e in world(st).ents.values() if e.slab == slab]


def slot(n):
    return ('slot', n)


def setent(st, e, **k):
    w = cow(st)
    w.ents[e.n] = e._replace(**k)
    return w.ents[e.n]


def add_ent(eng, st, slab, key, init, comps=None):
    w = cow(st)
    w.n += 1
    n = w.n
    if key is None:
        inf = w.info.get(slab[0])
        key = Sym(('key', slab[0], slab[1], n), inf.usize if inf else None)
    for e in list(w.ents.values()):
        if e.slab == slab:
            if st.try_int('eq', e.key, key) is True:
                raise Infeasible()
            st.assume_int('eq', e.key, key, False)
    e = E(n, slab, key, init, init, comps, init == 'occ')
    w.ents[n] = e
    if init == 'occ':
        cnt = sum(1 for x in w.ents.values() if x.slab == slab and x.init == 'occ')
        st.assume_int('le', cnt, len0(slab))
        if not w.ver.get(slab):
            st.assume_int('lt', key, Sym(('cap', slab, 0)))
    return e


def len0(slab):
    return Sym(('len', slab))


def empty_base(st, slab):
    return slab[0] not in world(st).info


def init_res(st, store):
    return [e for e in ents(st, (store, 'res')) if e.init == 'occ']


def init_stm(st, store):
    return [e for e in ents(st, (store, 'stm')) if e.init == 'occ']


def ival(e):
    """initial value of a resource entry"""
    return e.comps


def mat_res(eng, st, store, key=None, value=None):
    inf = world(st).info[store]
    n = world(st).n + 1
    v = value if value is not None else Sym(('val', store, n), inf.vty)
    k = st.akey(v)
    for e in init_res(st, store):
        st.add_neq(k, st.akey(e.comps))
    for a in world(st).absent_res:
        if a[0] == store:
            st.add_neq(k, st.akey(a[1]))
    e = add_ent(eng, st, (store, 'res'), key, 'occ', v)
    fs = []
    for a, ft in inf.rf:
        if a == 'value':
            fs.append(v)
        elif a == 'occ':
            s = Sym(('occ', store, e.n), ft)
            st.assume_int('le', 1, s)
            fs.append(s)
        else:
            fs.append(SetM((store, 'role', a, e.n)))
    st.mem[slot(e.n)] = Agg(inf.res_ty, 0, fs)
    return e


def mat_stm(eng, st, store, key, comps):
    """comps: entry numbers of resources, None for the default graph"""
    w = world(st)
    inf = w.info[store]
    if len(set(c for c in comps)) >= 0:
        for e in init_stm(st, store):
            if e.comps == comps:
                raise Infeasible()
    if (store, comps) in w.absent_stm:
        raise Infeasible()
    for x, c in zip(ROLES, comps):
        if c is None:
            if any(k[:3] == (store, 'g', None) and v is False for k, v in w.rests.items()):
                raise Infeasible()
            continue
        if any(k[:3] == (store, x, c) and v is False for k, v in w.rests.items()):
            raise Infeasible()
    e = add_ent(eng, st, (store, 'stm'), key, 'occ', tuple(comps))
    w = world(st)
    fs = []
    for i, c in enumerate(comps):
        v = w.ents[c].key if c is not None else None
        if i == 3:
            v = eng.none(inf.opt_ty) if c is None else eng.some(inf.opt_ty, v)
        fs.append(v)
    st.mem[slot(e.n)] = Agg(inf.stm_ty, 0, fs)
    if inf.occ:
        for c in set(c for c in comps if c is not None):
            uses = sum(x.comps.count(c) for x in init_stm(st, store))
            st.assume_int('le', uses, Sym(('occ', store, c)))
    return e


def pick_opts(eng, st, store, key, fixed=None):
    """ways an unknown statement can relate to the known resources; fixed: (position, entry)"""
    inf = world(st).info[store]
    known = [e.n for e in init_res(st, store)]
    out = []

    def rec(acc, fresh):
        if len(acc) == inf.arity:
            out.append(tuple(acc))
            return
        if fixed is not None and fixed[0] == len(acc):
            rec(acc + [fixed[1]], fresh)
            return
        for c in known:
            rec(acc + [c], fresh)
        for k in range(fresh):
            rec(acc + [('new', k)], fresh)
        rec(acc + [('new', fresh)], fresh + 1)
        if len(acc) == 3:
            rec(acc + [None], fresh)
    rec([], 0)

    def opt(a):
        def f(s):
            m = {}
            cs = []
            for c in a:
                if isinstance(c, tuple):
                    if c not in m:
                        m[c] = mat_res(eng, s, store).n
                    c = m[c]
                cs.append(c)
            mat_stm(eng, s, store, key, tuple(cs))
        return f
    return [opt(a) for a in out]


def lookup(eng, st, slab, key):
    cs = ents(st, slab)
    ex = [e for e in cs if st.try_int('eq', e.key, key) is True]
    if len(ex) > 1:
        raise Infeasible()
    if ex:
        return ex[0]
    for e in cs:
        if st.try_int('eq', e.key, key) is None:
            st.decide_int('eq', e.key, key)
    store, kind = slab
    opts = [lambda s: add_ent(eng, s, slab, key, 'vac')]
    if not empty_base(st, slab):
        if kind == 'res':
            opts.append(lambda s: mat_res(eng, s, store, key))
        elif ('stm-light',) in st.x:
            opts.append(lambda s: mat_stm_lazy(eng, s, store, key))
        else:
            opts += pick_opts(eng, st, store, key)
    raise NeedFork(opts)


# ---------------------------------------------------------------- denotation
def cur_value(eng, st, e):
    if e.cur != 'occ':
        raise Panic('access to a vacant resource slot')
    v = st.res(st.mem[slot(e.n)])
    inf = world(st).info.get(e.slab[0])
    if v.__class__ is not Agg or inf is None:
        raise Unsupported('resource content')
    return v.f[[a for a, _ in inf.rf].index('value')]


def cur_comps(eng, st, e):
    """current component keys of a statement entry (None: default graph)"""
    if e.cur != 'occ':
        raise Panic('access to a vacant statement slot')
    v = st.res(st.mem[slot(e.n)])
    if v.__class__ is Sym:
        v = eng.expand(st, v)
    out = [st.res(x) for x in v.f[:3]]
    if len(v.f) == 4:
        o = st.res(v.f[3])
        eng.variant_of(st, o)
        o = st.res(o)
        out.append(o.f[0] if o.var == 1 else None)
    return out


def denote(eng, st, e):
    """the value (resource) or tuple of values (statement) at an entry"""
    if e.slab[1] == 'res':
        return (cur_value(eng, st, e),)
    return tuple(None if k is None else cur_value(eng, st, lookup(eng, st, (e.slab[0], 'res'), k)) for k in cur_comps(eng, st, e))


def d_eq(st, a, b):
    """decides equality of denotations; forks"""
    for x, y in zip(a, b):
        if (x is None) != (y is None):
            return False
    for x, y in zip(a, b):
        if x is not None and st.atom_eq(st.akey(x), st.akey(y)) is False:
            return False
    for x, y in zip(a, b):
        if x is not None and not st.decide_atom_eq(st.akey(x), st.akey(y)):
            return False
    return True


def resolve_res(eng, st, store, v):
    """initial resource with the given value, or None; forks"""
    for e in init_res(st, store):
        if st.atom_eq(st.akey(v), st.akey(e.comps)) is True:
            return e
    for a in world(st).absent_res:
        if a[0] == store and st.atom_eq(st.akey(v), st.akey(a[1])) is True:
            return None
    for e in init_res(st, store):
        if st.decide_atom_eq(st.akey(v), st.akey(e.comps)):
            return e
    for a in world(st).absent_res:
        if a[0] == store and st.decide_atom_eq(st.akey(v), st.akey(a[1])):
            return None

    def absent(s):
        cow(s).absent_res[(store, v)] = True
    raise NeedFork([lambda s: mat_res(eng, s, store, None, v), absent])


def resolve_stm(eng, st, store, tup):
    """initial statement with the given values, or None; forks"""
    cs = []
    for v in tup:
        if v is None:
            cs.append(None)
            continue
        e = resolve_res(eng, st, store, v)
        if e is None:
            return None
        cs.append(e.n)
    cs = tuple(cs)
    for e in init_stm(st, store):
        if e.comps == cs:
            return e
    if (store, cs) in world(st).absent_stm:
        return None

    def absent(s):
        cow(s).absent_stm[(store, cs)] = True
    raise NeedFork([lambda s: mat_stm(eng, s, store, None, cs), absent])


# ---------------------------------------------------------------- role sets
def rest(eng, st, store, x, n):
    """does an initial statement outside the known ones have resource n in role x"""
    w = world(st)
    i = ROLES.index(x)
    cnt = sum(1 for e in init_stm(st, store) if e.comps[i] == n)
    k = (store, x, n, cnt)
    if k in w.rests:
        return w.rests[k]

    def opt(b):
        def f(s):
            w2 = cow(s)
            w2.rests[k] = b
            inf = w2.info[store]
            if not b and n is not None and not any(n in e.comps for e in init_stm(s, store)):
                if all(w2.rests.get((store, y, n, 0)) is False for y in ROLES[:inf.arity]):
                    raise Infeasible()
        return f
    raise NeedFork([opt(True), opt(False)])


def base_has(eng, st, sid, key):
    """initial membership of key in a set"""
    store = sid[0]
    if sid[1] == 'new':
        if not filled(st, sid):
            return False
        ms = st.x.get(('pre', sid), ())
        for k, b in ms:
            if st.decide_int('eq', k, key):
                return b

        def opt(b):
            def f(s):
                s.x[('pre', sid)] = s.x.get(('pre', sid), ()) + ((key, b),)
            return f
        raise NeedFork([opt(False), opt(True)])
    if sid[1] == 'list':
        e = lookup(eng, st, (store, 'res'), key)
        if e.init != 'occ':
            return False
        return role_nonempty0(eng, st, store, sid[2], e.n)
    e = lookup(eng, st, (store, 'stm'), key)
    if e.init != 'occ':
        return False
    if sid[1] == 'defg':
        return e.comps[3] is None
    return e.comps[ROLES.index(sid[2])] == sid[3]


def role_nonempty0(eng, st, store, x, n, without=()):
    i = ROLES.index(x)
    if any(e.comps[i] == n and e.n not in without for e in init_stm(st, store)):
        return True
    return rest(eng, st, store, x, n)


def overlay(st, sid):
    return world(st).sets.get(sid, ())


def set_find(eng, st, sid, key):
    for k, b in overlay(st, sid):
        if st.try_int('eq', k, key) is True:
            return k, b
    for k, b in overlay(st, sid):
        if st.decide_int('eq', k, key):
            return k, b
    return None


def set_has(eng, st, sid, key):
    f = set_find(eng, st, sid, key)
    if f is not None:
        return f[1]
    return base_has(eng, st, sid, key)


def set_put(eng, st, sid, key, b):
    f = set_find(eng, st, sid, key)
    ov = [(k, v) for k, v in overlay(st, sid) if f is None or k is not f[0]]
    cow(st).sets[sid] = tuple(ov) + ((key, b),)


def set_empty(eng, st, sid):
    ov = overlay(st, sid)
    if any(b for _, b in ov):
        return False
    store = sid[0]
    if sid[1] == 'new':
        return not filled(st, sid) or st.decide_int('eq', set_len_val(eng, st, sid), 0)
    if sid[1] == 'list':
        raise Unsupported('is_empty on a listing')
    n = None if sid[1] == 'defg' else sid[3]
    x = 'g' if sid[1] == 'defg' else sid[2]
    i = ROLES.index(x)
    for e in init_stm(st, store):
        if e.comps[i] == n:
            if not any(st.try_int('eq', k, e.key) is True for k, _ in ov):
                if not any(st.decide_int('eq', k, e.key) for k, _ in ov):
                    return False
    for k, b in ov:
        # removed keys that are not known statements: were they members
        lookup(eng, st, (store, 'stm'), k)
    return not rest(eng, st, store, x, n)


# ---------------------------------------------------------------- models
SM = {}


def smodel(*names):
    def d(f):
        for n in names:
            SM[n] = f
        return f
    return d


def handle(eng, st, v, cls):
    v = st.res(v)
    for _ in range(6):
        if v.__class__ is Ref or (v.__class__ is Sym and eng.is_ref(v.ty)):
            v = st.res(eng.load(st, v))
        else:
            break
    if not isinstance(v, cls):
        raise Unsupported('%s expected, got %r' % (cls.__name__, v))
    return v


def fresh_id(st, tag):
    w = cow(st)
    w.n += 1
    return ('new%d' % w.n, tag)


@smodel('slab::Slab::<T>::new', 'slab::Slab::<T>::with_capacity', '<slab::Slab<T> as std::default::Default>::default')
def slab_new(eng, st, c):
    return SlabM(fresh_id(st, 'new'))


@smodel('raw_btree::RawBTree::<T, S>::new', 'raw_btree::RawBTree::<T>::new', '<raw_btree::RawBTree<T, S> as std::default::Default>::default')
def tree_new(eng, st, c):
    return TreeM(fresh_id(st, 'new'))


@smodel('std::collections::BTreeSet::<T>::new', '<std::collections::BTreeSet<T> as std::default::Default>::default')
def set_new(eng, st, c):
    return SetM(fresh_id(st, 'new'))


def vacant_entry(eng, st, slab):
    w = world(st)
    fr = w.free.get(slab)
    if fr:
        return lookup(eng, st, slab, fr[-1])
    n = w.vk.get(slab)
    if n is not None:
        return w.ents[n]
    cand = [e for e in ents(st, slab) if e.init == 'vac' and e.cur == 'vac']

    def use(e):
        def f(s):
            cow(s).vk[slab] = e.n
        return f

    def new(s):
        e = add_ent(eng, s, slab, None, 'vac')
        cow(s).vk[slab] = e.n
    raise NeedFork([use(e) for e in cand] + [new])


@smodel('slab::Slab::<T>::vacant_key')
def slab_vacant(eng, st, c):
    h = handle(eng, st, c.args[0], SlabM)
    return vacant_entry(eng, st, h.i).key


@smodel('slab::Slab::<T>::insert')
def slab_insert(eng, st, c):
    h = handle(eng, st, c.args[0], SlabM)
    e = vacant_entry(eng, st, h.i)
    e = setent(st, e, cur='occ')
    st.mem[slot(e.n)] = c.args[1]
    w = cow(st)
    if w.free.get(h.i):
        w.free[h.i] = w.free[h.i][:-1]
    else:
        w.vk.pop(h.i, None)
    w.dlen[h.i] = w.dlen.get(h.i, 0) + 1
    w.ver[h.i] = w.ver.get(h.i, 0) + 1
    return e.key


class VacantM(Model):
    """entry of a slab about to be filled"""
    def __init__(self, slab, key):
        self.slab, self.key = slab, key

    def __eq__(self, o):
        return o.__class__ is VacantM and (self.slab, self.key) == (o.slab, o.key)

    def __hash__(self):
        return hash((self.slab, self.key))

    def term(self, st):
        return ('vacant', self.slab, repr(self.key))


@smodel('slab::Slab::<T>::vacant_entry')
def slab_vacant_entry(eng, st, c):
    h = handle(eng, st, c.args[0], SlabM)
    return VacantM(h, vacant_entry(eng, st, h.i).key)


@smodel("slab::VacantEntry::<'a, T>::key")
def slab_vacant_entry_key(eng, st, c):
    return st.res(eng.load(st, c.args[0])).key


@smodel("slab::VacantEntry::<'a, T>::insert")
def slab_vacant_entry_insert(eng, st, c):
    v = st.res(c.args[0])
    if v.__class__ is not VacantM:
        return NotImplemented
    c.args = [eng.box(st, v.slab), c.args[1]]
    slab_insert(eng, st, c)
    e = lookup(eng, st, v.slab.i, v.key)
    return Ref(slot(e.n))


def slab_take(eng, st, slab, key):
    e = lookup(eng, st, slab, key)
    if e.cur != 'occ':
        return None
    v = st.mem[slot(e.n)]
    setent(st, e, cur='vac')
    w = cow(st)
    w.free[slab] = w.free.get(slab, ()) + (e.key,)
    w.dlen[slab] = w.dlen.get(slab, 0) - 1
    return v


@smodel('slab::Slab::<T>::remove')
def slab_remove(eng, st, c):
    h = handle(eng, st, c.args[0], SlabM)
    v = slab_take(eng, st, h.i, c.args[1])
    if v is None:
        raise Panic('removal of a vacant slot')
    return v


@smodel('slab::Slab::<T>::try_remove')
def slab_try_remove(eng, st, c):
    h = handle(eng, st, c.args[0], SlabM)
    v = slab_take(eng, st, h.i, c.args[1])
    return eng.none(c.dty) if v is None else eng.some(c.dty, v)


@smodel('slab::Slab::<T>::get', 'slab::Slab::<T>::get_mut')
def slab_get(eng, st, c):
    h = handle(eng, st, c.args[0], SlabM)
    e = lookup(eng, st, h.i, c.args[1])
    return eng.none(c.dty) if e.cur != 'occ' else eng.some(c.dty, Ref(slot(e.n)))


@smodel('slab::Slab::<T>::contains')
def slab_contains(eng, st, c):
    h = handle(eng, st, c.args[0], SlabM)
    return int(lookup(eng, st, h.i, c.args[1]).cur == 'occ')


@smodel('<slab::Slab<T> as std::ops::Index<usize>>::index', '<slab::Slab<T> as std::ops::IndexMut<usize>>::index_mut')
def slab_index(eng, st, c):
    h = handle(eng, st, c.args[0], SlabM)
    e = lookup(eng, st, h.i, c.args[1])
    if e.cur != 'occ':
        raise Panic('access to a vacant slot')
    return Ref(slot(e.n))


def slab_len_val(eng, st, slab):
    d = world(st).dlen.get(slab, 0)
    if filled(st, slab):
        return unknown_len(st, slab)
    if empty_base(st, slab):
        return d
    s = len0(slab)
    return s if d == 0 else eng.linadd(st, s, d, 1)


@smodel('slab::Slab::<T>::len')
def slab_len(eng, st, c):
    h = handle(eng, st, c.args[0], SlabM)
    return slab_len_val(eng, st, h.i)


@smodel('slab::Slab::<T>::is_empty')
def slab_is_empty(eng, st, c):
    h = handle(eng, st, c.args[0], SlabM)
    if any(e.cur == 'occ' for e in ents(st, h.i)):
        return 0
    return int(st.decide_int('eq', slab_len_val(eng, st, h.i), 0))


@smodel('slab::Slab::<T>::capacity')
def slab_cap(eng, st, c):
    h = handle(eng, st, c.args[0], SlabM)
    return Sym(('cap', h.i, world(st).ver.get(h.i, 0)), c.dty)


# ---- trees
def keyval(eng, st, t, k):
    """denotation of a search key"""
    k = strip(eng, st, k)
    if k.__class__ is Agg and head(eng, k)[0] in ('Triple', 'Quad'):
        out = [strip(eng, st, x) for x in k.f[:3]]
        if len(k.f) == 4:
            o = opened(eng, st, k.f[3])
            out.append(strip(eng, st, o.f[0]) if o.var == 1 else None)
        return tuple(out)
    if k.__class__ is Sym and k.ty is not None and eng.p.types[k.ty]['k'] == 'adt' and short(eng.p.types[k.ty]['def']) in ('Triple', 'Quad'):
        return keyval(eng, st, t, opened(eng, st, k))
    return (k,)


def is_key(eng, st, t, k, cty):
    """is the search key an index"""
    ty = eng.p.types[cty]
    while ty['k'] == 'ref':
        ty = eng.p.types[ty['to']]
    return ty['k'] == 'uint'


def tree_find(eng, st, t, dv):
    """-> entry of the member with denotation dv, or None; forks"""
    store, kind = t
    if store not in world(st).info:
        raise Unsupported('search in a fresh tree')
    mem = [e for e in ents(st, t) if e.intree]
    for e in mem:
        if d_eq(st, denote(eng, st, e), dv):
            return e
    if kind == 'res':
        e = resolve_res(eng, st, store, dv[0])
    else:
        e = resolve_stm(eng, st, store, dv)
    if e is None or not e.intree:
        return None
    return e


def cmp_check(eng, st, t, f, keyref, isidx, line):
    """does the comparator order an arbitrary member against the key by denotation"""
    w = world(st)
    store, kind = t
    try:
        ck = ('cmp', w.info[store].ty, kind, isidx, eng.term(st, f))
    except (Unsupported, NeedFork):
        ck = None
    if ck is not None and ck in eng.cache:
        if eng.cache[ck] == 'bad':
            raise Bad(('P01', 'P06'), BADCMP[kind])
        return
    inf = w.info[store]
    verdict = 'lexi'
    s0 = st.copy()
    n = 0
    # probe entries: arbitrary contents
    variants = [False, True] if inf.arity == 4 and kind == 'stm' else [False]
    for named in variants:
        s = s0.copy()
        w2 = cow(s)

        def probe_res(s):
            w2 = cow(s)
            w2.n += 1
            m = w2.n
            e = E(m, (store, 'res'), Sym(('probe', m), inf.usize), 'occ', 'occ', Sym(('pval', m), inf.vty), False)
            w2.ents[m] = e
            s.mem[slot(m)] = Agg(inf.res_ty, 0, [e.comps if a == 'value' else Sym(('probef', m, a), ft) for a, ft in inf.rf])
            return e
        if kind == 'res':
            pe = probe_res(s)
            pd = (pe.comps,)
        else:
            cs = [probe_res(s) for _ in range(inf.arity)]
            w2 = cow(s)
            w2.n += 1
            m = w2.n
            fs = [c.key for c in cs[:3]]
            pd = [c.comps for c in cs[:3]]
            if inf.arity == 4:
                fs.append(eng.some(inf.opt_ty, cs[3].key) if named else eng.none(inf.opt_ty))
                pd.append(cs[3].comps if named else None)
            pe = E(m, (store, 'stm'), Sym(('probe', m), inf.usize), 'occ', 'occ', tuple(c.n for c in cs), False)
            w2.ents[m] = pe
            s.mem[slot(m)] = Agg(inf.stm_ty, 0, fs)
            pd = tuple(pd)
        pr = eng.box(s, pe.key)
        outs = []
        # run under refinement: the call may fork before entering a body
        work = [s]
        while work:
            q = work.pop()
            try:
                r = eng.call_fnlike(q.copy(), f, [pr, keyref], eng.ordering_ty(), 1)
                if r is None:
                    raise Unsupported('comparator')
                outs += r
            except NeedFork as nf:
                for o in nf.options:
                    q2 = q.copy()
                    try:
                        o(q2)
                    except Infeasible:
                        continue
                    work.append(q2)
        for o in outs:
            n += 1
            if o.kind == 'unsup':
                raise Unsupported('comparator: %s' % o.val)
            if o.kind == 'panic':
                # only a problem of the key (the probe is well formed)
                raise Panic('comparator: %s' % o.val)

            def judge(q):
                if isidx:
                    ke = lookup(eng, q, t, strip(eng, q, keyref))
                    kd = denote(eng, q, ke)
                else:
                    kd = keyval(eng, q, t, keyref)
                want = d_cmp(q, pd, kd)
                ov = q.res(o.val)
                eng.variant_of(q, ov)
                ov = q.res(ov)
                got = {0: -1, 1: 0, 2: 1}[ov.var]
                return got, want
            for q, (got, want) in refine(o.st, judge):
                if got == want:
                    continue
                if q.imprecise:
                    raise Unsupported('imprecise comparator')
                if (got == 0) != (want == 0):
                    verdict = 'bad'
                elif verdict == 'lexi':
                    verdict = 'other'
    if ck is not None:
        eng.cache[ck] = verdict
    if verdict == 'bad':
        raise Bad(('P01', 'P06'), BADCMP[kind])


BADCMP = {'res': 'the comparator of the resource index does not decide equality of resources',
          'stm': 'the comparator of the statement index does not decide equality of statements'}


class PMsg(str):
    props = None


class Bad(Panic):
    """a definite misuse found inside an operation"""
    def __init__(self, props, msg):
        m = PMsg(msg)
        m.props = props
        Panic.__init__(self, m)


def d_cmp(st, a, b):
    for x, y in zip(a, b):
        if x is None or y is None:
            c = (x is not None) - (y is not None)
        else:
            c = st.decide_atom_cmp(st.akey(x), st.akey(y))
        if c:
            return c
    return 0


def tree_op(eng, st, c):
    h = handle(eng, st, c.args[0], TreeM)
    if h.i[0] not in world(st).info:
        raise Unsupported('operation on a fresh tree')
    name = c.name.split('::')[-1]
    key = c.args[2]
    kty = c.callee['in'][2] if c.callee.get('in') else None
    if name == 'insert':
        isidx = True
        keyref = eng.box(st, key)
    else:
        keyref = key
        kv = strip(eng, st, key)
        t = getattr(kv, 'ty', None)
        isidx = isinstance(kv, int) or kv.__class__ is Lin or (kv.__class__ is Sym and (t is None or eng.p.types[t]['k'] == 'uint'))
    cmp_check(eng, st, h.i, c.args[1], keyref, isidx, c.line)
    if isidx:
        ke = lookup(eng, st, h.i, strip(eng, st, keyref))
        dv = denote(eng, st, ke)
    else:
        dv = keyval(eng, st, h.i, keyref)
    return h, dv, (ke if isidx else None)


@smodel('raw_btree::RawBTree::<T, S>::get')
def tree_get(eng, st, c):
    h, dv, _ = tree_op(eng, st, c)
    e = tree_find(eng, st, h.i, dv)
    return eng.none(c.dty) if e is None else eng.some(c.dty, eng.box(st, e.key))


@smodel('raw_btree::RawBTree::<T, S>::insert')
def tree_insert(eng, st, c):
    h, dv, ke = tree_op(eng, st, c)
    old = tree_find(eng, st, h.i, dv)
    if old is not None:
        setent(st, old, intree=False)
    ke = world(st).ents[ke.n]
    setent(st, ke, intree=True)
    if not c.used:
        return Sym(st.fresh('unused'), c.dty)
    return eng.none(c.dty) if old is None else eng.some(c.dty, old.key)


@smodel('raw_btree::RawBTree::<T, S>::remove')
def tree_remove(eng, st, c):
    h, dv, _ = tree_op(eng, st, c)
    e = tree_find(eng, st, h.i, dv)
    if e is None:
        return eng.none(c.dty)
    setent(st, e, intree=False)
    return eng.some(c.dty, e.key)


@smodel('raw_btree::RawBTree::<T, S>::len')
def tree_len(eng, st, c):
    h = handle(eng, st, c.args[0], TreeM)
    if filled(st, h.i):
        return unknown_len(st, h.i)
    if h.i[0] not in world(st).info:
        return 0
    d = sum((1 if e.intree else 0) - (1 if e.init == 'occ' else 0) for e in ents(st, h.i))
    s = len0(h.i)
    return s if d == 0 else eng.linadd(st, s, d, 1)


@smodel('raw_btree::RawBTree::<T, S>::is_empty')
def tree_is_empty(eng, st, c):
    return int(st.decide_int('eq', tree_len(eng, st, c), 0))


# ---- containers created before a loop have in the middle of the loop whatever earlier iterations put there
def new_ids(st):
    out = set()

    def f(x):
        if isinstance(x, H) and x.__class__ is not Cloned and x.i[1] == 'new' and x.i[0] not in world(st).info:
            out.add(x.i)
        return x
    for v in st.mem.values():
        map_val(v, f)
    return out


def filled(st, i):
    return i in st.x.get('prenew', ())


def unknown_len(st, i):
    s = Sym(('len', i, sum(1 for e in st.events if e[0] == 'ginsert')))
    st.assume_int('le', 0, s)
    return s


# ---- sets
@smodel('std::collections::BTreeSet::<T, A>::insert')
def set_insert(eng, st, c):
    h = handle(eng, st, c.args[0], SetM)
    old = set_has(eng, st, h.i, c.args[1]) if c.used else False
    set_put(eng, st, h.i, c.args[1], True)
    return int(not old)


@smodel('std::collections::BTreeSet::<T, A>::remove')
def set_remove(eng, st, c):
    h = handle(eng, st, c.args[0], SetM)
    k = strip(eng, st, c.args[1])
    old = set_has(eng, st, h.i, k) if c.used else False
    set_put(eng, st, h.i, k, False)
    return int(old)


@smodel('std::collections::BTreeSet::<T, A>::contains')
def set_contains(eng, st, c):
    h = handle(eng, st, c.args[0], SetM)
    return int(set_has(eng, st, h.i, strip(eng, st, c.args[1])))


@smodel('std::collections::BTreeSet::<T, A>::is_empty')
def set_is_empty(eng, st, c):
    h = handle(eng, st, c.args[0], SetM)
    if h.i[1] == 'list':
        if any(b for _, b in overlay(st, h.i)):
            return 0
        return int(st.decide_int('eq', set_len_val(eng, st, h.i), 0))
    return int(set_empty(eng, st, h.i))


def set_len_val(eng, st, sid):
    ov = overlay(st, sid)
    if sid[1] == 'new' and not filled(st, sid):
        return sum(1 for _, b in ov if b)
    d = 0
    for k, b in ov:
        was = base_has(eng, st, sid, k)
        d += int(b) - int(was)
    s = Sym(('card', sid))
    return s if d == 0 else eng.linadd(st, s, d, 1)


@smodel('std::collections::BTreeSet::<T, A>::len')
def set_len(eng, st, c):
    h = handle(eng, st, c.args[0], SetM)
    if h.i[1] not in ('new', 'list'):
        # a length compared with zero answers like is_empty
        if set_empty(eng, st, h.i):
            return 0
        v = set_len_val(eng, st, h.i)
        if not isinstance(v, int):
            st.assume_int('le', 1, v)
        return v
    return set_len_val(eng, st, h.i)


@smodel('std::mem::take')
def m_take(eng, st, c):
    old = st.res(eng.load(st, c.args[0]))
    if isinstance(old, H) and old.__class__ in (SetM, SlabM, TreeM):
        eng.store(st, c.args[0], old.__class__(fresh_id(st, 'new')))
        return old
    return models.m_take(eng, st, c)


@smodel('std::collections::BTreeSet::<T, A>::clear', 'slab::Slab::<T>::clear', 'raw_btree::RawBTree::<T, S>::clear')
def m_clear(eng, st, c):
    r = place(eng, st, c.args[0])
    h = st.res(eng.load(st, r))
    eng.store(st, r, h.__class__(fresh_id(st, 'new')))
    return eng.unit()


def place(eng, st, v):
    """the place that holds the container a reference leads to"""
    v = st.res(v)
    for _ in range(6):
        if v.__class__ is not Ref:
            break
        x = st.res(eng.load(st, v))
        if isinstance(x, H) and x.__class__ is not Cloned:
            return v
        v = x
    raise Unsupported('container %r' % (v,))


@smodel('slab::Slab::<T>::shrink_to_fit', 'slab::Slab::<T>::reserve', 'slab::Slab::<T>::reserve_exact')
def slab_capacity_change(eng, st, c):
    h = handle(eng, st, c.args[0], SlabM)
    w = cow(st)
    w.ver[h.i] = w.ver.get(h.i, 0) + 1
    if c.name.endswith('shrink_to_fit'):
        w.free.pop(h.i, None)
        w.vk.pop(h.i, None)
    return eng.unit()


@smodel('slab::Slab::<T>::compact')
def slab_compact(eng, st, c):
    h = handle(eng, st, c.args[0], SlabM)
    f = st.res(c.args[1])
    if f.__class__ is not Agg or f.f or h.i[0] not in world(st).info:
        raise Unsupported('compact')
    st.x[('compacted', h.i)] = True
    return eng.unit()


def members(eng, st, sid):
    """(known members, another arbitrary member or None) of a set of statement keys; forks"""
    if sid[1] not in ('role', 'defg', 'new') or filled(st, sid):
        raise Unsupported('operation on all members of a set')
    store = sid[0]
    extra = None
    if sid[1] != 'new':
        n = None if sid[1] == 'defg' else sid[3]
        x = 'g' if sid[1] == 'defg' else sid[2]
        i = ROLES.index(x)
        ck = ('another', st.x.get('nmass', 0))
        for k, _ in overlay(st, sid):
            lookup(eng, st, (store, 'stm'), k)
        if ck not in st.x:
            if not rest(eng, st, store, x, n):
                st.x[ck] = None
            else:
                # what it has in the other positions occurs nowhere else: a representative
                def opt(named):
                    def f(s):
                        cs = [n if j == i else mat_res(eng, s, store).n if j < 3 or named else None for j in range(world(s).info[store].arity)]
                        mat_stm(eng, s, store, None, tuple(cs))
                        s.x[ck] = world(s).n
                    return f
                raise NeedFork([opt(True), opt(False)] if world(st).info[store].arity == 4 and i < 3 else [opt(True)])
        m = st.x[ck]
        extra = None if m is None else world(st).ents[m].key
        keys = [e.key for e in init_stm(st, store) if e.comps[i] == n]
    else:
        keys = []
    out = []
    for k in keys + [k for k, b in overlay(st, sid) if b]:
        if any(st.try_int('eq', k, q) is True for q in out) or extra is not None and st.try_int('eq', k, extra) is True:
            continue
        if set_has(eng, st, sid, k):
            out.append(k)
    return out, extra


@smodel('std::collections::BTreeSet::<T, A>::retain')
def set_retain(eng, st, c):
    h = handle(eng, st, c.args[0], SetM)
    ks, extra = members(eng, st, h.i)
    st.x['nmass'] = st.x.get('nmass', 0) + 1
    f = c.args[1]
    f = eng.box(st, f, 'eachf') if st.res(f).__class__ is not Ref else f
    outs, live = [], [st]
    from lib import refine
    for k in ks + ([] if extra is None else [extra]):
        nxt = []
        for s in live:
            r = eng.call_fnlike(s, f, [eng.box(s, k)], None, c.depth + 1, 'std::ops::FnMut::call_mut')
            if r is None:
                raise Unsupported('call of %r' % (f,))
            for o in r:
                if o.kind != 'ret':
                    outs.append(o)
                    continue
                for s2, t in refine(o.st, lambda s: eng.truth(s, o.val)):
                    if not t:
                        set_put(eng, s2, h.i, k, False)
                    nxt.append(s2)
        live = nxt
    return outs + [Outcome(s, 'ret', eng.unit()) for s in live]


@smodel('std::collections::BTreeSet::<T, A>::split_off')
def set_split_off(eng, st, c):
    h = handle(eng, st, c.args[0], SetM)
    at = strip(eng, st, c.args[1])
    ks, extra = members(eng, st, h.i)
    gone = [k for k in ks + ([] if extra is None else [extra]) if st.decide_int('le', at, k)]
    st.x['nmass'] = st.x.get('nmass', 0) + 1
    for k in gone:
        set_put(eng, st, h.i, k, False)
    new = SetM(fresh_id(st, 'new'))
    for k in gone:
        set_put(eng, st, new.i, k, True)
    return new


@smodel('std::collections::BTreeSet::<T, A>::pop_first', 'std::collections::BTreeSet::<T, A>::pop_last', 'std::collections::BTreeSet::<T, A>::first', 'std::collections::BTreeSet::<T, A>::last')
def set_extreme(eng, st, c):
    h = handle(eng, st, c.args[0], SetM)
    ks, extra = members(eng, st, h.i)
    if extra is not None:
        ks = ks + [extra]
    low = c.name.endswith('first')
    best = None
    for k in ks:
        if best is None or st.decide_int('lt', *((k, best) if low else (best, k))):
            best = k
    st.x['nmass'] = st.x.get('nmass', 0) + 1
    if best is None:
        return eng.none(c.dty)
    if '::pop_' in c.name:
        set_put(eng, st, h.i, best, False)
        return eng.some(c.dty, best)
    if extra is not None:
        st.imprecise = st.imprecise | {'extreme member'}
    return eng.some(c.dty, eng.box(st, best))


@smodel('<std::collections::BTreeSet<T> as std::iter::FromIterator<T>>::from_iter')
def set_from_iter(eng, st, c):
    v = strip(eng, st, c.args[0])
    ks = finite(eng, st, v)
    h = SetM(fresh_id(st, 'new'))
    for k in ks:
        set_put(eng, st, h.i, k, True)
    return h


@smodel('<std::collections::BTreeSet<T, A> as std::convert::From<[T; N]>>::from', '<std::collections::BTreeSet<T> as std::convert::From<[T; N]>>::from')
def set_from_array(eng, st, c):
    return set_from_iter(eng, st, c)


def finite(eng, st, v):
    """elements of a value that is a finite explicit sequence: once(x), Some(x), [x, ..]"""
    v = st.res(v)
    if v.__class__ is Agg:
        if v.ty is None or eng.p.types[v.ty]['k'] in ('array', 'tuple'):
            return list(v.f)
        n = short(eng.p.types[v.ty].get('def', ''))
        if n in ('Once', 'IntoIter', 'Item') and len(v.f) == 1:
            return finite(eng, st, v.f[0])
        if n == 'Option':
            return list(v.f)
    raise Unsupported('finite sequence of %r' % (v,))


@smodel('std::clone::Clone::clone')
def m_clone(eng, st, c):
    v = eng.load(st, c.args[0])
    if isinstance(v, H):
        return Cloned((v.tag, v.i))
    return v


for _n in ('<raw_btree::RawBTree<T, S> as std::clone::Clone>::clone', '<slab::Slab<T> as std::clone::Clone>::clone', '<std::collections::BTreeSet<T, A> as std::clone::Clone>::clone'):
    SM[_n] = m_clone


# ---------------------------------------------------------------- audit
def audit(eng, st, store, removed, added):
    """final store against the invariant and the announced change.
    removed: entry numbers of initial statements; added: tuple of values or None.
    -> (properties, message) or None; forks"""
    w = world(st)
    inf = w.info[store]
    S, R = (store, 'stm'), (store, 'res')
    word = 'quad' if inf.arity == 4 else 'triple'
    P1, P2, P12 = ('P01',), ('P02',), ('P01', 'P02')
    PX = ('P01', 'P02', 'P03', 'P05')               # resources cannot be found any more
    PT = ('P01', 'P03', 'P06')                      # the slab and the ordered index disagree
    PR = ('P01', 'P02', 'P03', 'P05')
    # every key mentioned in an overlay is a known entry
    for sid, ov in list(w.sets.items()):
        if sid[0] != store:
            continue
        for k, _ in ov:
            lookup(eng, st, R if sid[1] == 'list' else S, k)
    # statements
    new = []
    for e in ents(st, S):
        if e.init == 'occ':
            gone = e.n in removed
            if e.cur != 'occ' and not gone:
                return P1, 'a %s other than the one given is removed' % word
            if e.cur == 'occ' and gone:
                return P1 if e.intree else PT, 'the %s stays in the slab' % word
            if e.cur == 'occ':
                ks = cur_comps(eng, st, e)
                for c, k in zip(e.comps, ks):
                    if (c is None) != (k is None) or (c is not None and st.try_int('eq', w.ents[c].key, k) is not True):
                        return P1, 'a component of a stored %s is changed' % word
        elif e.cur == 'occ':
            new.append(e)
        if e.intree != (e.cur == 'occ'):
            return PT, 'a %s is %s' % (word, 'stored but missing from the ordered index' if e.cur == 'occ' else 'removed but still in the ordered index')
    if added is None and new:
        return P1, 'a %s is added' % word
    if added is not None:
        if len(new) != 1:
            return P1, 'the %s is not stored exactly once' % word
        for i, (k, v) in enumerate(zip(cur_comps(eng, st, new[0]), added)):
            if (k is None) != (v is None):
                return P1, 'the stored %s differs from the one inserted (graph component)' % word
            if k is None:
                continue
            re = lookup(eng, st, R, k)
            if re.cur != 'occ':
                return P1, 'the stored %s refers to a vacant resource' % word
            if not st.decide_atom_eq(st.akey(cur_value(eng, st, re)), st.akey(v)):
                return P1, 'component %d of the stored %s differs from the one inserted' % (i, word)
    # final uses of resources by known statements
    fin = {}
    for e in ents(st, S):
        if e.cur == 'occ':
            cs = []
            for k in cur_comps(eng, st, e):
                cs.append(None if k is None else lookup(eng, st, R, k).n)
            fin[e.n] = tuple(cs)
    inits = {e.n: e.comps for e in init_stm(st, store)}

    def nonempty(x, n):
        """final: some statement has resource n in role x"""
        i = ROLES.index(x)
        if any(c[i] == n for c in fin.values()):
            return True
        if n is not None and w.ents[n].init != 'occ':
            return False
        return rest(eng, st, store, x, n)

    def used(n):
        if any(n in c for c in fin.values()):
            return True
        if w.ents[n].init != 'occ':
            return False
        if inf.occ:
            known = sum(c.count(n) for c in inits.values())
            return not st.decide_int('eq', Sym(('occ', store, n)), known)
        # roles decided so far first, to limit case splits
        dec = [w.rests.get((store, x, n, sum(1 for c in inits.values() if c[i] == n))) for i, x in enumerate(ROLES[:inf.arity])]
        if True in dec:
            return True
        return any(rest(eng, st, store, x, n) for x in ROLES[:inf.arity])

    def touched(n):
        """statements using resource n changed"""
        return any(n in c for k, c in inits.items() if k not in fin) or any(n in c for k, c in fin.items() if k not in inits)

    def touched_role(n, x):
        i = ROLES.index(x)
        return any(c[i] == n for k, c in inits.items() if k not in fin) or any(c[i] == n for k, c in fin.items() if k not in inits)
    for e in ents(st, R):
        if e.intree != (e.cur == 'occ'):
            return PX, 'a resource is %s' % ('stored but missing from the ordered index' if e.cur == 'occ' else 'freed but still in the ordered index')
        if e.cur != 'occ':
            if e.init == 'occ' and used(e.n):
                return PX, 'a resource that is still used by a %s is freed' % word
            continue
        if e.init == 'occ' and st.atom_eq(st.akey(cur_value(eng, st, e)), st.akey(e.comps)) is not True:
            return P1, 'the value of a stored resource is changed'
        if (e.init != 'occ' or touched(e.n)) and not used(e.n):
            return P2, 'a resource used by no %s stays in the store' % word
        body = st.res(st.mem[slot(e.n)])
        for (a, _), v in zip(inf.rf, body.f):
            v = st.res(v)
            if a == 'value':
                continue
            if a == 'occ':
                d = sum(c.count(e.n) for c in fin.values()) - sum(c.count(e.n) for c in inits.values())
                want = d if e.init != 'occ' else eng.linadd(st, Sym(('occ', store, e.n)), d, 1)
                if st.try_int('eq', v, want) is not True:
                    return P12, 'the number of occurrences recorded for a resource is wrong by the number of its uses'
                continue
            if not isinstance(v, SetM):
                raise Unsupported('role set %r' % (v,))
            i = ROLES.index(a)
            if e.init == 'occ' and v.i == (store, 'role', a, e.n) and not overlay(st, v.i) and not touched_role(e.n, a):
                continue
            for q in ents(st, S):
                want = q.n in fin and fin[q.n][i] == e.n
                if set_has(eng, st, v.i, q.key) != want:
                    return PR, 'the %s role of a resource %s' % (
                        {'s': 'subject', 'p': 'predicate', 'o': 'object', 'g': 'graph'}[a], 'misses a %s' % word if want else 'lists a %s in which it does not play it' % word)
            if e.init == 'occ' and v.i != (store, 'role', a, e.n) and rest(eng, st, store, a, e.n):
                return PR, 'a role set of a resource is replaced'
    # new resources have values of their own: entailed by the search in the resource tree
    cur = [e for e in ents(st, R) if e.cur == 'occ']
    for i, a in enumerate(cur):
        for b in cur[i + 1:]:
            if st.atom_eq(st.akey(cur_value(eng, st, a)), st.akey(cur_value(eng, st, b))) is True:
                return PX, 'a resource is stored twice'
    # listings
    whole = st.res(eng.read(st, st.x[('addr', store)], ()))
    for i in range(len(inf.names)):
        k = inf.lay[i]
        h = st.res(whole.f[i])
        want = SlabM((store, k[1])) if k[0] == 'slab' else TreeM((store, k[1])) if k[0] == 'tree' else SetM((store,) + k)
        if h != want:
            if not isinstance(h, H) or h.i[1] != 'new' or h.__class__ is not want.__class__ or k[0] == 'tree' or empty_base(st, want.i) or filled(st, h.i):
                raise Unsupported('field %s of the store is replaced' % inf.names[i])
            # by another container: what the old one held beside the known entries is lost
            if k[0] == 'slab':
                known = sum(1 for e in ents(st, want.i) if e.init == 'occ')
                kept = [e for e in ents(st, want.i) if e.init == 'occ' and (k[1] == 'res' or e.n not in removed)]
                if not kept and st.decide_int('eq', len0(want.i), known):
                    raise Unsupported('field %s of the store is replaced' % inf.names[i])
                return PT, 'the stored %ss are dropped' % word if k[1] == 'stm' else 'the stored resources are dropped'
            if k[0] == 'list':
                known = sum(1 for e in ents(st, R) if base_has(eng, st, want.i, e.key))
                if not st.decide_int('eq', Sym(('card', want.i)), known):
                    return P2 + (('P05',) if k[1] == 'g' else ()), 'the %s listing loses resources that play that role' % inf.names[i]
            elif rest(eng, st, store, 'g', None):
                return ('P01', 'P03', 'P05'), 'the default graph index loses %ss' % word
        if k[0] == 'list':
            ov = overlay(st, h.i)
            for e in ents(st, R):
                if e.init == e.cur and not touched_role(e.n, k[1]) and not any(st.try_int('eq', q, e.key) is not False for q, _ in ov):
                    continue
                want = e.cur == 'occ' and nonempty(k[1], e.n)
                if set_has(eng, st, h.i, e.key) != want:
                    return P2 + (('P05',) if k[1] == 'g' else ()), 'the %s listing %s' % (inf.names[i], 'misses a resource playing that role' if want else 'keeps a resource that no longer plays that role')
        if k[0] == 'defg':
            for e in ents(st, S):
                want = e.n in fin and fin[e.n][3] is None
                if set_has(eng, st, h.i, e.key) != want:
                    return ('P01', 'P03', 'P05'), 'the default graph index %s' % ('misses a %s of the default graph' % word if want else 'lists a %s that is not in the default graph' % word)
    for i in range(len(inf.names)):
        k = inf.lay[i]
        if k[0] == 'slab' and ('compacted', (store, k[1])) in st.x and not st.decide_int('eq', slab_len_val(eng, st, (store, k[1])), 0):
            return PT, 'stored entries are moved to other keys by compacting the slab'
    return None


# ---------------------------------------------------------------- operations
STORES = {'BTreeGraph': 'Triple', 'IndexedBTreeGraph': 'Triple', 'BTreeDataset': 'Quad', 'IndexedBTreeDataset': 'Quad'}


def ref_to(eng, t):
    ty = eng.p.types[t]
    return ty['to'] if ty['k'] == 'ref' else None


def store_args(eng, st, inst, name='S'):
    """arguments of a function on a store: stores become arbitrary stores"""
    b = inst['body']
    args = []
    k = 0
    for i in range(1, b['args'] + 1):
        t = b['locals'][i]
        to = ref_to(eng, t)
        ty = eng.p.types[to if to is not None else t]
        if ty['k'] == 'adt' and short(ty['def']) in STORES:
            nm = name if k == 0 else '%s%d' % (name, k)
            k += 1
            v = mk_store(eng, st, to if to is not None else t, nm)
            a = ('store', nm)
            st.mem[a] = v
            st.x[('addr', nm)] = a
            args.append(Ref(a) if to is not None else v)
        else:
            args.append(Sym(('arg', 'a%d' % (i - 1)), t))
    return args


def engine(ctx, max_steps=3000000):
    e = ctx.engine(SM, max_steps)
    return e


def explore(ctx, eng, r, setup=None):
    inst = ctx.p.insts.get(r['root'])
    st = State()
    cow(st)
    if inst is None or 'body' not in inst:
        return [Outcome(st, 'unsup', 'no body')], []
    eng.steps = 0
    try:
        args = store_args(eng, st, inst)
        if setup:
            args = setup(st, args)
        outs = eng.run(st, r['root'], args)
    except (Unsupported, Budget, NeedFork, RecursionError, KeyError, AttributeError, TypeError, IndexError, ValueError) as e:
        return [Outcome(st, 'unsup', '%s: %s' % (type(e).__name__, e))], []
    ctx.paths += len(outs)
    return outs, args


def judge_op(ctx, eng, r, prop, spec, label=None, panics=('P01',), setup=None):
    """spec(state, args, outcome) -> None or (properties, message); forks.  Only the
    violations of prop are reported."""
    import lib
    nm = label or '%s::%s' % (r['nself'] or '', r['name'])
    if r.get('ntrait'):
        nm += ' [%s]' % r['ntrait']
    where = ctx.where(r)
    outs, args = explore(ctx, eng, r, setup)
    bad = und = None
    other = None
    n = 0
    for o in outs:
        if o.kind == 'unsup':
            und = o.val
            continue
        if o.kind == 'panic':
            if o.st.imprecise or o.st.x.get('wide'):
                und = 'imprecise panic'
            elif prop in (getattr(o.val, 'props', None) or panics):
                bad = 'panics: %s' % o.val
            else:
                other = o.val
            continue
        try:
            for s, m in refine(o.st, lambda s: spec(s, args, o), 20000):
                n += 1
                if m:
                    if s.imprecise:
                        und = 'imprecise: ' + ', '.join(sorted(s.imprecise)[:3])
                    elif prop in m[0]:
                        bad = m[1]
                    else:
                        other = m[1]
        except Unsupported as e:
            und = 'oracle: %s' % e
        except Panic as e:
            und = 'oracle: %s' % e.msg
    if bad:
        ctx.ob(nm, lib.BAD, bad, where)
    elif und:
        ctx.ob(nm, lib.UND, und, where)
    elif other:
        ctx.ob(nm, lib.UND, 'another property is violated: ' + other, where)
    elif n == 0:
        ctx.ob(nm, lib.UND, 'no returning trace', where)
    else:
        ctx.ob(nm, lib.OK, '%d traces' % n, where)
    return not bad


def given(eng, st, v):
    return keyval(eng, st, None, v)


def truth_is(eng, st, v, want):
    v = st.res(v)
    return bool(eng.truth(st, v)) == bool(want)


def spec_insert(eng, ret=True):
    def spec(s, args, o):
        t = given(eng, s, args[1])
        e = resolve_stm(eng, s, 'S', t)
        if ret and not truth_is(eng, s, o.val, e is None):
            return ('P01',), 'insertion returns %s although the statement was %s' % ('true' if e is not None else 'false', 'present' if e is not None else 'absent')
        return audit(eng, s, 'S', (), t if e is None else None)
    return spec


def spec_remove(eng, ret=True):
    def spec(s, args, o):
        t = given(eng, s, args[1])
        e = resolve_stm(eng, s, 'S', t)
        if ret and not truth_is(eng, s, o.val, e is not None):
            return ('P01',), 'removal returns %s although the statement was %s' % ('false' if e is not None else 'true', 'present' if e is not None else 'absent')
        return audit(eng, s, 'S', (e.n,) if e is not None else (), None)
    return spec


def spec_contains(eng):
    def spec(s, args, o):
        t = given(eng, s, args[1])
        e = resolve_stm(eng, s, 'S', t)
        if not truth_is(eng, s, o.val, e is not None):
            return ('P01',), 'containment answers %s for a statement that is %s' % ('false' if e is not None else 'true', 'present' if e is not None else 'absent')
        return audit(eng, s, 'S', (), None)
    return spec


def spec_contains_resource(eng):
    def spec(s, args, o):
        v = strip(eng, s, args[1])
        e = resolve_res(eng, s, 'S', v)
        if not truth_is(eng, s, o.val, e is not None):
            return ('P02',), 'answers %s for a resource that is %s' % ('false' if e is not None else 'true', 'used' if e is not None else 'not used')
        return audit(eng, s, 'S', (), None)
    return spec


def spec_len(eng):
    def spec(s, args, o):
        if s.try_int('eq', o.val, len0(('S', 'stm'))) is not True:
            return ('P01',), 'the length is not the number of statements'
    return spec


def spec_is_empty(eng):
    def spec(s, args, o):
        e = s.decide_int('eq', len0(('S', 'stm')), 0)
        if not truth_is(eng, s, o.val, e):
            return ('P01',), 'is_empty disagrees with the number of statements'
    return spec


# ---------------------------------------------------------------- iteration
class IterM(Model):
    """iterator over the keys of a tree or set; at: 'start', or a mark once advanced"""
    def __init__(self, src, at='start', byval=False):
        self.src, self.at, self.byval = src, at, byval

    def __eq__(self, o):
        return o.__class__ is IterM and (self.src, self.at, self.byval) == (o.src, o.at, o.byval)

    def __hash__(self):
        return hash((self.src, self.at, self.byval))

    def __repr__(self):
        return 'iter(%r,%s)' % (self.src, self.at)

    def term(self, st):
        return ('iter', self.src, self.at, self.byval)


class ZipM(Model):
    def __init__(self, a, b, ta, tb):
        self.a, self.b, self.ta, self.tb = a, b, ta, tb

    def term(self, st):
        return ('zip', self.a, self.b)


@smodel('raw_btree::RawBTree::<T, S>::iter', "<&'a raw_btree::RawBTree<T, S> as std::iter::IntoIterator>::into_iter", '<&raw_btree::RawBTree<T, S> as std::iter::IntoIterator>::into_iter')
def tree_iter(eng, st, c):
    h = handle(eng, st, c.args[0], TreeM)
    return IterM(('tree',) + h.i)


@smodel('<raw_btree::RawBTree<T, S> as std::iter::IntoIterator>::into_iter')
def tree_into_iter(eng, st, c):
    h = handle(eng, st, c.args[0], TreeM)
    return IterM(('tree',) + h.i, byval=True)


@smodel('std::collections::BTreeSet::<T, A>::iter', "<&'a std::collections::BTreeSet<T, A> as std::iter::IntoIterator>::into_iter")
def set_iter(eng, st, c):
    h = handle(eng, st, c.args[0], SetM)
    if overlay(st, h.i):
        raise Unsupported('iteration over a modified set')
    return IterM(('set',) + h.i)


@smodel('slab::Slab::<T>::iter', "<&'a slab::Slab<T> as std::iter::IntoIterator>::into_iter")
def slab_iter(eng, st, c):
    h = handle(eng, st, c.args[0], SlabM)
    return IterM(('slab',) + h.i)


@smodel('<slab::Slab<T> as std::iter::IntoIterator>::into_iter')
def slab_into_iter(eng, st, c):
    h = handle(eng, st, c.args[0], SlabM)
    return IterM(('slab',) + h.i, byval=True)


@smodel("<slab::Iter<'a, T> as std::iter::Iterator>::next", '<slab::IntoIter<T> as std::iter::Iterator>::next')
def slab_iter_next(eng, st, c):
    it = st.res(eng.load(st, c.args[0]))
    if it.__class__ is not IterM:
        raise Unsupported('next on %r' % (it,))
    e = pull(eng, st, it)
    eng.store(st, c.args[0], IterM(it.src, 'p%d' % st.x['npull'], it.byval))
    if e is None:
        return eng.none(c.dty)
    ot = eng.p.types[c.dty]['v'][1]['f'][0][1]
    return eng.some(c.dty, Agg(ot, 0, [e.key, st.mem[slot(e.n)] if it.byval else Ref(slot(e.n))]))


def pull(eng, st, it):
    """-> entry or None; forks over what the iterator may yield next"""
    w = world(st)
    k = st.x.get('npull', 0)
    ck = ('pull', k)
    if ck not in st.x:
        store = it.src[1]
        if store not in w.info:
            st.x[ck] = None
        else:
            raise NeedFork(pull_opts(eng, st, it, ck, k))
    st.x['npull'] = k + 1
    n = st.x[ck]
    st.events.append(('pull', it.src, n))
    return None if n is None else world(st).ents[n]


def pull_opts(eng, st, it, ck, k):
    store = it.src[1]
    done = set(ev[2] for ev in st.events if ev[0] == 'pull' and ev[1] == it.src)

    def none(s):
        if it.at == 'start' and it.src[0] in ('tree', 'slab'):
            if any(e.init == 'occ' for e in ents(s, it.src[1:])):
                raise Infeasible()
            s.assume_int('eq', len0(it.src[1:]), 0)
        s.x[ck] = None

    def use(n):
        def f(s):
            s.x[ck] = n
        return f
    opts = [none]
    if it.src[0] in ('tree', 'slab') and it.src[2] == 'res' or it.src[0] == 'set' and it.src[2] == 'list':
        x = it.src[3] if it.src[0] == 'set' else None

        def new(s):
            e = mat_res(eng, s, store)
            if x is not None:
                cow(s).rests[(store, x, e.n, 0)] = True
            s.x[ck] = e.n
        opts.append(new)
        for e in init_res(st, store):
            if e.n not in done and (x is None):
                opts.append(use(e.n))
    elif it.src[0] in ('tree', 'slab'):
        def wrap(o):
            def f(s):
                o(s)
                s.x[ck] = world(s).n
            return f
        opts += [wrap(o) for o in pick_opts(eng, st, store, None)]
        for e in init_stm(st, store):
            if e.n not in done:
                opts.append(use(e.n))
    elif it.src[0] == 'rem':
        def wrap2(o):
            def f(s):
                o(s)
                s.x[ck] = world(s).n
            return f
        opts += [wrap2(o) for o in pick_opts(eng, st, store, None, (ROLES.index(it.src[2]), it.src[3]))]
    else:
        raise Unsupported('iteration over %r' % (it.src,))
    return opts


@smodel("<raw_btree::Iter<'a, T, S> as std::iter::Iterator>::next", '<raw_btree::IntoIter<T, S> as std::iter::Iterator>::next', "<std::collections::btree_set::Iter<'a, T> as std::iter::Iterator>::next")
def iter_next(eng, st, c):
    it = st.res(eng.load(st, c.args[0]))
    if it.__class__ is not IterM:
        raise Unsupported('next on %r' % (it,))
    e = pull(eng, st, it)
    eng.store(st, c.args[0], IterM(it.src, 'p%d' % st.x['npull'], it.byval))
    if e is None:
        return eng.none(c.dty)
    if it.byval:
        return eng.some(c.dty, e.key)
    return eng.some(c.dty, eng.box(st, e.key))


def local_next(eng, ty):
    """the crate's own Iterator::next for a type"""
    d = eng.p.types[ty].get('def')
    for r in eng.p.roots:
        if r['name'] == 'next' and r['btrait'] == 'Iterator':
            b = eng.p.insts[r['root']].get('body')
            if b and eng.p.types[eng.p.types[b['locals'][1]].get('to', b['locals'][1])].get('def') == d:
                return r
    return None


@smodel('std::iter::adapters::zip::ZipImpl::new')
def zip_new(eng, st, c):
    a, b = eng.box(st, c.args[0], 'zipa'), eng.box(st, c.args[1], 'zipb')
    return ZipM(a.a, b.a, getattr(st.res(c.args[0]), 'ty', None), getattr(st.res(c.args[1]), 'ty', None))


@smodel('std::iter::adapters::zip::ZipImpl::next', '<std::iter::Zip<A, B> as std::iter::Iterator>::next')
def zip_next(eng, st, c):
    z = st.res(eng.load(st, c.args[0]))
    if z.__class__ is not ZipM:
        raise Unsupported('next on %r' % (z,))
    ot = eng.p.types[c.dty]['v'][1]['f'][0][1]
    outs = []
    ra, rb = local_next(eng, z.ta) if z.ta is not None else None, local_next(eng, z.tb) if z.tb is not None else None
    if ra is None or rb is None:
        raise Unsupported('zip of library iterators')
    for o in eng.run(st, ra['root'], [Ref(z.a)], c.depth + 1):
        if o.kind != 'ret':
            outs.append(o)
            continue
        va = o.st.res(o.val)
        eng.variant_of(o.st, va)
        va = o.st.res(va)
        if va.var == 0:
            outs.append(Outcome(o.st, 'ret', eng.none(c.dty)))
            continue
        for q in eng.run(o.st, rb['root'], [Ref(z.b)], c.depth + 1):
            if q.kind != 'ret':
                outs.append(q)
                continue
            vb = q.st.res(q.val)
            eng.variant_of(q.st, vb)
            vb = q.st.res(vb)
            if vb.var == 0:
                outs.append(Outcome(q.st, 'ret', eng.none(c.dty)))
            else:
                outs.append(Outcome(q.st, 'ret', eng.some(c.dty, Agg(ot, 0, [va.f[0], vb.f[0]]))))
    return outs


def map_mem(st, f):
    for a, v in list(st.mem.items()):
        n = map_val(v, f)
        if n is not v:
            st.mem[a] = n


def map_val(v, f):
    if v.__class__ is Agg:
        fs = [map_val(x, f) for x in v.f]
        if any(x is not y for x, y in zip(fs, v.f)):
            return Agg(v.ty, v.var, fs)
        return v
    return f(v)


def iterators(v, out=None):
    out = [] if out is None else out
    if v.__class__ is Agg:
        for x in v.f:
            iterators(x, out)
    elif v.__class__ is IterM:
        out.append(v)
    return out


def whole_iter(eng, st, v):
    """the iteration over a tree or set that an iterator value stands for: adaptors that keep every element are looked through,
    adaptors that drop a fixed number of elements mark the iteration as incomplete, others are not understood"""
    cut = False
    v = st.res(v)
    while v.__class__ is Agg and v.ty is not None:
        t = eng.p.types[v.ty]
        d = short(t.get('def', ''))
        if d not in ('Copied', 'Cloned', 'Fuse', 'Skip', 'StepBy', 'Take') or len(t['v']) != 1:
            raise Unsupported('iteration through %s' % t['s'])
        f = dict((n, st.res(x)) for (n, _), x in zip(t['v'][0]['f'], v.f))
        if d in ('Skip', 'Take', 'StepBy'):
            k = f.get('step_minus_one' if d == 'StepBy' else 'n')
            if not isinstance(k, int):
                raise Unsupported('iteration through %s' % t['s'])
            cut = cut or d == 'Take' or k > 0
        v = f.get('it', f.get('iter'))
        if v.__class__ is Agg and d == 'Fuse':
            if short(eng.p.types[v.ty].get('def', '')) != 'Option' or v.var != 1:
                raise Unsupported('exhausted iterator')
            v = st.res(v.f[0])
    if v.__class__ is not IterM:
        raise Unsupported('iteration over %r' % (v,))
    return IterM(v.src, 'cut', v.byval) if cut else v


def pulls(st, since=None):
    evs = st.events
    if since is not None:
        for i in range(len(evs) - 1, -1, -1):
            if evs[i][0] == since:
                evs = evs[i + 1:]
                break
    return [e for e in evs if e[0] == 'pull']


def expect_d(eng, st, e):
    """expected content of the element at entry e: the initial denotation"""
    w = world(st)
    if e.slab[1] == 'res':
        return e.comps
    vs = [None if c is None else w.ents[c].comps for c in e.comps]
    if len(vs) == 3:
        return X('Triple', 'Triple', *vs)
    return X('Quad', 'Quad', *(vs[:3] + [X('Option', 'None') if vs[3] is None else X('Option', 'Some', vs[3])]))


def intact(eng, st, store, removed=(), words=('P01',)):
    """every entry other than the removed statements keeps its slot and content"""
    w = world(st)
    for e in w.ents.values():
        if e.slab[0] != store:
            continue
        if e.n in removed:
            continue
        if e.init != e.cur:
            return words, 'another %s is %s' % ('resource' if e.slab[1] == 'res' else 'statement', 'freed' if e.cur == 'vac' else 'added')
    return None


def check_iteration(ctx, eng, r, prop, src, label=None):
    """the function returns an iterator over exactly the elements of src, whose next yields
    the denotation of each element once"""
    import lib
    nm = label or '%s::%s' % (r['nself'] or '', r['name'])
    if r.get('ntrait'):
        nm += ' [%s]' % r['ntrait']
    where = ctx.where(r)
    outs, args = explore(ctx, eng, r)
    und = bad = None
    starts = []
    for o in outs:
        if o.kind == 'unsup':
            und = o.val
        elif o.kind == 'panic':
            bad = 'panics: %s' % o.val
        else:
            v = o.st.res(o.val)
            its = iterators(v)
            if v.__class__ is not Agg or len(its) != 1:
                und = 'iterator shape %r' % (v,)
            elif its[0].at != 'start':
                bad = 'the iterator is already advanced'
            elif its[0].src == src:
                starts.append((o.st, v, src))
            elif its[0].src[0] == 'slab' and src[0] == 'tree' and its[0].src[1:] == src[1:]:
                # same elements, in an order that depends on the history
                if prop == 'P06':
                    bad = SLABORDER
                starts.append((o.st, v, its[0].src))
            else:
                bad = 'iterates over %r instead of %r' % (its[0].src[1:], src[1:])
    n = 0
    if not bad and not und:
        for st, v, src in starts:
            nx = local_next(eng, v.ty)
            if nx is None:
                und = 'no next for %s' % eng.p.types[v.ty]['s']
                break
            st = st.copy()
            a = ('iterator',)
            # at an arbitrary point of the iteration
            st.mem[a] = map_val(v, lambda x: IterM(x.src, 'mid', x.byval) if x.__class__ is IterM else x)
            try:
                res = eng.run(st, nx['root'], [Ref(a)])
            except (Unsupported, Budget, NeedFork, KeyError, TypeError, AttributeError, IndexError) as e:
                und = '%s: %s' % (type(e).__name__, e)
                break
            ctx.paths += len(res)
            for o in res:
                if o.kind == 'unsup':
                    und = o.val
                    continue
                if o.kind == 'panic':
                    bad = 'next panics: %s' % o.val
                    continue
                try:
                    for s, m in refine(o.st, lambda s: next_spec(eng, s, o, src)):
                        n += 1
                        if m:
                            if s.imprecise:
                                und = 'imprecise'
                            else:
                                bad = 'next: ' + m
                except Unsupported as e:
                    und = 'oracle: %s' % e
    if bad:
        ctx.ob(nm, lib.BAD, bad, where)
    elif und:
        ctx.ob(nm, lib.UND, und, where)
    else:
        ctx.ob(nm, lib.OK if n else lib.UND, '%d traces' % n, where)


def next_spec(eng, s, o, src):
    ps = [p for p in pulls(s) if p[1] == src]
    v = s.res(o.val)
    eng.variant_of(s, v)
    v = s.res(v)
    got = [p[2] for p in ps if p[2] is not None]
    if v.var == 0:
        if got:
            return 'an element is skipped'
        if not ps:
            return 'ends without consulting the index'
        return None
    if len(got) != 1 or ps[-1][2] is None:
        return 'yields an element that is not the next one' if not got else 'an element is skipped'
    e = world(s).ents[got[0]]
    if not same(eng, s, v.f[0], expect_d(eng, s, e)):
        return 'yields something else than the stored element'
    m = intact(eng, s, src[1], removed=got)
    if m:
        return m[1]
    return None


# ---------------------------------------------------------------- comparison of stores
def at_end(st):
    """has the iteration met the end of what it iterates over; the loop then has to end, and nothing is induced"""
    for i in range(len(st.events) - 1, -1, -1):
        e = st.events[i]
        if e[0] == 'loop':
            return False
        if e[0] == 'item' and e[1] is None or e[0] == 'pull' and e[2] is None:
            st.x['past'] = st.x.get('past', 0) + 1
            if st.x['past'] > 3:
                raise Unsupported('the loop goes on after the end of the sequence')
            return True
    return False


class Carry:
    """loop rule, second half: an iteration may leave the variables that live across iterations (numbers, flags) other than it
    found them. The loop head is then analysed again with the new values: flags by enumeration, numbers as any number on the
    same side of their first value. Other values that change make the loop undecided."""
    def __init__(self):
        self.heads = []

    def leaves(self, eng, st, fr, body, bb, only=None):
        live = eng.p.live_at(body, bb)
        out = {}

        def walk(a, p, v):
            v = st.res(v) if v.__class__ is Sym else v
            if v.__class__ is Agg:
                out[(a, p, 'v')] = ('var', v.ty, v.var, len(v.f))
                for i, x in enumerate(v.f):
                    walk(a, p + (i,), x)
            elif isinstance(v, Model):
                out[(a, p)] = ('model', v.__class__)
            else:
                out[(a, p)] = v
        for a, v in st.mem.items():
            if only is not None and a not in only:
                continue
            if isinstance(a, tuple) and a[0] == fr and a[1] not in live:
                continue
            walk(a, (), v)
        return out

    def enter(self, eng, st, fr, body, bb):
        lv = self.leaves(eng, st, fr, body, bb)
        st.x['carry'] = len(self.heads)
        self.heads.append([st.copy(), lv, {}, set()])

    def back(self, eng, st, fr, body, bb):
        """-> True when st has become a new loop head to analyse"""
        hd = self.heads[st.x['carry']]
        base, lv, wide, seen = hd
        now = self.leaves(eng, st, fr, body, bb, base.mem)
        new = []
        for k in lv:
            if lv[k].__class__ is Sym and self.unchanged(eng, st, k, lv[k]):
                continue
            if k not in now:
                if len(k) == 3 or any(x[0] == k[0] and x[1] == k[1][:len(x[1])] and len(x) == 3 and now.get(x) != lv[x] for x in lv):
                    continue
                raise Unsupported('the loop carries state: %r' % ((k, lv.get(k), now.get(k)),))
            x, y = lv[k], now[k]
            if len(k) == 3:
                if x[1:] != y[1:]:
                    if x[3] or y[3] or x[1] != y[1]:
                        raise Unsupported('the loop carries state: %r' % ((k, lv.get(k), now.get(k)),))
                    new.append((k, y))
                continue
            if x.__class__ is Sym and y.__class__ is Sym and st.rep(x.key) == st.rep(y.key) or x == y:
                continue
            if not (isinstance(x, int) or x.__class__ in (Sym, Lin)) or not (isinstance(y, int) or y.__class__ in (Sym, Lin)):
                raise Unsupported('the loop carries state: %r' % ((k, lv.get(k), now.get(k)),))
            t = self.type_at(eng, base, k)
            kind = eng.p.types[t]['k'] if t is not None else None
            if kind == 'bool':
                if y.__class__ is Sym:
                    y = int(not st.decide_int('eq', y, 0))
                new.append((k, y))
            elif kind in ('uint', 'int') and isinstance(x, int):
                up = st.try_int('le', x, y) is True
                dn = st.try_int('le', y, x) is True
                new.append((k, ('wide', t, x, up, dn)))
            else:
                raise Unsupported('the loop carries state: %r' % ((k, lv.get(k), now.get(k)),))
        # numbers widened before stay so
        have = dict(new)
        for k, d in st.x.get('wide', {}).items():
            if k not in have:
                continue
            o, m = d, have[k]
            have[k] = ('wide', o[1], o[2], o[3] and m[3], o[4] and m[4])
        if not have:
            return False
        key = tuple(sorted(have.items(), key=repr))
        if key in seen:
            return False
        if len(seen) > 12:
            raise Unsupported('the loop carries state: %r' % ((k, lv.get(k), now.get(k)),))
        seen.add(key)
        h = base.copy()
        for sl in State.__slots__:
            setattr(st, sl, getattr(h, sl))
        st.x['wide'] = {k: v for k, v in have.items() if isinstance(v, tuple) and v[0] == 'wide'}
        for k, v in have.items():
            if v.__class__ is tuple and v[0] == 'wide':
                st.x['nwide'] = st.x.get('nwide', 0) + 1
                c = Sym(('carried', st.x['carry'], len(seen), st.x['nwide']), v[1])
                if v[3]:
                    st.assume_int('le', v[2], c)
                if v[4]:
                    st.assume_int('le', c, v[2])
                if eng.p.types[v[1]].get('bits', 64) >= 64 and not v[4]:
                    st.assume_int('le', c, 1 << 62)
                self.put(eng, st, k, c)
            elif len(k) == 3:
                self.put(eng, st, (k[0], k[1]), Agg(v[1], v[2], ()))
            else:
                self.put(eng, st, k, v)
        return True

    @staticmethod
    def unchanged(eng, st, k, x):
        """is the value the one held before, possibly looked into meanwhile"""
        v = st.mem.get(k[0])
        for i in k[1]:
            v = st.res(v)
            if v.__class__ is not Agg or i >= len(v.f):
                return False
            v = v.f[i]
        return v is not None and (v.__class__ is Ref and v.a == ('*', x.key) and not v.p or eng.term(st, v) == eng.term(st, x))

    @staticmethod
    def put(eng, st, k, v):
        st.mem[k[0]] = eng.upd(st, st.mem[k[0]], k[1], v) if k[1] else v

    @staticmethod
    def type_at(eng, st, k):
        """type of a number or flag held in memory, from the declared types"""
        a, p = k[0], k[1]
        if not p:
            v = st.mem[a]
            if v.__class__ is Sym and v.ty is not None:
                return v.ty
            ls = st.x.get(('locals', a[0])) if isinstance(a, tuple) and len(a) == 2 else None
            return ls[a[1]] if ls is not None else None
        v = st.res(st.mem[a])
        for i in p[:-1]:
            v = st.res(v.f[i])
        t = eng.p.types[v.ty] if v.ty is not None else None
        if t is None:
            return None
        if t['k'] in ('tuple', 'closure'):
            return t['f'][p[-1]]
        if t['k'] == 'adt':
            return t['v'][v.var]['f'][p[-1]][1]
        return None


def compare_hook(found):
    """loop rule for comparisons: an iteration that continues has seen equal elements"""
    cr = Carry()

    def hook(eng, st, fr, inst, body, bb, n, depth):
        if n == 0:
            map_mem(st, lambda x: IterM(x.src, 'mid', x.byval) if x.__class__ is IterM else x)
            st.events.append(('loop', bb))
            cr.enter(eng, st, fr, body, bb)
            return None
        found.append(st.copy())
        return None if cr.back(eng, st, fr, body, bb) else 'stop'
    return hook


def pair(eng, st):
    ps = pulls(st, 'loop')
    a = [p[2] for p in ps if p[1] == ('tree', 'S', 'stm')]
    b = [p[2] for p in ps if p[1] == ('tree', 'S1', 'stm')]
    return a, b


def pair_eq(eng, st, a, b):
    ea, eb = world(st).ents[a], world(st).ents[b]
    w = world(st)
    da = [None if c is None else w.ents[c].comps for c in ea.comps]
    db = [None if c is None else w.ents[c].comps for c in eb.comps]
    return d_eq(st, da, db)


def check_eq(ctx, eng, r):
    import lib
    nm = '%s::%s [%s]' % (r['nself'], r['name'], r['ntrait'])
    found = []
    eng.loop_hook = compare_hook(found)
    try:
        outs, args = explore(ctx, eng, r)
    finally:
        eng.loop_hook = None
    bad = und = None
    n = 0

    def fin(s, v):
        a, b = pair(eng, s)
        lens = s.decide_int('eq', len0(('S', 'stm')), len0(('S1', 'stm')))
        t = bool(eng.truth(s, v))
        if len(a) > 1 or len(b) > 1:
            raise Unsupported('several elements in one iteration')
        ended = bool(a) and a[-1] is None or bool(b) and b[-1] is None
        differ = False
        if a and b and a[-1] is not None and b[-1] is not None:
            differ = not pair_eq(eng, s, a[-1], b[-1])
        short_ = a and b and (a[-1] is None) != (b[-1] is None)
        if t:
            if differ:
                return 'answers that stores are equal although statements differ'
            if not lens:
                if a and b and a[-1] is None and b[-1] is None:
                    raise Infeasible()
                return 'answers that stores of different sizes are equal'
            if not ended:
                return 'answers that stores are equal before all statements are compared'
        else:
            if lens and not differ and not short_:
                return 'answers that stores are different although no difference was found'
        return None

    def back(s):
        a, b = pair(eng, s)
        if len(a) != 1 or len(b) != 1 or a[0] is None or b[0] is None:
            raise Unsupported('iteration shape')
        if not pair_eq(eng, s, a[0], b[0]):
            return 'goes on although two statements differ'
    for o in outs:
        if o.kind == 'unsup':
            und = o.val
            continue
        if o.kind == 'panic':
            bad = 'panics: %s' % o.val
            continue
        try:
            for s, m in refine(o.st, lambda s: fin(s, o.val)):
                n += 1
                if m:
                    if s.imprecise:
                        und = 'imprecise: %s' % sorted(s.imprecise)[:2]
                    else:
                        bad = m
        except Unsupported as e:
            und = str(e)
    for st in found:
        try:
            for s, m in refine(st, back):
                n += 1
                if m:
                    if s.imprecise:
                        und = 'imprecise: %s' % sorted(s.imprecise)[:2]
                    else:
                        bad = m
        except Unsupported as e:
            und = str(e)
    if not found and not bad and not und:
        und = 'no comparison loop found'
    if any(e[0] == 'pull' and e[1][0] == 'slab' for o in outs for e in o.st.events):
        bad = SLABORDER
    ctx.ob(nm, lib.BAD if bad else lib.UND if und else lib.OK, bad or und or '%d traces' % n, ctx.where(r))


SLABORDER = 'visits the statements in slab order, which depends on the history of the store'


def check_cmp(ctx, eng, r, maps):
    """ordering: equal exactly when all statements are, otherwise decided by the first difference"""
    import lib
    nm = '%s::%s [%s]' % (r['nself'], r['name'], r['ntrait'])
    found = []
    eng.loop_hook = compare_hook(found)
    try:
        outs, args = explore(ctx, eng, r)
    finally:
        eng.loop_hook = None
    bad = und = None
    n = 0
    mp = maps.setdefault(r['bself'], {}).setdefault(r['name'], {'pair': {}, 'end': {}})

    def got(s, v):
        v = s.res(v)
        eng.variant_of(s, v)
        v = s.res(v)
        if short(eng.p.types[v.ty]['def']) == 'Option':
            if v.var == 0:
                return None
            v = s.res(v.f[0])
            eng.variant_of(s, v)
            v = s.res(v)
        return v.var - 1

    def fin(s, v):
        g = got(s, v)
        if g is None:
            return 'answers that two stores cannot be compared'
        a, b = pair(eng, s)
        if len(a) > 1 or len(b) > 1:
            raise Unsupported('several elements in one iteration')
        if not a or not b:
            if g == 0:
                return 'answers that stores are equal before all statements are compared'
            raise Unsupported('decided without the statements')
        a, b = a[0], b[0]
        if a is not None and b is not None:
            w = world(s)
            da = [None if c is None else w.ents[c].comps for c in w.ents[a].comps]
            db = [None if c is None else w.ents[c].comps for c in w.ents[b].comps]
            want, kind = d_cmp(s, da, db), 'pair'
        else:
            want, kind = (a is not None) - (b is not None), 'end'
        if (g == 0) != (want == 0):
            return 'answers that different stores are equal' if g == 0 else 'answers that equal stores are ordered'
        if kind == 'pair' and want == 0:
            return 'stops although no difference was found'
        if want:
            mp[kind].setdefault(want, set()).add(g)
        return None

    def back(s):
        a, b = pair(eng, s)
        if len(a) != 1 or len(b) != 1 or a[0] is None or b[0] is None:
            raise Unsupported('iteration shape')
        if not pair_eq(eng, s, a[0], b[0]):
            return 'goes on although two statements differ'
    jobs = [(o.st, lambda s, o=o: fin(s, o.val)) for o in outs if o.kind == 'ret'] + [(st, back) for st in found]
    for o in outs:
        if o.kind == 'unsup':
            und = o.val
        elif o.kind == 'panic':
            bad = 'panics: %s' % o.val
    for st, f in jobs:
        try:
            for s, m in refine(st, f):
                n += 1
                if m and s.imprecise:
                    und = 'imprecise: %s' % sorted(s.imprecise)[:2]
                elif m:
                    bad = m
        except Unsupported as e:
            und = str(e)
    if any(e[0] == 'pull' and e[1][0] == 'slab' for o in outs for e in o.st.events):
        bad = SLABORDER
    if not bad and not und:
        for kind, m in mp.items():
            if any(len(x) != 1 for x in m.values()):
                und = 'neither the lexicographic order nor its reverse'
            elif len(m) == 2 and m[1] == m[-1]:
                bad = 'gives the same answer whichever store has the lesser statement'
    if not found and not bad and not und:
        und = 'no comparison loop found'
    ctx.ob(nm, lib.BAD if bad else lib.UND if und else lib.OK, bad or und or '%d traces' % n, ctx.where(r))


def syms(st, v, out=None):
    out = set() if out is None else out
    v = st.res(v)
    if v.__class__ is Sym:
        out.add(v.key)
    elif v.__class__ is Agg:
        for x in v.f:
            syms(st, x, out)
    elif v.__class__ is Lin:
        for k in v.m:
            out.add(k)
    elif isinstance(v, H):
        out.add(('handle', v.i))
    return out


def check_hash(ctx, eng, r):
    import lib
    nm = '%s::%s [%s]' % (r['nself'], r['name'], r['ntrait'])
    found = []
    eng.loop_hook = compare_hook(found)
    try:
        outs, args = explore(ctx, eng, r)
    finally:
        eng.loop_hook = None
    bad = und = None
    n = 0
    for o in outs:
        if o.kind == 'unsup':
            und = o.val
        elif o.kind == 'panic':
            bad = 'panics: %s' % o.val
    for st in [o.st for o in outs if o.kind == 'ret'] + found:
        n += 1
        for ev in st.events:
            if ev[0] == 'pull' and ev[1][0] == 'slab':
                bad = SLABORDER
            if ev[0] == 'hash':
                for k in syms(st, ev[1]):
                    if k[0] in ('key', 'cap'):
                        bad = 'hashes a slab %s, which depends on the history of the store' % ('key' if k[0] == 'key' else 'capacity')
                    elif k[0] not in ('val', 'len', 'card', 'occ'):
                        und = 'hashes %r' % (k,)
    ctx.ob(nm, lib.BAD if bad else lib.UND if und else lib.OK, bad or und or '%d traces' % n, ctx.where(r))


def order_consistent(ctx, eng, prop, types):
    """all comparators used on one tree order it the same way"""
    import lib
    by = {}
    for k, v in eng.cache.items():
        if k[0] == 'cmp':
            by.setdefault(k[1:3], set()).add(v)
    for (ty, kind), vs in sorted(by.items()):
        nm = '%s: order of the %s index' % (eng.p.types[ty]['s'].split('::')[-1], 'resource' if kind == 'res' else 'statement')
        if 'bad' in vs:
            ctx.ob(nm, lib.BAD, BADCMP[kind], '')
        elif vs == {'lexi'}:
            ctx.ob(nm, lib.OK, 'every comparator orders by content', '')
        elif 'lexi' in vs:
            ctx.ob(nm, lib.BAD, 'two operations order the same index differently', '')
        else:
            ctx.ob(nm, lib.UND, 'the order is not the order of the content', '')
