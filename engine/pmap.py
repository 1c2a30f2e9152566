"""Maps keyed by canonical patterns.

The containers of the standard library are denoted by their access path: the set reached from the map
through fields and through the slots ('slot', map, key) of the hash maps.  Inserting, looking up and
uniting then become statements about which access paths are used:
 - insert uses one set, and no two patterns share it;
 - get iterates over exactly the sets used by insert for the patterns matching the triple;
 - next drains every iterator that get created, and loses nothing;
 - union adds to the set at each path the set of the other map at the same path.
"""
from core import *
from lib import *
import lib, pat

HS, HM = 'std::collections::HashSet', 'std::collections::HashMap'
PM = {}


def pm(*names):
    def d(f):
        for n in names:
            PM[n] = f
        return f
    return d


class It(Model):
    """iterator over a container: kind set/map/keys..., how the elements are handed out"""
    def __init__(self, src, kind, by, state='start'):
        self.src, self.kind, self.by, self.state = src, kind, by, state

    def term(self, st):
        return ('it', self.src.key, self.kind, self.by, self.state)


class Entry(Model):
    def __init__(self, m, k):
        self.m, self.k = m, k

    def term(self, st):
        return ('entry', self.m.key, self.k)


def kind_of(eng, v):
    t = eng.p.types.get(getattr(v, 'ty', None))
    if t and t['k'] == 'adt':
        if t['def'].endswith('HashSet'):
            return 'set'
        if t['def'].endswith('HashMap'):
            return 'map'


def cont(eng, st, v, what=None):
    """the container (by value or through references)"""
    for _ in range(5):
        v = st.res(v)
        if v.__class__ is Ref or (v.__class__ is Sym and eng.is_ref(v.ty)):
            v = eng.load(st, v)
            continue
        break
    if v.__class__ is Sym and kind_of(eng, v) and (what is None or kind_of(eng, v) == what):
        return v
    raise Unsupported('container %r' % (v,))


def keyterm(eng, st, v):
    v = strip(eng, st, v)
    return eng.term(st, v)


def has(st, m, k):
    ck = ('has', m.key, k)
    if ck not in st.x:
        raise NeedFork([lambda s: s.x.__setitem__(ck, True), lambda s: s.x.__setitem__(ck, False)])
    return st.x[ck]


HSP = ['std::collections::HashSet::<T, S, A>::', 'std::collections::HashSet::<T, S>::', 'std::collections::HashSet::<T>::']
HMP = ['std::collections::HashMap::<K, V, S, A>::', 'std::collections::HashMap::<K, V, S>::', 'std::collections::HashMap::<K, V>::']
ENP = ["std::collections::hash_map::Entry::<'a, K, V>::", "std::collections::hash_map::Entry::<'a, K, V, A>::"]


def names(ps, *ns):
    return [p + n for p in ps for n in ns]


@pm(*names(HSP, 'insert'))
def set_insert(eng, st, c):
    s = cont(eng, st, c.args[0], 'set')
    v = eng.symval(st, ('inserted', s.key, len(st.events)), c.dty)
    st.events.append(('sinsert', s, c.args[1], v))
    return v


@pm('<std::collections::HashSet<T, S, A> as std::iter::Extend<T>>::extend', '<std::collections::HashSet<T, S> as std::iter::Extend<T>>::extend')
def set_extend(eng, st, c):
    s = cont(eng, st, c.args[0], 'set')
    v = st.res(c.args[1])
    if v.__class__ is It and v.kind == 'set' and v.state == 'start' and v.by == 'val':
        v = v.src
    st.events.append(('sextend', s, cont(eng, st, v, 'set')))
    return eng.unit()


@pm(*names(HSP + HMP, 'reserve', 'shrink_to_fit'))
def reserve(eng, st, c):
    return eng.unit()


@pm(*names(HSP + HMP, 'len', 'capacity'))
def length(eng, st, c):
    s = cont(eng, st, c.args[0])
    return eng.symval(st, ('len', s.key, len(st.events)), c.dty)


@pm(*names(HSP + HMP, 'new', 'with_capacity'), '<std::collections::HashMap<K, V, S> as std::default::Default>::default',
    '<std::collections::HashSet<T, S> as std::default::Default>::default')
def fresh(eng, st, c):
    return Sym(('empty', st.fresh('e')), c.dty)


@pm(*names(HSP + HMP, 'iter', 'into_iter', 'iter_mut', 'drain'), '<std::collections::HashMap<K, V, S, A> as std::iter::IntoIterator>::into_iter',
    '<std::collections::HashSet<T, S, A> as std::iter::IntoIterator>::into_iter', '<&std::collections::HashSet<T, S, A> as std::iter::IntoIterator>::into_iter',
    "<&'a std::collections::HashSet<T, S, A> as std::iter::IntoIterator>::into_iter", "<&'a std::collections::HashMap<K, V, S, A> as std::iter::IntoIterator>::into_iter",
    '<std::collections::HashMap<K, V, S> as std::iter::IntoIterator>::into_iter', '<std::collections::HashSet<T, S> as std::iter::IntoIterator>::into_iter')
def iterate(eng, st, c):
    s = cont(eng, st, c.args[0])
    by = 'val' if not (c.args[0].__class__ is Ref or eng.is_ref(getattr(st.res(c.args[0]), 'ty', None))) or short(c.callee['path']) == 'drain' else 'ref'
    return It(s, kind_of(eng, s), by)


@pm(*names(HMP, 'entry'))
def entry(eng, st, c):
    e = Entry(cont(eng, st, c.args[0], 'map'), keyterm(eng, st, c.args[1]))
    return Agg(c.dty, eng.variant(c.dty, 'Occupied' if has(st, e.m, e.k) else 'Vacant'), [e])


def slot(eng, st, m, k, ty):
    return Sym(('slot', m.key, k), ty)


@pm(*names(ENP, 'or_default', 'or_insert_with', 'or_insert'))
def or_default(eng, st, c):
    e = st.res(c.args[0])
    if e.__class__ is Agg:
        e = st.res(e.f[0])
    if e.__class__ is not Entry:
        raise Unsupported('entry %r' % (e,))
    if len(c.args) > 1:
        v = c.args[1]
        if short(c.callee['path']) == 'or_insert_with':
            v = st.res(v)
            if v.__class__ is FnV and v.callee['path'].endswith(('Default::default', '::new')):
                v = None
            else:
                r = eng.call_fnlike(st, v, [], eng.p.types[c.dty].get('to'), c.depth)
                if r is None or len(r) != 1 or r[0].kind != 'ret':
                    raise Unsupported('or_insert_with')
                st, v = r[0].st, r[0].val
        if v is not None and not all_empty(eng, st, v):
            if not has(st, e.m, e.k):
                put(eng, st, e.m, e.k, st.res(v))
    return [(st, slot(eng, st, e.m, e.k, c.dty))]


@pm(*names(["std::collections::hash_map::OccupiedEntry::<'a, K, V>::", "std::collections::hash_map::OccupiedEntry::<'a, K, V, A>::"], 'get', 'get_mut', 'into_mut'))
def occupied(eng, st, c):
    e = st.res(c.args[0])
    if e.__class__ is not Entry:
        e = st.res(eng.load(st, e))
    return slot(eng, st, e.m, e.k, c.dty)


@pm(*names(["std::collections::hash_map::VacantEntry::<'a, K, V>::", "std::collections::hash_map::VacantEntry::<'a, K, V, A>::"], 'insert'))
def vacant(eng, st, c):
    e = st.res(c.args[0])
    put(eng, st, e.m, e.k, st.res(c.args[1]))
    return slot(eng, st, e.m, e.k, c.dty)


@pm(*names(HSP, 'contains'))
def set_contains(eng, st, c):
    s = cont(eng, st, c.args[0], 'set')
    k = keyterm(eng, st, c.args[1])
    if any(e[0] in ('sinsert', 'sextend') and e[1].key == s.key for e in st.events):
        raise Unsupported('membership in a changed set')
    ck = ('in', s.key, k)
    if ck not in st.x:
        raise NeedFork([lambda t: t.x.__setitem__(ck, True), lambda t: t.x.__setitem__(ck, False)])
    return int(st.x[ck])


@pm(*names(HMP, 'get', 'get_mut'))
def get(eng, st, c):
    m = cont(eng, st, c.args[0], 'map')
    k = keyterm(eng, st, c.args[1])
    if not has(st, m, k):
        return eng.none(c.dty)
    return eng.some(c.dty, slot(eng, st, m, k, eng.p.types[c.dty]['v'][1]['f'][0][1]))


@pm(*names(HMP, 'contains_key'))
def contains_key(eng, st, c):
    return int(has(st, cont(eng, st, c.args[0], 'map'), keyterm(eng, st, c.args[1])))


def put(eng, st, m, k, v):
    st.mem[('*', ('slot', m.key, k))] = v
    st.x[('put', m.key, k)] = True


@pm(*names(HMP, 'insert'))
def map_insert(eng, st, c):
    m = cont(eng, st, c.args[0], 'map')
    put(eng, st, m, keyterm(eng, st, c.args[1]), st.res(c.args[2]))
    return eng.symval(st, ('previous', len(st.events)), c.dty)


def map_item(eng, st, src):
    """key and value type of the map"""
    ga = eng.p.types[src.ty]['ga']
    return Sym(('key', src.key), ga[0]), ga[1]


@pm('<std::collections::HashMap<K, V, S, A> as std::iter::Extend<(K, V)>>::extend', '<std::collections::HashMap<K, V, S> as std::iter::Extend<(K, V)>>::extend')
def map_extend(eng, st, c):
    m = cont(eng, st, c.args[0], 'map')
    o = st.res(c.args[1])
    o = o.src if o.__class__ is It and o.state == 'start' else cont(eng, st, o, 'map')
    st.x[('done', o.key)] = True
    if nonempty(st, o):
        k, vt = map_item(eng, st, o)
        kk = eng.term(st, k)
        put(eng, st, m, kk, st.mem.get(('*', ('slot', o.key, kk)), Sym(('*', ('slot', o.key, kk)), vt)))
    return eng.unit()


def nonempty(st, src):
    ck = ('nonempty', src.key)
    if ck not in st.x:
        raise NeedFork([lambda s: s.x.__setitem__(ck, True), lambda s: s.x.__setitem__(ck, False)])
    return st.x[ck]


@pm(*names(HSP + HMP, 'is_empty'))
def is_empty(eng, st, c):
    s = cont(eng, st, c.args[0])
    if st.events or any(isinstance(k, tuple) and k[0] == 'put' for k in st.x):
        # only meaningful for containers that nothing has been added to
        if any(e[0] in ('sinsert', 'sextend') and e[1].key == s.key for e in st.events):
            raise Unsupported('emptiness of a changed set')
    return int(not nonempty(st, s))


def iter_next(eng, st, c):
    r = st.res(c.args[0])
    it = st.res(eng.load(st, r))
    if it.__class__ is not It:
        return NotImplemented
    if it.state != 'start' or not nonempty(st, it.src):
        st.x[('done', it.src.key)] = True
        return eng.none(c.dty)
    eng.store(st, r, It(it.src, it.kind, it.by, 'mid'))
    ity = eng.p.types[c.dty]['v'][1]['f'][0][1]
    if it.kind == 'set':
        return eng.some(c.dty, Sym(('elem', it.src.key), ity))
    k, vt = map_item(eng, st, it.src)
    kk = eng.term(st, k)
    if it.by == 'val':
        v = st.mem.get(('*', ('slot', it.src.key, kk)), Sym(('*', ('slot', it.src.key, kk)), vt))
        return eng.some(c.dty, Agg(ity, 0, [k, v]))
    ft = eng.p.types[ity]['f']
    return eng.some(c.dty, Agg(ity, 0, [eng.box(st, k), Sym(('slot', it.src.key, kk), ft[1])]))


for n in ('std::iter::Iterator::next', '<std::collections::hash_map::IntoIter<K, V, A> as std::iter::Iterator>::next', '<std::collections::hash_set::IntoIter<K, A> as std::iter::Iterator>::next',
          '<std::collections::hash_map::IntoIter<K, V> as std::iter::Iterator>::next', '<std::collections::hash_set::IntoIter<K> as std::iter::Iterator>::next',
          "<std::collections::hash_map::Iter<'a, K, V> as std::iter::Iterator>::next", "<std::collections::hash_map::Drain<'a, K, V, A> as std::iter::Iterator>::next"):
    PM[n] = iter_next


def all_empty(eng, st, v):
    v = st.res(v)
    if v.__class__ is Sym and v.key[0] == 'empty':
        return not any(e[0] in ('sinsert', 'sextend') and e[1].key == v.key for e in st.events)
    if v.__class__ is Agg:
        return all(all_empty(eng, st, x) for x in v.f)
    return False


def nk(st, k):
    if isinstance(k, tuple):
        k = st.rep(k) if not (k and k[0] in ('slot',)) else k
        return tuple(nk(st, x) for x in k) if isinstance(k, tuple) else k
    return k


def foreign(st):
    """effects outside the domain"""
    for e in st.events:
        if e[0] not in ('sinsert', 'sextend', 'unchecked', 'yield'):
            return str(e[0])
    if st.imprecise:
        return str(sorted(st.imprecise)[:2])


# ---------------------------------------------------------------- what a map holds in the end
def leaves(eng, st, v, key, ty, other=None, okey=None, final=True):
    """yields (final container, original key, key of the other map at the same path) for every set reachable from a map"""
    v = st.res(v)
    t = eng.p.types[ty]
    if t['k'] == 'adt' and t['def'].endswith('HashSet'):
        yield ('set', v, key, okey)
        return
    if t['k'] == 'adt' and t['def'].endswith('HashMap'):
        yield ('map', v, key, okey)
        return
    if t['k'] == 'adt' and t['local'] and len(t['v']) == 1:
        for i, (_, ft) in enumerate(t['v'][0]['f']):
            fv = st.res(v.f[i]) if v.__class__ is Agg else Sym(('f', v.key, 0, i), ft)
            yield from leaves(eng, st, fv, ('f', key, 0, i), ft, other, ('f', okey, 0, i) if okey is not None else None)
        return
    raise Unsupported('field of type %s' % t['s'])


def map_roots(ctx, name, trait=None):
    return [r for r in ctx.p.roots if r['name'] == name and r['eff_pub'] and r['btrait'] == trait and r['bself'] and r['bself'].endswith('Map')
            and r['file'].startswith('src/pattern/')]


def self_ty(eng, inst):
    t = inst['body']['locals'][1]
    ty = eng.p.types[t]
    return ty['to'] if ty['k'] == 'ref' else t


def unchanged(eng, st, a):
    """the struct behind the reference still holds its original containers"""
    ty = self_ty_of[0]
    cell = ('*', a.key)
    todo = [(st.mem.get(cell), cell, ty)]
    for m in list(st.mem):
        if isinstance(m, tuple) and m[0] == '*' and isinstance(m[1], tuple) and m[1] and m[1][0] == 'slot':
            v = st.res(st.mem[m])
            t = getattr(v, 'ty', None)
            if t is not None:
                todo.append((v, m, t))
    for v, key, t in todo:
        if v is None:
            continue
        if key[1][0] == 'slot' and st.x.get(('has',) + key[1][1:]) is False:
            continue
        for kind, w, k, _ in leaves(eng, st, v, key, t):
            if w.__class__ is not Sym or w.key != k:
                return 'replaces a part of the map (%s)' % kstr(k)


self_ty_of = [None]


def check_default(ctx, eng, r):
    outs, args = run(ctx, eng, r)
    bad = und = None
    for o in outs:
        if o.kind != 'ret':
            und = '%s %s' % (o.kind, o.val)
        elif not all_empty(eng, o.st, o.val):
            if foreign(o.st):
                und = foreign(o.st)
            else:
                bad = 'a new map is not empty'
    ctx.ob('%s is empty' % r['nself'], BAD if bad else UND if und or not outs else OK, bad or und or '%d path(s)' % len(outs), ctx.where(r))


def root_of(k):
    while k[0] in ('slot', 'f', '*') and isinstance(k[1], tuple):
        k = k[1]
    return k


def subst(k, a, b):
    if k == a:
        return b
    if k[0] in ('slot', 'f', '*') and isinstance(k[1], tuple):
        return (k[0], subst(k[1], a, b)) + k[2:]
    return k


def placed(eng, s):
    """(cell, (container, path)) of the containers put into entries"""
    for y in [y for y in s.x if isinstance(y, tuple) and y[0] == 'put']:
        c = ('*', ('slot',) + y[1:])
        v = s.res(s.mem[c])
        for kind, w, path, _ in leaves(eng, s, v, c, v.ty):
            if w.__class__ is Sym:
                yield c, (w.key, path)


def insert_leaf(eng, s, o, value):
    """-> (leaf key, error, undecided)"""
    ins = [e for e in s.events if e[0] == 'sinsert']
    vk = eng.term(s, strip(eng, s, value))
    known = {k[1]: v for k, v in s.x.items() if isinstance(k, tuple) and k[0] == 'in' and k[2] == vk}
    if not ins and o.val in (0, 1):
        ks = [k for k, v in known.items() if v]
        if o.val == 0 and len(ks) == 1:
            return ks[0], None
    if len(ins) != 1 or any(e[0] == 'sextend' for e in s.events):
        return None, 'the value is inserted in %d sets' % len(ins)
    if not same(eng, s, ins[0][2], value):
        return None, 'the value inserted is %s' % show(eng, s, ins[0][2])
    if o.val != ins[0][3] and not (ins[0][1].key in known and isinstance(o.val, int) and bool(o.val) == (not known[ins[0][1].key])):
        return None, 'the answer is not that of the insertion'
    k = ins[0][1].key
    for _ in range(8):
        root = root_of(k)
        if root[0] != 'empty':
            break
        # a new container: where has it been put
        at = [(c, path) for c, path in placed(eng, s) if path[0] == root]
        if not at:
            return None, 'the value is inserted in a set outside the map'
        c, (_, path) = at[0]
        if s.x.get(('has',) + c[1][1:]) is not False and root_of(c)[0] != 'empty':
            return None, 'the entry may hold values already, which are lost'
        k = subst(k, root, path)
    return k, None


def slots_of(k):
    out = []
    while isinstance(k, tuple):
        if k[0] == 'slot':
            out.append(k[2])
            k = k[1]
        elif k[0] in ('f', '*'):
            k = k[1]
        else:
            break
    return out


def skel(k):
    if isinstance(k, tuple) and k:
        if k[0] == 'slot':
            return ('slot', skel(k[1]))
        if k[0] == 'f':
            return ('f', skel(k[1])) + k[2:]
        if k[0] == '*':
            return ('*', skel(k[1]))
    return k


def check_insert(ctx, eng, r):
    label = '%s::insert' % r['nself']
    inst = ctx.p.insts[r['root']]
    self_ty_of[0] = self_ty(eng, inst)
    outs, args = run(ctx, eng, r)
    bad, und = [], []
    shapes = {}
    n = 0
    for o in outs:
        if o.kind == 'panic':
            bad.append('panics: %s' % o.val)
            continue
        if o.kind != 'ret':
            und.append('%s %s' % (o.kind, o.val))
            continue
        if foreign(o.st):
            und.append(foreign(o.st))
            continue

        def judge(s):
            ps = pat.parts(eng, s, args[1])
            k, e = insert_leaf(eng, s, o, args[2])
            e = e or unchanged(eng, s, args[0])
            if e:
                return ps, e, None
            given = [eng.term(s, strip(eng, s, p[1])) for p in ps if p[0] == 'given']
            sl = [nk(s, x) for x in slots_of(k)]
            if sorted(map(repr, sl)) != sorted(repr(nk(s, g)) for g in given):
                return ps, 'the set does not depend on exactly the given components', None
            return ps, None, k
        try:
            for s, (ps, e, k) in refine(o.st, judge):
                n += 1
                sh = tuple(p[0] + (str(p[1]) if p[0] == 'same' else '') for p in ps)
                if e:
                    bad.append('for pattern %s: %s' % (pat.showp(eng, s, ps), e))
                    continue
                # order of the slots: which component selects at which place
                pos = tuple(slots_of(k))
                given = [eng.term(s, strip(eng, s, p[1])) for p in ps if p[0] == 'given']
                order = tuple(given.index(x) if x in given else -1 for x in pos)
                for sh2, sk in shapes.items():
                    if sh2 != sh and skel(k) in {a for a, b in sk}:
                        bad.append('patterns %s and %s share a set of values' % ('/'.join(sh), '/'.join(sh2)))
                shapes.setdefault(sh, set()).add((skel(k), order))
        except Unsupported as e:
            und.append(str(e))
    for sh, sk in shapes.items():
        if len(sk) > 1:
            bad.append('the values of pattern %s are kept in several sets' % '/'.join(sh))
    ctx.ob(label, BAD if bad else UND if und or not outs else OK, (bad or und or ['%d shapes of patterns on %d paths, one set each' % (len(shapes), n)])[0], ctx.where(r))
    return r


def build_patterns(eng, ty, comps, start, eq):
    """all the patterns of the type that match the triple with these components"""
    t = eng.p.types[ty]
    for vi, v in enumerate(t['v']):
        p = pat.variant_part(v['n'], [None] * 2)
        if p[0] == 'same' and not eq(start, p[1]):
            continue
        f = [ft for _, ft in v['f']]
        pre = []
        if p[0] == 'given':
            pre = [comps[start]]
            f = f[1:]
        if not f:
            yield Agg(ty, vi, pre), (p[0] + (str(p[1]) if p[0] == 'same' else ''),)
        else:
            for sub, d in build_patterns(eng, f[0], comps, start + 1, eq):
                yield Agg(ty, vi, pre + [sub]), (p[0] + (str(p[1]) if p[0] == 'same' else ''),) + d


def iters(eng, st, v, out):
    v = st.res(v)
    if v.__class__ is It:
        if v.kind != 'set' or v.state != 'start':
            raise Unsupported('iterator')
        out.append(v.src.key)
    elif v.__class__ is Agg:
        for x in v.f:
            iters(eng, st, x, out)
    elif v.__class__ is Sym:
        raise Unsupported('result %r' % v)
    return out


def check_get(ctx, eng, r, ins):
    label = '%s::get' % r['nself']
    bad, und = [], []
    iinst = ctx.p.insts[ins['root']]
    pty = iinst['body']['locals'][2]
    pre = pat.prefix(base(eng.p.types[pty]['s']))
    start = len(pre) if pre is not None else 0
    outs, args = run(ctx, eng, r)
    n = m = 0
    for o in outs:
        if o.kind == 'panic':
            bad.append('panics: %s' % o.val)
            continue
        if o.kind != 'ret':
            und.append('%s %s' % (o.kind, o.val))
            continue
        if foreign(o.st):
            und.append(foreign(o.st))
            continue
        if o.st.events:
            bad.append('the map is changed by a lookup')
            continue

        def judge(s):
            comps = [strip(eng, s, eng.project(s, s.res(args[1]), i)) for i in range(3)]
            got = sorted((nk(s, k) for k in iters(eng, s, o.val, [])), key=repr)
            want = []

            def eq(i, j):
                return lib.content_eq(eng, s, comps[i], comps[j])
            for p, d in list(build_patterns(eng, pty, comps, start, eq)):
                outs2, a2 = run(ctx, eng, ins, args=[args[0] if args[0].__class__ is Sym and False else Sym(args[0].key, iinst['body']['locals'][1]), p, Sym(('arg', 'value'), iinst['body']['locals'][3])], st=s.copy())
                ks = set()
                for o2 in outs2:
                    if o2.kind != 'ret':
                        raise Unsupported('insert: %s' % (o2.val,))
                    k, e = insert_leaf(eng, o2.st, o2, Sym(('arg', 'value'), None))
                    if e:
                        raise Unsupported('insert: ' + e)
                    ks.add(nk(s, k))
                if len(ks) != 1:
                    raise Unsupported('insert uses several sets')
                want.append((ks.pop(), d))
            absent = {('slot', nk(s, k[1]), nk(s, k[2])) for k, v in s.x.items() if isinstance(k, tuple) and k[0] == 'has' and not v}

            def gone(k):
                while isinstance(k, tuple):
                    if k[0] == 'slot' and k in absent:
                        return True
                    if k[0] not in ('slot', 'f', '*'):
                        return False
                    k = k[1]
                return False
            w = [(k, d) for k, d in want if not gone(k)]
            miss = [d for k, d in w if k not in got]
            if miss:
                return 'the values of the matching pattern %s are not returned' % '/'.join(miss[0])
            extra = [k for k in got if k not in {k2 for k2, _ in w}]
            if extra:
                return 'the values at %s are returned though their pattern does not match' % kstr(extra[0])
            if len(got) != len(set(got)):
                return 'the values of a pattern are returned twice'
            return None
        try:
            for s, e in refine(o.st, judge):
                n += 1
                if e:
                    eqs = [a for a in ()]
                    bad.append(e)
        except Unsupported as e:
            und.append(str(e))
    ctx.ob(label, BAD if bad else UND if und or not outs else OK, (bad or und or ['%d cases' % n])[0], ctx.where(r))


# ---------------------------------------------------------------- iterators over the values
def check_next(ctx, r, extra):
    """every iterator held by the value is drained, every item handed out is returned"""
    eng = ctx.engine(extra)
    base_pre = eng.pre_call
    local = {x['root'] for x in ctx.p.roots if x['name'] == 'next' and x['btrait'] == 'Iterator'}

    def inner(e, st, c):
        it = st.res(e.load(st, c.args[0]))
        if it.__class__ is not Sym:
            return None
        t = e.p.types.get(it.ty)
        if t is None or t['k'] not in ('adt', 'param'):
            return None
        if t['k'] == 'adt' and not t['local'] and 'hash_set::Iter' not in t['def']:
            return None
        k = st.x.get(('n', it.key), 0)
        if st.x.get(('y', it.key, k - 1)) is False:
            return [Outcome(st.copy(), 'ret', e.none(c.dty))]
        ck = ('y', it.key, k)
        if ck not in st.x:
            raise NeedFork([lambda s: s.x.__setitem__(ck, True), lambda s: s.x.__setitem__(ck, False)])
        s2 = st.copy()
        s2.x[('n', it.key)] = k + 1
        if not s2.x[ck]:
            return [Outcome(s2, 'ret', e.none(c.dty))]
        item = Sym(('item', it.key, k), e.p.types[c.dty]['v'][1]['f'][0][1])
        s2.events.append(('yield', item))
        return [Outcome(s2, 'ret', e.some(c.dty, item))]

    def pre(e, st, c, depth):
        if c.callee['path'] == 'std::iter::Iterator::next':
            x = inner(e, st, c)
            if x is not None:
                return x
        return base_pre(e, st, c, depth)
    eng.pre_call = pre
    outs, args = run(ctx, eng, r)
    bad, und = [], []
    inst = ctx.p.insts[r['root']]
    ty = self_ty(eng, inst)

    def held(s, v, out):
        """iterators reachable from the value; forks on absent ones"""
        v = s.res(v)
        t = eng.p.types.get(getattr(v, 'ty', None))
        if v.__class__ is Sym:
            if t['k'] == 'adt' and t['def'] == 'std::option::Option':
                eng.variant_of(s, v)
                return held(s, s.res(v), out)
            if t['k'] == 'adt' and (not t['local'] or t['def'] != eng.p.types[ty]['def']):
                if 'hash_set::Iter' in t['def'] or t['local']:
                    out.append(v.key)
                    return out
                raise Unsupported('field of type %s' % t['s'])
            v = eng.expand(s, v)
        if v.__class__ is Agg:
            for x in v.f:
                held(s, x, out)
            return out
        raise Unsupported('field %r' % (v,))
    n = 0
    for o in outs:
        if o.kind == 'panic':
            bad.append('panics: %s' % o.val)
            continue
        if o.kind != 'ret':
            und.append('%s %s' % (o.kind, o.val))
            continue
        if foreign(o.st):
            und.append(foreign(o.st))
            continue

        def judge(s):
            initial = held(s, Sym(('*', args[0].key), ty), [])
            final = held(s, eng.load(s, args[0]), [])
            val = opened(eng, s, o.val)
            nm, var, f = head(eng, val)
            ended = {k[1] for k, v in s.x.items() if isinstance(k, tuple) and k[0] == 'y' and v is False}
            ys = [e[1] for e in s.events if e[0] == 'yield']
            for k in initial:
                if k not in ended and k not in final:
                    return 'drops an iterator that is not exhausted'
            if len(final) != len(set(final)):
                return 'duplicates an iterator'
            if var == 'None':
                if ys:
                    return 'loses a value'
                for k in initial:
                    if k not in ended:
                        return 'stops while %s may have values left' % kstr(k)
                return None
            if len(ys) != 1:
                return 'takes %d values for one' % len(ys)
            if s.res(f[0]) != ys[0] and not same(eng, s, f[0], ys[0]):
                return 'returns something else than the value taken'
            return None
        try:
            for s, e in refine(o.st, judge):
                n += 1
                if e:
                    bad.append(e)
        except Unsupported as e:
            und.append(str(e))
    ctx.ob('%s::next drains every part' % r['nself'], BAD if bad else UND if und or not outs else OK, (bad or und or ['%d cases' % n])[0], ctx.where(r))


# ---------------------------------------------------------------- union
def carried(eng):
    """loop rule: an iteration leaves the live variables as it found them, so that one generic
    iteration stands for all"""
    def hook(e, st, fr, inst, body, bb, n, depth):
        live = e.p.live_at(body, bb)

        def snap():
            out = {}
            for i in live:
                v = st.mem.get((fr, i))
                if v is None:
                    continue
                v = st.res(v)
                out[i] = ('it', v.src.key) if v.__class__ is It else repr(e.term(st, v)) if v.__class__ is not Ref else repr(v)
            return out
        if n == 0:
            st.x[('snap', fr, bb)] = snap()
        elif snap() != st.x[('snap', fr, bb)]:
            raise Unsupported('the loop carries state')
    return hook


def check_union(ctx, r, extra):
    eng = ctx.engine(extra)
    eng.loop_hook = carried(eng)
    outs, args = run(ctx, eng, r)
    inst = ctx.p.insts[r['root']]
    ty = self_ty(eng, inst)
    label = '%s::%s' % (r['nself'], r['name'])
    bad, und = [], []
    ot = eng.p.types[args[1].ty]
    byref = ot['k'] == 'ref'
    n = 0
    for o in outs:
        if o.kind == 'panic':
            bad.append('panics: %s' % o.val)
            continue
        if o.kind != 'ret':
            und.append('%s %s' % (o.kind, o.val))
            continue
        if foreign(o.st):
            und.append(foreign(o.st))
            continue

        def content(s, key):
            """keys of the sets whose values the set with this key holds in the end"""
            out = {key}
            for e in s.events:
                if e[1].key != key:
                    continue
                if e[0] == 'sextend':
                    out |= content(s, e[2].key)
                else:
                    v = strip(eng, s, e[2])
                    if v.__class__ is Sym and v.key[0] == 'elem':
                        out.add(v.key[1])
                    elif v.__class__ is Sym and v.key[0] == '*' and v.key[1][0] == 'elem':
                        out.add(v.key[1][1])
                    else:
                        raise Unsupported('value %r' % v)
            return out

        def final_at(s, key, vt):
            v = s.mem.get(key if key in s.mem else None)
            return Sym(key, vt) if v is None else v

        def compare(s, v, key, okey, t, absent, where):
            nonlocal n
            for kind, w, k, ok in leaves(eng, s, v, key, t, None, okey):
                n += 1
                if w.__class__ is Sym and w.key[0] == 'empty' and kind == 'map':
                    return 'the entries of %s are lost' % where
                if w.__class__ is not Sym:
                    raise Unsupported('container %r' % (w,))
                if kind == 'set':
                    got = content(s, w.key)
                    want = {ok} | (set() if absent else {k})
                    if absent:
                        got = got - {k}
                    for x in list(want - got):
                        # an iterated set without values
                        if s.x.get(('nonempty', x)) is False:
                            want.discard(x)
                            got.discard(x)
                    if not want <= got:
                        return 'values of the %s map at %s are lost' % ('other' if ok not in got else 'first', kstr(k))
                    if not got <= want:
                        return 'values of %s end up at %s' % (kstr(sorted(got - want, key=repr)[0]), kstr(k))
                    for x in want:
                        if s.x.get(('nonempty', x)) and not s.x.get(('done', x)) and not any(e[0] == 'sextend' and e[2].key == x for e in s.events):
                            return 'the values of %s are not all taken' % kstr(x)
                else:
                    if w.key != k:
                        if w.key == ok and (absent or s.x.get(('nonempty', k)) is False):
                            continue
                        raise Unsupported('map moved')
                    ne = s.x.get(('nonempty', ok))
                    if ne is None:
                        return 'the entries of the other map at %s are not considered' % kstr(ok)
                    if not ne:
                        continue
                    if not s.x.get(('done', ok)):
                        return 'not all the entries of the other map at %s are considered' % kstr(ok)
                    kk = eng.term(s, Sym(('key', ok), None))
                    cell = ('*', ('slot', k, kk))
                    vt = eng.p.types[w.ty]['ga'][1]
                    gone = s.x.get(('has', k, kk)) is False
                    e = compare(s, s.mem.get(cell, Sym(cell, vt)), cell, ('*', ('slot', ok, kk)), vt, absent or gone, kstr(k))
                    if e:
                        return e
            return None

        def judge(s):
            key = ('*', args[0].key)
            okey = ('*', args[1].key) if byref else args[1].key
            v = s.mem.get(key, Sym(key, ty))
            return compare(s, s.res(v), key, okey, ty, False, 'the map')
        try:
            for s, e in refine(o.st, judge):
                if e:
                    bad.append(e)
        except Unsupported as e:
            und.append(str(e))
    ctx.ob(label, BAD if bad else UND if und or not outs else OK, (bad or und or ['%d paths, %d sets and entries' % (len(outs), n)])[0], ctx.where(r))
