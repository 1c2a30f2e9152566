"""Serialisation: the data written by a Serialize implementation over an abstract serialiser, read back by the
Deserialize implementation of the same value over an abstract deserialiser holding that data.

Data: ('val', value)            a value handed to another Serialize implementation (its own round trip is assumed, by
                                structural induction: it is another obligation of the same check or a library type)
      ('struct', name, fields)  fields = [(key, data)]
      ('tuple', name, fields)
      ('variant', index, name, data)
      ('ident', name, index)    a field or variant name
"""
from core import *
from lib import *
import lib
import store
import text
from store import world, explore

BLANKBUF = 'blankid::BlankIdBuf'


class Des(Model):
    def __init__(self, doc, buffered=False):
        self.doc, self.buffered = doc, buffered

    def term(self, st):
        return ('des', repr(self.doc))


class Acc(Model):
    """access to the parts of the data during a visit"""
    def __init__(self, kind, items, pos=0):
        self.kind, self.items, self.pos = kind, items, pos

    def term(self, st):
        return ('acc', self.kind, self.pos)


class SerM(Model):
    """serialiser of a compound value"""
    def __init__(self, kind, name, size, items=()):
        self.kind, self.name, self.size, self.items = kind, name, size, items

    def term(self, st):
        return ('serialising', self.kind, len(self.items))


def fork(st, ck, *vals):
    if ck not in st.x:
        def setter(v):
            return lambda s: s.x.__setitem__(ck, v)
        raise NeedFork([setter(v) for v in vals])
    return st.x[ck]


def okv(eng, t, v):
    return eng.mk(t, 'Ok', v)


def errv(eng, st, t):
    f = eng.p.types[t]['v'][1]['f'][0][1]
    return eng.mk(t, 'Err', Sym(('error', st.fresh('er')), f))


def ok_ty(eng, t):
    return eng.p.types[t]['v'][0]['f'][0][1]


def fails(st):
    """does the call report an error; forks"""
    if st.x.get('noerr'):
        return False
    k = st.x.get('ncall', 0)
    st.x['ncall'] = k + 1
    f = fork(st, ('fails', k), False, True)
    if f:
        st.x['failed'] = True
    return f


XM = {}


def xm(*names):
    def d(f):
        for n in names:
            XM[n] = f
        return f
    return d


def text_lit(eng, st, v):
    v = strip(eng, st, v)
    if v.__class__ is Text:
        return v.lit()
    raise Unsupported('name %r' % (v,))


# ---------------------------------------------------------------- writing
def start(kind):
    def f(eng, st, c):
        if 'n0' not in st.x:
            st.x['n0'] = 1
        if fails(st):
            return errv(eng, st, c.dty)
        if kind in ('struct', 'tuple'):
            return okv(eng, c.dty, SerM(kind, text_lit(eng, st, c.args[1]), st.res(c.args[2])))
        return okv(eng, c.dty, SerM(kind, None, st.res(c.args[1])))
    return f


XM['serde::Serializer::serialize_struct'] = start('struct')
XM['serde::Serializer::serialize_tuple_struct'] = start('tuple')
XM['serde::Serializer::serialize_tuple'] = start('plain')
XM['serde::Serializer::serialize_seq'] = start('seq')


@xm('serde::ser::SerializeStruct::serialize_field', 'serde::ser::SerializeTupleStruct::serialize_field', 'serde::ser::SerializeTuple::serialize_element',
    'serde::ser::SerializeSeq::serialize_element')
def s_field(eng, st, c):
    r = c.args[0]
    m = st.res(eng.load(st, r))
    if m.__class__ is not SerM:
        raise Unsupported('serialiser %r' % (m,))
    if fails(st):
        return errv(eng, st, c.dty)
    v = strip(eng, st, c.args[-1])
    if m.kind == 'seq':
        st.events.append(('element', v))
        return okv(eng, c.dty, eng.unit())
    item = ((text_lit(eng, st, c.args[1]) if m.kind == 'struct' else None), ('val', v))
    eng.store(st, r, SerM(m.kind, m.name, m.size, m.items + (item,)))
    return okv(eng, c.dty, eng.unit())


@xm('serde::ser::SerializeStruct::end', 'serde::ser::SerializeTupleStruct::end', 'serde::ser::SerializeTuple::end', 'serde::ser::SerializeSeq::end')
def s_end(eng, st, c):
    m = st.res(c.args[0])
    if m.__class__ is not SerM:
        raise Unsupported('serialiser %r' % (m,))
    return written(eng, st, c, (m.kind, m.name, list(m.items)), m.size)


def written(eng, st, c, doc, size=None):
    if fails(st):
        return errv(eng, st, c.dty)
    v = Sym(('written', len(st.events)), ok_ty(eng, c.dty))
    st.events.append(('doc', doc, v, size))
    return okv(eng, c.dty, v)


@xm('serde::Serializer::serialize_newtype_variant')
def s_variant(eng, st, c):
    return written(eng, st, c, ('variant', st.res(c.args[2]), text_lit(eng, st, c.args[3]), ('val', strip(eng, st, c.args[4]))))


@xm('serde::Serializer::serialize_newtype_struct')
def s_newtype(eng, st, c):
    return written(eng, st, c, ('val', strip(eng, st, c.args[2])))


@xm('serde::Serializer::serialize_str')
def s_str(eng, st, c):
    return written(eng, st, c, ('val', strip(eng, st, c.args[1])))


@xm('serde::Serialize::serialize')
def s_other(eng, st, c):
    if c.callee.get('local') and 'id' in c.callee and 'body' in eng.p.insts.get(c.callee['id'], ()):
        return NotImplemented
    return written(eng, st, c, ('val', strip(eng, st, c.args[0])))


# ---------------------------------------------------------------- reading
NO_TEXT = ['visit_bool', 'visit_unit', 'visit_none', 'visit_f64', 'visit_f32'] + ['visit_%s%d' % (a, b) for a in 'iu' for b in (8, 16, 32, 64, 128)]


def visitor_fn(eng, v, name):
    t = eng.p.types.get(getattr(v, 'ty', None))
    if t is None or t['k'] != 'adt':
        raise Unsupported('visitor %r' % (v,))
    pre = '<' + t['def']
    for r in eng.p.roots:
        if r['name'] == name and r['path'].startswith(pre) and r['path'][len(pre):len(pre) + 1] in ('<', ' '):
            return r
    return None


def visit(eng, st, v, name, arg, c):
    """outcomes of a method of the visitor, or None when it has no such method"""
    chain = {'visit_borrowed_str': 'visit_str', 'visit_string': 'visit_str'}
    while name:
        r = visitor_fn(eng, v, name)
        if r is not None:
            if name == 'visit_str' and arg.__class__ is not Ref:
                arg = eng.box(st, arg)
            return eng.run(st, r['root'], [v, arg], c.depth + 1)
        if name == 'visit_string':
            arg = eng.box(st, arg)
        name = chain.get(name)
    return None


def value_kind(eng, st, v):
    v2 = v
    if v.__class__ is Sym and isinstance(v.key, tuple) and v.key[0] == 'f':
        w = st.bind.get(v.key[1])
        if w.__class__ is Agg and eng.p.types.get(w.ty, {}).get('def') == BLANKBUF:
            return 'BlankIdBuf'
    t = eng.p.types.get(getattr(v2, 'ty', None))
    if v.__class__ is Text:
        return 'String'
    if t is None:
        return 'String' if v.__class__ is Sym and v.key[0] in ('sub', 'trim') else None
    if t['k'] == 'adt':
        return short(t['def'])
    if t['k'] == 'str':
        return 'String'
    return t['k']


TEXTS = ('IriBuf', 'Iri', 'BlankIdBuf', 'BlankId', 'LangTagBuf', 'LangTag', 'String', 'IriRefBuf')


def deserialize(eng, st, c):
    """a call of Deserializer::deserialize_* with a visitor"""
    d = st.res(c.args[0])
    if d.__class__ is not Des:
        raise Unsupported('deserialiser %r' % (d,))
    v = st.res(c.args[-1])
    doc = d.doc
    k = doc[0]
    r = None
    if k == 'store':
        st.events = st.events + [('entry', c.callee['path'].split('deserialize_')[-1], visitor_fn(eng, v, 'visit_seq') is not None)]
        if fork(st, ('entry',), 'ok', 'err') == 'err':
            st.x['failed'] = 1
            return errv(eng, st, c.dty)
        return okv(eng, c.dty, Sym(('read',)))
    if k == 'ident':
        how = fork(st, ('ident', doc), 'visit_str', 'visit_u64')
        if how == 'visit_u64':
            if visitor_fn(eng, v, 'visit_u64') is None:
                raise Infeasible()
            r = visit(eng, st, v, 'visit_u64', doc[2], c)
        else:
            r = visit(eng, st, v, 'visit_str', eng.box(st, Text((doc[1],))), c)
    elif k == 'struct':
        how = fork(st, ('order',), 'in order', 'reversed', 'sequence')
        if how == 'sequence':
            if visitor_fn(eng, v, 'visit_seq') is None:
                raise Infeasible()
            r = visit(eng, st, v, 'visit_seq', Acc('seq', [x for _, x in doc[2]]), c)
        else:
            items = list(doc[2])
            keys = [(('ident', kk, i), x) for i, (kk, x) in enumerate(items)]
            if how == 'reversed':
                keys.reverse()
            r = visit(eng, st, v, 'visit_map', Acc('map', keys), c)
    elif k == 'other':
        own = [m for m in NO_TEXT if visitor_fn(eng, v, m) is not None]
        if own:
            how = fork(st, ('other',), *own)
            r = eng.run(st, visitor_fn(eng, v, how)['root'], [v] + ([] if how in ('visit_unit', 'visit_none') else [Sym(('data', how), None)]), c.depth + 1)
    elif k == 'tuple' or k == 'plain':
        r = visit(eng, st, v, 'visit_seq', Acc('seq', [x for _, x in doc[2]]), c)
    elif k == 'variant':
        r = visit(eng, st, v, 'visit_enum', Acc('enum', [('ident', doc[2], doc[1]), doc[3]]), c)
    elif k == 'val':
        x = doc[1]
        if value_kind(eng, st, x) in TEXTS:
            how = fork(st, ('text',), 'visit_string', 'visit_str', 'visit_borrowed_str')
            r = visit(eng, st, v, how, x if how == 'visit_string' else eng.box(st, x), c)
        else:
            raise Unsupported('data %r for a visitor' % (x,))
    else:
        raise Unsupported('data ' + k)
    if r is None:
        st.x['rejected'] = st.x.get('rejected', 0) + 1
        return errv(eng, st, c.dty)
    return r


for n in ('any', 'string', 'str', 'struct', 'tuple_struct', 'tuple', 'enum', 'identifier', 'seq', 'map', 'newtype_struct', 'ignored_any', 'bytes', 'byte_buf', 'option'):
    XM['serde::Deserializer::deserialize_' + n] = deserialize


def decode(eng, st, doc, t, c):
    """deserialise the data as a value of the type: list of (state, 'ok'/'err', value)"""
    ty = eng.p.types.get(t)
    if doc[0] == 'val':
        x = doc[1]
        if ty is not None and ty['k'] == 'adt' and not (ty['local'] and ty['def'] != BLANKBUF):
            a, b = value_kind(eng, st, x), short(ty['def'])
            fam_a = {'Iri': 'IriBuf', 'IriRef': 'IriRefBuf', 'LangTag': 'LangTagBuf', 'BlankId': 'BlankIdBuf', 'str': 'String'}.get(a, a)
            if fam_a == b or fam_a == 'param' or b not in TEXTS:
                return [(st, True, x)]
            if b == 'String' and fam_a in TEXTS:
                return [(st, True, x)]
            if fam_a in TEXTS and b in TEXTS and {fam_a, b} <= {'IriBuf', 'BlankIdBuf'}:
                return [(st, False, None)]      # "_:" starts no IRI
            raise Unsupported('%s read as %s' % (a, b))
        if ty is not None and ty['k'] == 'adt' and ty['local']:
            vk = value_kind(eng, st, x)
            if vk and fam(vk) == fam(short(ty['def'])):
                return [(st, True, x)]
            raise Unsupported('%s read as %s' % (vk, ty['s']))
        return [(st, True, x)]
    if ty is not None and ty['k'] == 'adt' and ty['local']:
        d = ty['def']
        for r in eng.p.roots:
            if r['name'] == 'deserialize' and r['btrait'] == 'Deserialize' and (r['path'].startswith('<' + d + ' as ') or (' for %s>::deserialize' % d) in r['path'] or r['path'].startswith('<' + d + '<')):
                outs = eng.run(st, r['root'], [Des(doc)], c.depth + 1)
                res = []
                for o in outs:
                    if o.kind != 'ret':
                        raise Unsupported('%s' % (o.val,))
                    res.append((o.st, None, o.val))
                return res
        raise Unsupported('no deserialisation of %s' % ty['s'])
    if ty is not None and ty['k'] == 'adt' and short(ty['def']) == 'IgnoredAny':
        return [(st, True, Sym(('ignored', st.fresh('i')), t))]
    return [(st, False, None)]


def results(eng, rs, dty, wrap):
    """Result values of a call from decoded values"""
    out = []
    for s, ok, v in rs:
        if ok is None:
            n, var, f = head(eng, opened(eng, s, v))
            ok, v = var == 'Ok', f[0]
        out.append(Outcome(s, 'ret', okv(eng, dty, wrap(s, v)) if ok else errv(eng, s, dty)))
    return out


@xm('serde::de::SeqAccess::next_element')
def next_element(eng, st, c):
    r = c.args[0]
    a = st.res(eng.load(st, r))
    if a.__class__ is not Acc:
        raise Unsupported('access %r' % (a,))
    if fails(st):
        return errv(eng, st, c.dty)
    ot = ok_ty(eng, c.dty)
    short_ = False if st.x.get('noerr') else fork(st, ('short', a.pos), False, True) if a.pos < len(a.items) else False
    if short_:
        st.x['failed'] = True
    if short_ or a.pos >= len(a.items):
        return okv(eng, c.dty, eng.none(ot))
    eng.store(st, r, Acc(a.kind, a.items, a.pos + 1))
    et = eng.p.types[ot]['v'][1]['f'][0][1]
    return results(eng, decode(eng, st, a.items[a.pos], et, c), c.dty, lambda s, v: eng.some(ot, v))


@xm('serde::de::MapAccess::next_key')
def next_key(eng, st, c):
    r = c.args[0]
    a = st.res(eng.load(st, r))
    if a.__class__ is not Acc:
        raise Unsupported('access %r' % (a,))
    if fails(st):
        return errv(eng, st, c.dty)
    ot = ok_ty(eng, c.dty)
    short_ = False if st.x.get('noerr') else fork(st, ('short', a.pos), False, True) if a.pos < len(a.items) else False
    if short_:
        st.x['failed'] = True
        return okv(eng, c.dty, eng.none(ot))
    if a.pos >= len(a.items):
        return okv(eng, c.dty, eng.none(ot))
    kt = eng.p.types[ot]['v'][1]['f'][0][1]
    old = st.x.get('noerr')
    st.x['noerr'] = True
    rs = decode(eng, st, a.items[a.pos][0], kt, c)
    for s, _, _ in rs:
        s.x['noerr'] = old
    return results(eng, rs, c.dty, lambda s, v: eng.some(ot, v))


@xm('serde::de::MapAccess::next_value')
def next_value(eng, st, c):
    r = c.args[0]
    a = st.res(eng.load(st, r))
    if a.__class__ is not Acc or a.pos >= len(a.items):
        raise Unsupported('access %r' % (a,))
    if fails(st):
        return errv(eng, st, c.dty)
    eng.store(st, r, Acc(a.kind, a.items, a.pos + 1))
    return results(eng, decode(eng, st, a.items[a.pos][1], ok_ty(eng, c.dty), c), c.dty, lambda s, v: v)


@xm('serde::de::EnumAccess::variant')
def variant(eng, st, c):
    a = st.res(c.args[0])
    if a.__class__ is not Acc:
        raise Unsupported('access %r' % (a,))
    if fails(st):
        return errv(eng, st, c.dty)
    tt = ok_ty(eng, c.dty)
    ft = eng.p.types[tt]['f'][0]
    return results(eng, decode(eng, st, a.items[0], ft, c), c.dty, lambda s, v: Agg(tt, 0, [v, Acc('variant', a.items, 1)]))


@xm('serde::de::VariantAccess::newtype_variant')
def newtype_variant(eng, st, c):
    a = st.res(c.args[0])
    if a.__class__ is not Acc:
        raise Unsupported('access %r' % (a,))
    if fails(st):
        return errv(eng, st, c.dty)
    return results(eng, decode(eng, st, a.items[1], ok_ty(eng, c.dty), c), c.dty, lambda s, v: v)


@xm('serde::Deserialize::deserialize')
def d_other(eng, st, c):
    if c.callee.get('local') and 'id' in c.callee and 'body' in eng.p.insts.get(c.callee['id'], ()):
        return NotImplemented
    d = st.res(c.args[0])
    if d.__class__ is not Des:
        raise Unsupported('deserialiser %r' % (d,))
    if d.doc[0] != 'val':
        return errv(eng, st, c.dty)
    return results(eng, decode(eng, st, d.doc, ok_ty(eng, c.dty), c), c.dty, lambda s, v: v)


def missing_field(eng, st, c):
    t = eng.p.types.get(ok_ty(eng, c.dty))
    if t and t['k'] == 'adt' and t['def'] == 'std::option::Option':
        return okv(eng, c.dty, eng.none(ok_ty(eng, c.dty)))
    if t and t['k'] != 'adt':
        raise Unsupported('missing field of type %s' % t['s'])
    return errv(eng, st, c.dty)


def blank_new(eng, st, c):
    """contract of the checked constructor (P08)"""
    v = strip(eng, st, c.args[0])
    k = value_kind(eng, st, v)
    if k in ('BlankIdBuf', 'BlankId'):
        good = True
    elif k in ('IriBuf', 'Iri'):
        good = False
    else:
        good = fork(st, ('valid', eng.term(st, v)), True, False)
    if good:
        return okv(eng, c.dty, v)
    et = eng.p.types[c.dty]['v'][1]['f'][0][1]
    return eng.mk(c.dty, 'Err', Agg(et, 0, [v]))


XM['blankid::BlankIdBuf::new'] = blank_new


@xm('blankid::BlankId::new')
def blank_ref_new(eng, st, c):
    v = strip(eng, st, c.args[0])
    k = value_kind(eng, st, v)
    good = True if k in ('BlankIdBuf', 'BlankId') else False if k in ('IriBuf', 'Iri') else fork(st, ('valid', eng.term(st, v)), True, False)
    if good:
        return okv(eng, c.dty, c.args[0])
    et = eng.p.types[c.dty]['v'][1]['f'][0][1]
    return eng.mk(c.dty, 'Err', Agg(et, 0, [c.args[0]]))


def altered(eng, st, c):
    """another text, in general"""
    v = strip(eng, st, c.args[0])
    return eng.box(st, Sym((short(c.callee['path']), eng.term(st, v)), getattr(v, 'ty', None)))


for n in ('trim', 'trim_start', 'trim_end'):
    XM['core::str::<impl str>::' + n] = altered


def pre_call(base):
    def pre(eng, st, c, depth):
        p = c.callee.get('rpath') or c.callee['path']
        if 'ContentRefDeserializer' in p and p.endswith('::new'):
            s = st.copy()
            v = s.res(eng.load(s, c.args[0]))
            return [Outcome(s, 'ret', v if v.__class__ is Des else Sym(('bad',), None))]
        if 'ContentVisitor' in p and p.endswith('::new'):
            return [Outcome(st.copy(), 'ret', Sym(('contentvisitor',), c.dty))]
        if 'ContentVisitor' in p and p.endswith('::deserialize'):
            s = st.copy()
            d = s.res(c.args[1])
            if not getattr(d, 'buffered', False) and fails(s):
                return [Outcome(s, 'ret', errv(eng, s, c.dty))]
            # the buffered data is buffered again without further failures
            return [Outcome(s, 'ret', okv(eng, c.dty, Des(d.doc, True) if d.__class__ is Des else d))]
        if c.callee['path'] == 'std::iter::Iterator::count' and getattr(eng, 'counts', False):
            s = st.copy()
            return [Outcome(s, 'ret', m_count(eng, s, c))]
        if p.startswith('serde::') and not c.callee.get('local') and p not in XM and c.callee['path'] not in XM and not p.startswith(('serde::de::Error::', 'serde::ser::Error::')) \
                and not (p.startswith('serde::__private') and p.endswith(('::missing_field', '::from_utf8_lossy'))):
            raise Unsupported('call of %s' % p)
        if p.startswith('serde::__private') and p.endswith('::missing_field'):
            s = st.copy()
            return [Outcome(s, 'ret', missing_field(eng, s, c))]
        return base(eng, st, c, depth)
    return pre


# ---------------------------------------------------------------- round trip
def engine(ctx):
    eng = ctx.engine(XM, 2000000)
    eng.pre_call = pre_call(eng.pre_call)
    eng.unroll = 8
    return eng


def result_of(eng, s, v):
    n, var, f = head(eng, opened(eng, s, v))
    return var == 'Ok', f[0]


def docs(ctx, eng, r):
    """-> [(state, value, doc)], violations, undecided"""
    outs, args = run(ctx, eng, r)
    good, bad, und = [], [], []
    for o in outs:
        if o.kind == 'panic':
            bad.append('panics: %s' % o.val)
            continue
        if o.kind != 'ret':
            und.append('%s %s' % (o.kind, o.val))
            continue
        if o.st.imprecise or o.st.x.get('wide'):
            und.append('imprecise: %s' % sorted(o.st.imprecise)[:2])
            continue
        try:
            for s, (ok, x) in refine(o.st, lambda s: result_of(eng, s, o.val)):
                ds = [e for e in s.events if e[0] == 'doc']
                if s.x.get('failed'):
                    if ok:
                        bad.append('reports success although the serialiser failed')
                    continue
                if not ok:
                    bad.append('fails although the serialiser accepted everything')
                elif len(ds) != 1:
                    bad.append('writes %d values' % len(ds))
                elif s.res(x) != ds[0][2]:
                    bad.append('returns something else than the answer of the serialiser')
                elif ds[0][3] is not None and ds[0][3] != len(ds[0][1][2]):
                    bad.append('announces %r parts and writes %d' % (ds[0][3], len(ds[0][1][2])))
                else:
                    good.append((s, args[0], ds[0][1]))
        except Unsupported as e:
            und.append(str(e))
    return good, bad, und


def check_roundtrip(ctx, eng, r, d, exact=True):
    """r: Serialize::serialize, d: Deserialize::deserialize of the owned representation"""
    label = '%s written and read back as %s' % (r['nself'], d['nself'])
    good, bad, und = docs(ctx, eng, r)
    n = 0
    for s0, v, doc in good:
        s1 = s0.copy()
        s1.events = []
        for k in [k for k in s1.x if k in ('failed', 'ncall') or isinstance(k, tuple) and k[0] == 'fails']:
            del s1.x[k]
        outs, _ = run(ctx, eng, d, args=[Des(doc)], st=s1)
        for o in outs:
            if o.kind == 'panic':
                bad.append('reading panics: %s' % o.val)
                continue
            if o.kind != 'ret':
                und.append('%s %s' % (o.kind, o.val))
                continue

            def judge(s):
                ok, x = result_of(eng, s, o.val)
                if s.x.get('failed'):
                    return 'incomplete or failing data is accepted' if ok else None
                if not ok:
                    return 'the data written is rejected'
                if not same(eng, s, x, v):
                    return 'reads back %s instead of %s' % (show(eng, s, x), show(eng, s, v))
                return None
            try:
                for s, m in refine(o.st, judge):
                    n += 1
                    if m and s.imprecise:
                        und.append('imprecise: %s' % sorted(s.imprecise)[:2])
                    elif m:
                        bad.append(m)
            except Unsupported as e:
                und.append(str(e))
    ctx.ob(label, BAD if bad else UND if und or not n else OK, (bad or und or ['%d readings of %d written forms' % (n, len(good))])[0], ctx.where(r))


def check_blank(ctx, eng, d):
    """the texts accepted are exactly the identifiers"""
    st = State()
    t = Sym(('arg', 'text'), None)
    for ty, x in ctx.p.types.items():
        if x['k'] == 'adt' and x['def'] == 'std::string::String':
            t = Sym(('arg', 'text'), ty)
            break
    outs, _ = run(ctx, eng, d, args=[Des(('val', t))], st=st)
    bad, und, n = [], [], 0
    for o in outs:
        if o.kind == 'panic':
            bad.append('panics: %s' % o.val)
            continue
        if o.kind != 'ret':
            und.append('%s %s' % (o.kind, o.val))
            continue

        def judge(s):
            ok, x = result_of(eng, s, o.val)
            valid = s.x.get(('valid', eng.term(s, t)))
            if s.imprecise:
                raise Unsupported('imprecise: %s' % sorted(s.imprecise)[:2])
            if valid is None and any(isinstance(k, tuple) and k[0] == 'valid' for k in s.x):
                raise Unsupported('another text is validated')
            if valid is None:
                return 'accepts a text without validating it' if ok else 'rejects a text without validating it'
            if ok != valid:
                return 'accepts an invalid identifier' if ok else 'rejects a valid identifier'
            if ok and not same(eng, s, x, t):
                return 'reads back %s instead of %s' % (show(eng, s, x), show(eng, s, t))
        try:
            for s, m in refine(o.st, judge):
                n += 1
                if m:
                    bad.append(m)
        except Unsupported as e:
            und.append(str(e))
    outs, _ = run(ctx, eng, d, args=[Des(('other',))], st=State())
    for o in outs:
        if o.kind != 'ret':
            und.append('data that is no text: %s %s' % (o.kind, o.val))
            continue
        try:
            for s, ok in refine(o.st, lambda s: result_of(eng, s, o.val)[0]):
                n += 1
                if ok:
                    bad.append('accepts data that is no text')
        except Unsupported as e:
            und.append(str(e))
    ctx.ob('%s read from any text' % d['nself'], BAD if bad else UND if und or not n else OK, (bad or und or ['%d readings' % n])[0], ctx.where(d))


# ---------------------------------------------------------------- stores
def m_count(eng, st, c):
    """an iterator over a whole store yields as many statements as there are"""
    its = []

    def walk(v, d=0):
        v = st.res(v)
        if v.__class__ is store.IterM:
            its.append(v)
        elif v.__class__ is Agg and d < 6:
            for x in v.f:
                walk(x, d + 1)
        elif v.__class__ is not Ref and not isinstance(v, int):
            its.append(v)
    walk(c.args[0])
    if len(its) == 1 and its[0].__class__ is store.IterM and its[0].src == ('tree', 'S', 'stm') and its[0].at == 'start':
        return store.len0(('S', 'stm'))
    raise Unsupported('count')


def check_entry(ctx, eng, d):
    """Deserialize::deserialize of a store asks for a sequence, which its visitor reads, and returns what that gives"""
    outs, _ = run(ctx, eng, d, args=[Des(('store',))])
    bad, und, n = [], [], 0
    for o in outs:
        if o.kind == 'panic' and not o.st.imprecise:
            bad.append('panics: %s' % o.val)
            continue
        if o.kind != 'ret' or o.st.imprecise:
            und.append('%s %s %s' % (o.kind, o.val, sorted(o.st.imprecise)[:2]))
            continue

        def judge(s):
            es = [e for e in s.events if e[0] == 'entry']
            ok, x = result_of(eng, s, o.val)
            if len(es) != 1:
                return 'reads the data %d times' % len(es)
            if es[0][1] not in ('seq', 'any') or not es[0][2]:
                return 'asks for data of kind `%s`%s, but stores are written as sequences' % (es[0][1], '' if es[0][2] else ' with a visitor that reads no sequence')
            if es[0][1] == 'any':
                raise Unsupported('left to the format')
            if ok != (not s.x.get('failed')):
                return 'reports success although reading failed' if ok else 'fails although reading succeeded'
            if ok and s.res(x) != Sym(('read',)):
                return 'returns something else than what was read'
        try:
            for s, m in refine(o.st, judge):
                n += 1
                if m:
                    bad.append(m)
        except Unsupported as e:
            und.append(str(e))
    ctx.ob('%s::deserialize' % d['nself'], BAD if bad else UND if und or not n else OK, (bad or und or ['%d readings' % n])[0], ctx.where(d))


def check_store(ctx, eng, r):
    """one element per stored statement, nothing else"""
    nm = '%s::serialize' % r['nself']
    found = []
    eng.loop_hook = store.compare_hook(found)
    try:
        outs, args = explore(ctx, eng, r)
    finally:
        eng.loop_hook = None
    bad, und, n = [], [], 0

    def lines(s):
        out, done = [], False
        w = world(s)
        for e in s.events:
            if e[0] == 'loop' and out:
                raise Unsupported('elements before the loop')
            if e[0] == 'pull':
                if e[1] != ('tree', 'S', 'stm'):
                    raise Unsupported('iteration over %r' % (e[1],))
                if e[2] is None:
                    done = True
                    continue
                out.append([w.ents[c].comps if c is not None else None for c in w.ents[e[2]].comps])
        return out, done

    def elements(s):
        return [e[1] for e in s.events if e[0] == 'element']

    def agree(s, got, exp):
        if len(got) != len(exp):
            return 'writes %d elements for %d statements' % (len(got), len(exp))
        for g, x in zip(got, exp):
            v = opened(eng, s, g)
            nme, var, f = head(eng, v)
            if nme not in ('Triple', 'Quad') or len(f) != len(x):
                return 'writes a %s' % nme
            for i, c in enumerate(x):
                y = strip(eng, s, f[i])
                if nme == 'Quad' and i == 3:
                    n3, v3, f3 = head(eng, opened(eng, s, y))
                    if (c is None) != (v3 == 'None'):
                        return 'writes another graph'
                    if c is None:
                        continue
                    y = f3[0]
                if eng.term(s, strip(eng, s, y)) != eng.term(s, strip(eng, s, c)):
                    return 'writes another component %d' % i
        return None

    def fin(s, o):
        exp, done = lines(s)
        got = elements(s)
        ok, x = result_of(eng, s, o.val)
        if s.x.get('failed'):
            return 'reports success although the serialiser failed' if ok else None
        if not ok:
            return 'fails although the serialiser accepted everything'
        if not done:
            return 'stops before the end of the store'
        ds = [e for e in s.events if e[0] == 'doc']
        if len(ds) != 1 or s.res(x) != ds[0][2]:
            return 'does not end the sequence'
        hn, hv, hf = head(eng, opened(eng, s, ds[0][3]))
        if hv == 'Some' and s.try_int('eq', hf[0], store.len0(('S', 'stm'))) is not True:
            return 'announces %s statements, which may not be their number' % show(eng, s, hf[0])
        return agree(s, got, exp)

    def back(s):
        exp, done = lines(s)
        if s.x.get('failed'):
            return 'goes on after a failure'
        return agree(s, elements(s), exp)
    for o in outs:
        if o.kind == 'unsup':
            und.append(str(o.val))
        elif o.kind == 'panic':
            (und if o.st.imprecise or o.st.x.get('wide') else bad).append('panics: %s' % o.val)
    for st, f in [(o.st, lambda s, o=o: fin(s, o)) for o in outs if o.kind == 'ret'] + [(st, back) for st in found]:
        try:
            for s, m in refine(st, f, 20000):
                n += 1
                if m and s.imprecise:
                    und.append('imprecise: %s' % sorted(s.imprecise)[:2])
                elif m:
                    bad.append(m)
        except Unsupported as e:
            und.append(str(e))
    if not found and not und:
        und.append('no loop')
    ctx.ob(nm, BAD if bad else UND if und or not n else OK, (bad or und or ['%d traces' % n])[0], ctx.where(r))
