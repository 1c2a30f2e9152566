"""Abstract transformers of the library functions the crate calls."""
from core import *

M = {}


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


# ------------------------------------------------ identity on content
@model('std::clone::Clone::clone', 'std::borrow::ToOwned::to_owned', 'std::str::<impl std::borrow::ToOwned for str>::to_owned',
       'std::clone::impls::<impl std::clone::Clone for usize>::clone')
def m_content(eng, st, c):
    return eng.load(st, c.args[0])


@model('std::intrinsics::integer_min', 'std::intrinsics::integer_max')
def m_intmin(eng, st, c):
    a, b = st.res(c.args[0]), st.res(c.args[1])
    lt = bool(st.decide_int('lt', a, b))
    return a if lt == c.callee['path'].endswith('min') else b


@model('std::clone::Clone::clone_from')
def m_clone_from(eng, st, c):
    eng.store(st, c.args[0], eng.load(st, c.args[1]))
    return eng.unit()


@model('std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut', 'std::borrow::Borrow::borrow', 'std::borrow::BorrowMut::borrow_mut',
       '<std::string::String as std::convert::AsRef<str>>::as_ref', 'core::str::<impl std::convert::AsRef<[u8]> for str>::as_ref',
       '<std::string::String as std::convert::AsRef<[u8]>>::as_ref', 'core::str::<impl str>::as_bytes', 'std::string::String::as_bytes',
       'std::string::String::as_str', 'iref::Iri::as_iri_ref', 'iref::IriBuf::as_iri', 'iref::IriRefBuf::as_iri_ref',
       'langtag::LangTagBuf::as_lang_tag',
       'std::vec::Vec::<T, A>::as_slice', 'core::str::<impl std::convert::AsRef<str> for str>::as_ref', 'std::string::String::as_mut_str')
def m_ref_identity(eng, st, c):
    return c.args[0]


# The equality of IRIs and language tags is not that of their text: the text of such
# an atom is a different atom.
def text_of(eng, st, v, tag):
    v = st.res(eng.load(st, v))
    if v.__class__ is Text:
        return v
    return Sym((tag, st.akey(v)))


@model('iref::IriRef::as_str', 'iref::Iri::as_str', 'iref::IriBuf::as_str', 'iref::IriRefBuf::as_str',
       '<iref::Iri as std::convert::AsRef<str>>::as_ref', '<iref::IriBuf as std::convert::AsRef<str>>::as_ref',
       '<iref::IriRef as std::convert::AsRef<str>>::as_ref',
       'iref::Iri::as_bytes', 'iref::IriRef::as_bytes')
def m_istr(eng, st, c):
    return eng.box(st, text_of(eng, st, c.args[0], 'istr'))


@model('langtag::LangTag::as_str', 'langtag::LangTagBuf::as_str', '<langtag::LangTag as std::convert::AsRef<str>>::as_ref',
       '<langtag::LangTagBuf as std::convert::AsRef<str>>::as_ref', 'langtag::LangTag::as_bytes')
def m_lstr(eng, st, c):
    return eng.box(st, text_of(eng, st, c.args[0], 'lstr'))


@model("std::string::<impl std::convert::From<&'a str> for std::borrow::Cow<'a, str>>::from",
       "std::string::<impl std::convert::From<&'a std::string::String> for std::borrow::Cow<'a, str>>::from")
def m_cow_b(eng, st, c):
    return eng.mk(c.dty, 'Borrowed', c.args[0])


@model("std::string::<impl std::convert::From<std::string::String> for std::borrow::Cow<'a, str>>::from")
def m_cow_o(eng, st, c):
    return eng.mk(c.dty, 'Owned', c.args[0])


@model("<std::string::String as std::convert::From<std::borrow::Cow<'a, str>>>::from")
def m_cow_s(eng, st, c):
    v = st.res(c.args[0])
    eng.variant_of(st, v)
    v = st.res(v)
    if eng.p.types[v.ty]['v'][v.var]['n'] == 'Borrowed':
        return eng.load(st, v.f[0])
    return v.f[0]


@model('std::string::String::into_boxed_str', 'std::convert::identity', 'std::hint::must_use', 'std::mem::ManuallyDrop::<T>::new',
       'std::hint::black_box', 'iref::IriBuf::into_string', 'std::boxed::Box::<T>::new')
def m_identity(eng, st, c):
    return c.args[0]


TEXT_FROM = ('std::string::String as std::convert::From<&str>', 'std::string::String as std::convert::From<char>')


@model('<std::string::String as std::convert::From<&str>>::from', '<std::string::String as std::convert::From<&mut str>>::from',
       "<str as std::string::ToString>::to_string", '<std::string::String as std::string::ToString>::to_string')
def m_string_from(eng, st, c):
    return eng.load(st, c.args[0])


@model('<str as std::string::SpecToString>::spec_to_string')
def m_ts(eng, st, c):
    return eng.load(st, c.args[0])


# ------------------------------------------------ comparisons
def values_eq(eng, st, a, b):
    a, b = st.res(a), st.res(b)
    for _ in range(6):
        if a.__class__ is Ref:
            a = eng.read(st, a.a, a.p)
        elif a.__class__ is Sym and eng.is_ref(a.ty):
            a = eng.load(st, a)
        if b.__class__ is Ref:
            b = eng.read(st, b.a, b.p)
        elif b.__class__ is Sym and eng.is_ref(b.ty):
            b = eng.load(st, b)
    if a.__class__ is Agg and b.__class__ is Agg:
        ea, eb = erase(eng, a), erase(eng, b)
        if ea is not a or eb is not b:
            return values_eq(eng, st, ea, eb)
        if a.var != b.var or len(a.f) != len(b.f):
            return False
        return all(values_eq(eng, st, x, y) for x, y in zip(a.f, b.f))
    if a.__class__ is Agg:
        e = erase(eng, a)
        if e is not a:
            return values_eq(eng, st, e, b)
    if b.__class__ is Agg:
        e = erase(eng, b)
        if e is not b:
            return values_eq(eng, st, a, e)
    if isinstance(a, int) or isinstance(b, int) or a.__class__ is Lin or b.__class__ is Lin:
        return st.decide_int('eq', a, b)
    if a.__class__ is Sym and is_int_ty(eng, a.ty):
        return st.decide_int('eq', a, b)
    if a.__class__ is Sym and b.__class__ is Agg:
        a, b = b, a
    if a.__class__ is Agg and b.__class__ is Sym:
        _, v = eng.variant_of(st, b)
        return values_eq(eng, st, a, st.res(b))
    return st.decide_atom_eq(st.akey(a), st.akey(b))


def is_int_ty(eng, t):
    return t is not None and eng.p.types[t]['k'] in ('int', 'uint', 'char', 'bool')


def erase(eng, a):
    if a.ty is None:
        return a
    d = eng.p.types[a.ty]
    if d['k'] == 'adt' and d['def'] in ERASED_ADTS and len(a.f) == 1:
        return a.f[0]
    return a


def values_cmp(eng, st, a, b):
    a, b = st.res(a), st.res(b)
    for _ in range(6):
        if a.__class__ is Ref or (a.__class__ is Sym and eng.is_ref(a.ty)):
            a = eng.load(st, a)
        if b.__class__ is Ref or (b.__class__ is Sym and eng.is_ref(b.ty)):
            b = eng.load(st, b)
    if a.__class__ is Agg and erase(eng, a) is not a:
        return values_cmp(eng, st, erase(eng, a), b)
    if b.__class__ is Agg and erase(eng, b) is not b:
        return values_cmp(eng, st, a, erase(eng, b))
    if a.__class__ is Agg or b.__class__ is Agg:
        raise Unsupported('cmp of aggregates')
    if isinstance(a, int) or isinstance(b, int) or a.__class__ is Lin or b.__class__ is Lin or (a.__class__ is Sym and is_int_ty(eng, a.ty)):
        return st.decide_int_cmp(a, b)
    return st.decide_atom_cmp(st.akey(a), st.akey(b))


EQS = ['std::cmp::PartialEq::eq']
CMPS = ['std::cmp::Ord::cmp']
PCMPS = ['std::cmp::PartialOrd::partial_cmp']


@model(*EQS)
def m_eq(eng, st, c):
    return int(values_eq(eng, st, c.args[0], c.args[1]))


@model('std::cmp::PartialEq::ne')
def m_ne(eng, st, c):
    return int(not values_eq(eng, st, c.args[0], c.args[1]))


@model(*CMPS)
def m_cmp(eng, st, c):
    return eng.ordering(c.dty, values_cmp(eng, st, c.args[0], c.args[1]))


@model(*PCMPS)
def m_pcmp(eng, st, c):
    t = eng.p.types[c.dty]['v'][1]['f'][0][1]
    r = values_cmp(eng, st, c.args[0], c.args[1])
    if st.x.get('partial_orders'):
        pass
    return eng.some(c.dty, eng.ordering(t, r))


# ------------------------------------------------ hashing (recorded as events)
def hv(eng, st, v):
    v = st.res(v)
    n = 0
    while (v.__class__ is Ref or (v.__class__ is Sym and eng.is_ref(v.ty))) and n < 8:
        v = st.res(eng.load(st, v))
        n += 1
    return v


@model('std::hash::Hash::hash')
def m_hash(eng, st, c):
    st.events.append(('hash', hv(eng, st, c.args[0])))
    return eng.unit()


@model('std::hash::Hasher::write_usize', 'std::hash::Hasher::write_u8', 'std::hash::Hasher::write_u64', 'std::hash::Hasher::write_isize', 'std::hash::Hasher::write_u32',
       'std::hash::Hasher::write', 'std::hash::Hasher::write_str')
def m_hashw(eng, st, c):
    st.events.append(('hash', hv(eng, st, c.args[1])))
    return eng.unit()


# ------------------------------------------------ panics
@model('std::rt::begin_panic', 'core::panicking::panic', 'core::panicking::panic_fmt', 'core::panicking::panic_display', 'std::rt::panic_fmt',
       'core::option::unwrap_failed', 'std::option::unwrap_failed', 'core::option::expect_failed', 'std::option::expect_failed', 'core::result::unwrap_failed', 'std::result::unwrap_failed',
       'core::panicking::unreachable_display', 'std::process::abort', 'core::panicking::panic_explicit', 'core::panicking::assert_failed')
def m_panic(eng, st, c):
    raise Panic(c.name)


# ------------------------------------------------ mem
@model('std::mem::replace')
def m_replace(eng, st, c):
    old = eng.load(st, c.args[0])
    eng.store(st, c.args[0], c.args[1])
    return old


@model('std::mem::swap')
def m_swap(eng, st, c):
    a, b = eng.load(st, c.args[0]), eng.load(st, c.args[1])
    eng.store(st, c.args[0], b)
    eng.store(st, c.args[1], a)
    return eng.unit()


@model('std::mem::take')
def m_take(eng, st, c):
    old = eng.load(st, c.args[0])
    v = default_value(eng, st, c.dty)
    if v is None:
        return NotImplemented
    eng.store(st, c.args[0], v)
    return old


def default_value(eng, st, t):
    ty = eng.p.types[t]
    if ty['k'] in ('int', 'uint', 'bool'):
        return 0
    if ty['k'] == 'adt' and ty['def'] == 'std::string::String':
        return Text([])
    if ty['k'] == 'adt' and ty['def'] == 'std::option::Option':
        return eng.none(t)
    return None


@model('std::mem::drop', 'std::mem::forget')
def m_drop(eng, st, c):
    return eng.unit()


@model('std::intrinsics::transmute', 'std::mem::transmute', 'core::intrinsics::transmute', 'std::mem::transmute_copy', 'std::intrinsics::transmute_unchecked')
def m_transmute(eng, st, c):
    return c.args[0]


@model('std::intrinsics::discriminant_value', 'core::intrinsics::discriminant_value')
def m_discr(eng, st, c):
    return eng.discr(st, eng.load(st, c.args[0]))


@model('std::mem::discriminant')
def m_mdiscr(eng, st, c):
    return Agg(c.dty, 0, [eng.discr(st, eng.load(st, c.args[0]))])


@model('std::intrinsics::unlikely', 'std::intrinsics::likely', 'core::intrinsics::likely', 'core::intrinsics::unlikely')
def m_id2(eng, st, c):
    return c.args[0]


@model('std::intrinsics::cold_path', 'core::intrinsics::cold_path')
def m_nop(eng, st, c):
    return eng.unit()


@model('std::intrinsics::three_way_compare', 'core::intrinsics::three_way_compare')
def m_twc(eng, st, c):
    return eng.ordering(c.dty, values_cmp(eng, st, c.args[0], c.args[1]))


@model('core::num::<impl usize>::checked_add', 'core::num::<impl u64>::checked_add', 'core::num::<impl u32>::checked_add')
def m_checked_add(eng, st, c):
    a, b = st.res(c.args[0]), st.res(c.args[1])
    # overflow happens exactly when the sum is not representable
    (sa, oa), (sb, ob) = st.lin(a), st.lin(b)
    if sa is None and sb is None:
        return eng.some(c.dty, a + b)
    if sb is None and ob >= 0 and st.try_int('le', a, (2 ** 32 if 'u32' in c.name else 2 ** 64) - 1 - ob) is True:
        return eng.some(c.dty, eng.linadd(st, a, b, 1))
    ov = Sym(('overflow', eng.term(st, a), eng.term(st, b)))
    if eng.truth(st, ov):
        return eng.none(c.dty)
    return eng.some(c.dty, eng.linadd(st, a, b, 1))


@model('core::num::<impl usize>::checked_sub')
def m_checked_sub(eng, st, c):
    a, b = c.args
    if st.decide_int('lt', a, b):
        return eng.none(c.dty)
    return eng.some(c.dty, eng.linadd(st, st.res(a), st.res(b), -1))


INTS = ('usize', 'u8', 'u16', 'u32', 'u64', 'u128', 'isize', 'i8', 'i16', 'i32', 'i64', 'i128')


@model(*['<%s as std::iter::Step>::%s' % (t, m) for t in INTS for m in ('forward_unchecked', 'backward_unchecked')])
def m_step(eng, st, c):
    return eng.linadd(st, st.res(c.args[0]), st.res(c.args[1]), 1 if 'forward' in c.name else -1)


@model('core::num::<impl usize>::wrapping_add', 'core::num::<impl usize>::saturating_add', 'core::num::<impl usize>::unchecked_add')
def m_wadd(eng, st, c):
    st.events.append((c.name, ()))
    b = st.res(c.args[1])
    if ('wrapping' in c.name or 'saturating' in c.name) and not (isinstance(b, int) and b >= 0 and st.try_int('le', c.args[0], 2 ** 64 - 1 - b) is True):
        ov = Sym(('overflow', eng.term(st, c.args[0]), eng.term(st, c.args[1])))
        if eng.truth(st, ov):
            return Sym(('overflowed', c.name, eng.term(st, c.args[0])))
    return eng.linadd(st, st.res(c.args[0]), st.res(c.args[1]), 1)


# ------------------------------------------------ iterators over an option, two at a time
class OptZip(Model):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def term(self, st):
        return ('optzip', self.a, self.b)


OPT_ITERS = ('std::option::Iter', 'std::option::IntoIter', 'std::option::Item', 'std::iter::Once', 'std::iter::sources::once::Once')


def opt_of(eng, st, v):
    """the option an iterator over an option still has to yield"""
    v = st.res(v)
    for _ in range(4):
        d = eng.p.types[v.ty].get('def') if v.__class__ is Agg and v.ty is not None else None
        if d == 'std::option::Option':
            return v
        if d not in OPT_ITERS or not v.f:
            return None
        v = st.res(v.f[0])
        if v.__class__ is Sym and v.ty is not None and eng.p.types[v.ty].get('def') == 'std::option::Option':
            eng.variant_of(st, v)
            v = st.res(v)
    return None


@model('std::iter::adapters::zip::ZipImpl::new')
def m_zip_new(eng, st, c):
    a, b = opt_of(eng, st, c.args[0]), opt_of(eng, st, c.args[1])
    if a is None or b is None:
        return NotImplemented
    return OptZip(a, b)


@model('std::iter::adapters::zip::ZipImpl::next')
def m_zip_next(eng, st, c):
    z = st.res(eng.load(st, c.args[0]))
    if z.__class__ is not OptZip:
        return NotImplemented
    ot = eng.p.types[c.dty]['v'][1]['f'][0][1]
    a, b = z.a, z.b
    none = lambda o: Agg(o.ty, 0, [])
    eng.store(st, c.args[0], OptZip(none(a), none(b) if a.var else b))
    if a.var == 0 or b.var == 0:
        return eng.none(c.dty)
    return eng.some(c.dty, Agg(ot, 0, [a.f[0], b.f[0]]))


# ------------------------------------------------ replace_with
@model('replace_with::replace_with_or_abort_and_return')
def m_rwr(eng, st, c):
    old = eng.load(st, c.args[0])
    outs = []
    # closure: FnOnce(T) -> (U, T)
    res = eng.call_fnlike(st, c.args[1], [old], None, 0)
    if res is None:
        raise Unsupported('replace_with closure')
    for o in res:
        if o.kind != 'ret':
            outs.append(Outcome(o.st, 'panic', 'abort') if o.kind == 'panic' else o)
            continue
        t = o.st.res(o.val)
        eng.store(o.st, c.args[0], t.f[1])
        outs.append(Outcome(o.st, 'ret', t.f[0]))
    return outs


@model('replace_with::replace_with_or_abort')
def m_rw(eng, st, c):
    old = eng.load(st, c.args[0])
    outs = []
    for o in eng.call_fnlike(st, c.args[1], [old], None, 0):
        if o.kind != 'ret':
            outs.append(o)
            continue
        eng.store(o.st, c.args[0], o.val)
        outs.append(Outcome(o.st, 'ret', eng.unit()))
    return outs


# ------------------------------------------------ printing to stderr has no effect on results
@model('std::io::_eprint', 'std::io::_print')
def m_print(eng, st, c):
    st.events.append(('print', ()))
    return eng.unit()


# ------------------------------------------------ interior mutability, defaults
class Cell(Model):
    """a RefCell around a value"""
    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return o.__class__ is Cell and self.v == o.v

    def __hash__(self):
        return hash(('cell', self.v))

    def term(self, st):
        return ('cell', repr(self.v))


@model('std::cell::RefCell::<T>::new')
def m_cell_new(eng, st, c):
    return Cell(c.args[0])


@model('std::cell::RefCell::<T>::into_inner')
def m_cell_into(eng, st, c):
    v = st.res(c.args[0])
    if v.__class__ is Cell:
        return v.v
    return st.mem.get(('cell', v.key), Sym(('cell', v.key), c.dty))


@model('std::cell::RefCell::<T>::borrow_mut', 'std::cell::RefCell::<T>::borrow')
def m_cell_borrow(eng, st, c):
    v = st.res(eng.load(st, c.args[0]))
    if v.__class__ is not Sym:
        return NotImplemented
    a = ('cell', v.key)
    if a not in st.mem:
        t = eng.p.types[v.ty]['ga'][0] if v.ty is not None else None
        st.mem[a] = Sym(('cell', v.key), t)
    return Ref(a)


@model("<std::cell::RefMut<'_, T> as std::ops::DerefMut>::deref_mut", "<std::cell::RefMut<'_, T> as std::ops::Deref>::deref", "<std::cell::Ref<'_, T> as std::ops::Deref>::deref")
def m_cell_deref(eng, st, c):
    return eng.load(st, c.args[0])


@model('<std::string::String as std::default::Default>::default')
def m_sdef(eng, st, c):
    return Text(())


@model('<usize as std::default::Default>::default', '<u64 as std::default::Default>::default', '<u32 as std::default::Default>::default', '<bool as std::default::Default>::default')
def m_zdef(eng, st, c):
    return 0


@model('core::bool::<impl bool>::then', 'core::bool::<impl bool>::then_some')
def m_then(eng, st, c):
    if not eng.truth(st, c.args[0]):
        return eng.none(c.dty)
    if c.callee['path'].endswith('then_some'):
        return eng.some(c.dty, c.args[1])
    r = eng.call_fnlike(st, c.args[1], [], eng.p.types[c.dty]['v'][1]['f'][0][1], c.depth)
    if r is None:
        return NotImplemented
    return [o if o.kind != 'ret' else Outcome(o.st, 'ret', eng.some(c.dty, o.val)) for o in r]


# ------------------------------------------------ arrays by value, slices of arrays
class ArrIter(Model):
    """iterator over the elements of an array whose length is known: the values left"""
    def __init__(self, vs):
        self.vs = tuple(vs)

    def __eq__(self, o):
        return o.__class__ is ArrIter and self.vs == o.vs

    def __hash__(self):
        return hash(('arriter', self.vs))

    def term(self, st):
        return ('arriter',) + tuple(repr(v) for v in self.vs)


@model('std::array::<impl std::iter::IntoIterator for [T; N]>::into_iter', 'core::array::<impl std::iter::IntoIterator for [T; N]>::into_iter',
       'std::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter', 'core::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter')
def m_arr_into(eng, st, c):
    v = st.res(c.args[0])
    if v.__class__ is not Agg:
        return NotImplemented
    return ArrIter(v.f)


def arr_refs(eng, st, r):
    """references to the elements of the array behind a reference"""
    r = st.res(r)
    if r.__class__ is Sym:
        r = eng.deref_sym(st, r)
    if r.__class__ is not Ref:
        return None
    v = st.res(eng.read(st, r.a, r.p))
    if v.__class__ is not Agg or (v.ty is not None and eng.p.types[v.ty]['k'] not in ('array', 'tuple')):
        return None
    return [Ref(r.a, r.p + (i,)) for i in range(len(v.f))]


@model('core::slice::<impl [T]>::iter', 'std::slice::<impl [T]>::iter', "core::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter",
       "std::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter", "std::array::<impl std::iter::IntoIterator for &'a [T; N]>::into_iter",
       "std::array::iter::<impl std::iter::IntoIterator for &'a [T; N]>::into_iter", 'core::slice::<impl [T]>::iter_mut', 'std::slice::<impl [T]>::iter_mut')
def m_slice_iter(eng, st, c):
    vs = arr_refs(eng, st, c.args[0])
    if vs is None:
        return NotImplemented
    return ArrIter(vs)


ARRI = ('<std::array::IntoIter<T, N> as std::iter::Iterator>::', "<std::slice::Iter<'a, T> as std::iter::Iterator>::", "<std::slice::IterMut<'a, T> as std::iter::Iterator>::")


@model(*[x + 'next' for x in ARRI])
def m_arr_next(eng, st, c):
    it = st.res(eng.load(st, c.args[0]))
    if it.__class__ is not ArrIter:
        return NotImplemented
    if not it.vs:
        return eng.none(c.dty)
    eng.store(st, c.args[0], ArrIter(it.vs[1:]))
    return eng.some(c.dty, it.vs[0])


def arr_each(eng, st, c, vs, f, acc, step):
    """the function on each element in turn; step(state, accumulator, result) -> (accumulator, stop)"""
    f = eng.box(st, f, 'eachf') if st.res(f).__class__ is not Ref else f
    outs, live = [], [(st, acc)]
    done = []
    for x in vs:
        nxt = []
        for s, a in live:
            r = eng.call_fnlike(s, f, step.args(a, x), step.ty, c.depth, 'std::ops::FnMut::call_mut')
            if r is None:
                raise Unsupported('call of %r' % (f,))
            for o in r:
                if o.kind != 'ret':
                    outs.append(o)
                    continue
                for s2, b, stop in step(eng, o.st, a, o.val):
                    (done if stop else nxt).append((s2, b))
        live = nxt
    return outs, done, live


class FoldStep:
    ty = None

    def args(self, a, x):
        return [a, x]

    def __call__(self, eng, st, a, r):
        return [(st, r, False)]


class EachStep(FoldStep):
    def args(self, a, x):
        return [x]

    def __call__(self, eng, st, a, r):
        return [(st, a, False)]


class TestStep(EachStep):
    def __init__(self, stop):
        self.stop = stop

    def __call__(self, eng, st, a, r):
        out = []
        work = [st]
        while work:
            s = work.pop()
            try:
                out.append((s, a, eng.truth(s, r) == self.stop))
            except NeedFork as nf:
                for opt in nf.options:
                    s2 = s.copy()
                    try:
                        opt(s2)
                    except Infeasible:
                        continue
                    work.append(s2)
            except Infeasible:
                pass
        return out


@model(*[x + y for x in ARRI for y in ('fold', 'for_each', 'all', 'any')])
def m_arr_fold(eng, st, c):
    what = c.callee.get('rpath', c.callee['path']).split('::')[-1]
    ref = what in ('all', 'any')
    it = st.res(eng.load(st, c.args[0])) if ref else st.res(c.args[0])
    if it.__class__ is not ArrIter:
        return NotImplemented
    if what == 'fold':
        outs, done, live = arr_each(eng, st, c, it.vs, c.args[2], c.args[1], FoldStep())
        return outs + [Outcome(s, 'ret', v) for s, v in live]
    if what == 'for_each':
        outs, done, live = arr_each(eng, st, c, it.vs, c.args[1], None, EachStep())
        return outs + [Outcome(s, 'ret', eng.unit()) for s, v in live]
    # the position of the iterator afterwards is not kept
    eng.store(st, c.args[0], Sym(st.fresh('usediter')))
    outs, done, live = arr_each(eng, st, c, it.vs, c.args[1], None, TestStep(what == 'any'))
    return outs + [Outcome(s, 'ret', int(what == 'any')) for s, _ in done] + [Outcome(s, 'ret', int(what == 'all')) for s, _ in live]
