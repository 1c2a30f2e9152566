"""Obligations over the dumped program: lookup of public functions, symbolic calls,
and oracles evaluated in the same abstract domain as the code."""
import os, re, collections, time
from core import *
import models

OK, BAD, UND = 'ok', 'violated', 'undecided'

FAMILY = {
    'TermRef': 'Term', 'CowTerm': 'Term',
    'LiteralRef': 'Literal', 'CowLiteral': 'Literal',
    'LiteralTypeRef': 'LiteralType', 'CowLiteralType': 'LiteralType',
    'LocalTermRef': 'LocalTerm', 'CowLocalTerm': 'LocalTerm',
    'IdRef': 'Id', 'CowId': 'Id',
}


def short(path):
    """last segment of a definition path"""
    return path.split('::')[-1]


def norm(s):
    """type/trait string without module paths and lifetimes"""
    if s is None:
        return None
    s = re.sub(r"\b(?:r#)?\w+::", '', s)
    s = re.sub(r"r#", '', s)
    s = re.sub(r"'\w+\s*(?=[,>])", "'", s)
    s = re.sub(r"<(?:'(?:, )?)+>", '', s)
    s = re.sub(r"<(?:', )+", '<', s)
    s = re.sub(r"&'\w+ ", '&', s)
    return s


def base(s):
    """outermost type name"""
    if s is None:
        return None
    m = re.match(r'(&mut |&)?([\w\[\]()]*)', norm(s))
    return (m.group(1) or '') + m.group(2)


class X:
    """expected aggregate"""
    __slots__ = ('name', 'var', 'f')

    def __init__(self, name, var, *f):
        self.name = name
        self.var = var
        self.f = f

    def __repr__(self):
        return '%s::%s(%s)' % (self.name, self.var, ', '.join(map(repr, self.f)))


def tup(*f):
    return X('()', '()', *f)


def some(v):
    return X('Option', 'Some', v)


NONE = X('Option', 'None')


def ok(v):
    return X('Result', 'Ok', v)


def err(v):
    return X('Result', 'Err', v)


class Ctx:
    def __init__(self, prog):
        self.p = prog
        self.obs = []
        self.reach = set()
        self.assumptions = []
        self.notes = []
        self.paths = 0
        idx = collections.defaultdict(list)
        for r in prog.roots:
            r['nself'] = norm(r.get('self'))
            r['bself'] = base(r.get('self'))
            r['ntrait'] = norm(r.get('traitref'))
            r['btrait'] = base(r.get('traitref'))
            idx[r['name']].append(r)
        self.idx = idx

    def engine(self, extra=None, max_steps=400000):
        m = dict(models.M)
        if extra:
            m.update(extra)
        e = Engine(self.p, m)
        e.max_steps = max_steps
        e.pre_call = opaque_calls
        e.fn_cover = self.reach
        return e

    # ---- obligations
    def ob(self, name, status, detail='', where=''):
        self.obs.append((name, status, detail, where))

    def floor(self, what, n, least):
        """reports when the analysis finds implausibly little to analyse"""
        self.ob('floor: %s' % what, OK if n >= least else UND, '%d found, at least %d expected' % (n, least))

    def section(self, name, fn, *a, **k):
        """an analysis failure leaves the obligations of the section undecided"""
        try:
            return fn(*a, **k)
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.ob('section ' + name, UND, '%s: %s at %s:%d' % (type(e).__name__, e, tb.filename.split('/')[-1], tb.lineno))

    def where(self, r):
        return '%s:%s' % (r['file'], r['path'])

    def find(self, bself=None, name=None, trait=None, ntrait=None, nself=None, pub=True, module=None):
        rs = self.idx.get(name, []) if name else self.p.roots
        out = []
        for r in rs:
            if bself is not None and r['bself'] != bself:
                continue
            if nself is not None and r['nself'] != nself:
                continue
            if trait is not None and r['btrait'] != (trait or None):
                continue
            if trait is None and ntrait is None and bself is not None and r['btrait'] is not None:
                continue
            if ntrait is not None and r['ntrait'] != ntrait:
                continue
            if pub and not r['eff_pub']:
                continue
            out.append(r)
        return out

    def need(self, *a, **k):
        rs = self.find(*a, **k)
        if not rs:
            self.ob('anchor ' + '/'.join(str(x) for x in list(a) + list(k.values())), UND, 'public function not found', '')
        return rs


def opaque_calls(eng, st, c, depth):
    p = c.callee['path']
    if p in ('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call'):
        f = st.res(c.args[0])
        n = 0
        while (f.__class__ is Ref or (f.__class__ is Sym and eng.is_ref(f.ty))) and n < 8:
            f = st.res(eng.load(st, f))
            n += 1
        if f.__class__ is FnV or f.__class__ is Agg:
            return None
        if f.__class__ is Sym and f.ty is not None and eng.p.types[f.ty]['k'] in ('fndef', 'closure'):
            return None
        s2 = st.copy()
        args = eng.untuple(s2, c.args[1])
        ts = tuple(eng.term(s2, a) for a in args)
        k = ('call', eng.term(s2, f)) + ts
        v = eng.symval(s2, k, c.dty)
        s2.events.append(('call', (eng.term(s2, f),) + ts, v))
        return [Outcome(s2, 'ret', v)]
    return None


def sym_args(eng, inst, prefix=''):
    b = inst['body']
    return [Sym(('arg', '%sa%d' % (prefix, i)), b['locals'][i]) for i in range(1, b['args'] + 1)]


def run(ctx, eng, r, args=None, st=None):
    """-> (outcomes, args); analysis failures appear as 'unsup' outcomes"""
    inst = ctx.p.insts.get(r['root'])
    st = st or State()
    if inst is None or 'body' not in inst:
        return [Outcome(st, 'unsup', 'no body')], []
    args = args if args is not None else sym_args(eng, inst)
    for a in args:
        if a.__class__ is Sym and a.ty is not None and eng.p.types[a.ty]['k'] == 'char':
            st.rng.setdefault(a.key, CHAR_ALL)
    eng.steps = 0
    try:
        outs = eng.run(st, r['root'], args)
    except (Unsupported, Budget, NeedFork, RecursionError, KeyError, AttributeError, TypeError, IndexError, ValueError) as e:
        if os.environ.get("VERIF_TB"):
            import traceback; traceback.print_exc()
        return [Outcome(st, 'unsup', '%s: %s' % (type(e).__name__, e))], args
    ctx.paths += len(outs)
    return outs, args


def refine(st, fn, limit=3000):
    """all refinements of st on which fn is decided -> list of (state, result)"""
    work = [st]
    out = []
    n = 0
    while work:
        s0 = work.pop()
        s = s0.copy()
        n += 1
        if n > limit:
            raise Unsupported('refinement limit')
        if not n & 63 and time.time() > DEADLINE:
            raise Budget('time budget')
        try:
            v = fn(s)
        except NeedFork as nf:
            for opt in reversed(nf.options):
                s2 = s0.copy()
                try:
                    opt(s2)
                except Infeasible:
                    continue
                work.append(s2)
            continue
        except Infeasible:
            continue
        out.append((s, v))
    return out


# ---------------------------------------------------------------- content
def fam(name):
    n = short(name)
    return FAMILY.get(n, n)


def strip(eng, st, v):
    """content of a value: references, smart pointers and text wrappers erased"""
    for _ in range(40):
        v = st.res(v)
        if v.__class__ is Ref:
            v = eng.read(st, v.a, v.p)
            continue
        if v.__class__ is Sym and v.ty is not None:
            t = eng.p.types[v.ty]
            if t['k'] in ('ref', 'ptr'):
                v = eng.load(st, v)
                continue
            if t['k'] == 'adt' and t['def'] in COW_ADTS:
                eng.variant_of(st, v)
                continue
            return v
        if v.__class__ is Agg and v.ty is not None:
            t = eng.p.types[v.ty]
            if t['k'] == 'adt' and (t['def'] in COW_ADTS or (t['def'] in ERASED_ADTS and len(v.f) == 1)):
                v = v.f[0]
                continue
        return v
    return v


def is_sym_adt(eng, v):
    if v.__class__ is not Sym or v.ty is None:
        return False
    t = eng.p.types[v.ty]
    if t['k'] == 'tuple' and t['f']:
        return True
    if t['k'] != 'adt' or t['def'] in TEXT_ADTS or t['def'] in ERASED_ADTS:
        return False
    return t['local'] or t['def'].startswith(OPEN_ADTS)


def head(eng, v):
    """(family name, variant name, fields)"""
    if v.__class__ is X:
        return v.name, v.var, v.f
    if v.ty is None:
        return '()', '()', v.f
    t = eng.p.types[v.ty]
    if t['k'] == 'adt':
        return fam(t['def']), fam(t['v'][v.var]['n']), v.f
    return '()', '()', v.f


def opened(eng, st, v):
    """materialise one level; forks on the variant"""
    v = strip(eng, st, v)
    if is_sym_adt(eng, v):
        eng.variant_of(st, v) if eng.p.types[v.ty]['k'] == 'adt' else eng.expand(st, v)
        v = st.res(v)
    return v


def same(eng, st, a, b):
    """are the contents of a and b entailed equal"""
    if a.__class__ is not X:
        a = strip(eng, st, a)
    if b.__class__ is not X:
        b = strip(eng, st, b)
    ca, cb = a.__class__ in (X, Agg), b.__class__ in (X, Agg)
    if ca and not cb and is_sym_adt(eng, b):
        b = opened(eng, st, b)
        cb = True
    if cb and not ca and is_sym_adt(eng, a):
        a = opened(eng, st, a)
        ca = True
    if ca and cb:
        (na, va, fa), (nb, vb, fb) = head(eng, a), head(eng, b)
        if (na, va, len(fa)) != (nb, vb, len(fb)):
            return False
        return all(same(eng, st, x, y) for x, y in zip(fa, fb))
    if ca or cb:
        return False
    if a.__class__ is Lin or b.__class__ is Lin or isinstance(a, int) or isinstance(b, int):
        return st.try_int('eq', a, b) is True
    if a.__class__ is FnV or a.__class__ is Bytes or isinstance(a, Model):
        return a == b
    ka = eng.term(st, a)
    kb = eng.term(st, b)
    if ka == kb:
        return True
    return ckey(ka) == ckey(kb)


def ckey(k):
    """canonical form of a term: family names"""
    if isinstance(k, tuple):
        return tuple(ckey(x) for x in k)
    if isinstance(k, str) and '::' in k and '(' not in k and '<' not in k:
        return fam(k)
    return k


def content_eq(eng, st, a, b):
    """decide whether the contents are equal; forks"""
    a, b = strip(eng, st, a), strip(eng, st, b)
    if is_sym_adt(eng, a):
        a = opened(eng, st, a)
    if is_sym_adt(eng, b):
        b = opened(eng, st, b)
    if a.__class__ is Agg and b.__class__ is Agg:
        (na, va, fa), (nb, vb, fb) = head(eng, a), head(eng, b)
        if va != vb and (na, va) != (nb, vb):
            if na != nb:
                raise Unsupported('content_eq of %s and %s' % (na, nb))
            return False
        for x, y in zip(fa, fb):
            if not content_eq(eng, st, x, y):
                return False
        return True
    return models.values_eq(eng, st, a, b)


def content_cmp(eng, st, a, b):
    """lexicographic order by declaration order of variants and fields"""
    a, b = strip(eng, st, a), strip(eng, st, b)
    if is_sym_adt(eng, a):
        a = opened(eng, st, a)
    if is_sym_adt(eng, b):
        b = opened(eng, st, b)
    if a.__class__ is Agg and b.__class__ is Agg:
        (na, va, fa), (nb, vb, fb) = head(eng, a), head(eng, b)
        if na != nb:
            raise Unsupported('content_cmp of %s and %s' % (na, nb))
        if va != vb:
            o = order_of(eng, na)
            return -1 if o.index(va) < o.index(vb) else 1
        for x, y in zip(fa, fb):
            c = content_cmp(eng, st, x, y)
            if c:
                return c
        return 0
    return models.values_cmp(eng, st, a, b)


_order = {}


def order_of(eng, name):
    """declaration order of the variants of the owned type of a family"""
    k = (id(eng.p), name)
    if k not in _order:
        for t in eng.p.types.values():
            if t['k'] == 'adt' and short(t['def']) == name and (t['local'] or t['def'].startswith(OPEN_ADTS)):
                _order[k] = [v['n'] for v in t['v']]
                break
    return _order[k]


# ---------------------------------------------------------------- specs
class Env:
    """what a specification may look at: the arguments before the call"""
    def __init__(self, eng, st, args, pre):
        self.eng, self.st, self.args, self.pre = eng, st, args, pre

    def a(self, i):
        """argument i at entry (behind a reference: its content at entry)"""
        v = self.pre[i]
        if v.__class__ is Sym and self.eng.is_ref(v.ty):
            return Sym(('*', v.key), self.eng.p.types[v.ty]['to'])
        return v

    def now(self, i):
        """content behind argument i at exit"""
        return self.eng.load(self.st, self.pre[i])

    def f(self, v, *path):
        for i in path:
            v = opened(self.eng, self.st, v)
            if v.__class__ is X or v.__class__ is Agg:
                v = v.f[i]
            else:
                v = self.eng.project(self.st, v, i)
        return v

    def case(self, v):
        v = opened(self.eng, self.st, v)
        n, var, f = head(self.eng, v)
        return var, list(f)

    def call(self, f, *xs):
        e, st = self.eng, self.st
        f = strip(e, st, f)
        k = (e.term(st, f),) + tuple(e.term(st, x) for x in xs)
        for ev in st.events:
            if ev[0] == 'call' and (ev[1] == k or ckey(ev[1]) == ckey(k)):
                return ev[2]
        return Sym(('call',) + k)


def snapshot(eng, args):
    """values of the arguments at entry (symbols are immutable; memory is copied by key)"""
    return list(args)


def check_fn(ctx, eng, r, expect, label=None, post=None, precise=True, panics=False, args=None, st=None, ret=True):
    """every returning trace must return content equal to expect(env)."""
    nm = label or '%s::%s' % (r['nself'] or '', r['name'])
    if r.get('ntrait'):
        nm += ' [%s]' % r['ntrait']
    outs, args = run(ctx, eng, r, args, st)
    return judge(ctx, eng, r, nm, outs, args, expect, post, panics)


def judge(ctx, eng, r, nm, outs, args, expect, post=None, panics=False):
    where = ctx.where(r)
    bad = None
    und = None
    n = 0
    if not outs:
        und = 'no outcome'
    for o in outs:
        if o.kind == 'unsup':
            und = o.val
            continue
        if o.kind == 'panic':
            if not panics and not o.st.imprecise:
                bad = 'panics: %s' % o.val
            continue
        try:
            for s, (good, msg) in refine(o.st, lambda s: verdict(eng, s, args, o, expect, post)):
                n += 1
                if not good and length_clash(s):
                    continue
                if not good:
                    if s.imprecise:
                        und = 'imprecise: ' + ', '.join(sorted(s.imprecise)[:3])
                    else:
                        bad = msg
        except Unsupported as e:
            und = 'oracle: %s' % e
    if bad:
        ctx.ob(nm, BAD, bad, where)
    elif und:
        ctx.ob(nm, UND, und, where)
    elif n == 0:
        ctx.ob(nm, UND, 'no returning trace', where)
    else:
        ctx.ob(nm, OK, '%d traces' % n, where)
    return not bad


def length_clash(s):
    """equal texts have equal lengths and start with each other; a text that starts with another of the same length is equal to it"""
    ks = {k for e in s.zone for k in e if isinstance(k, tuple) and k[:1] == ('tlen',)} | {k for m in (s.bind, s.uf) for k in m if k[:1] == ('tlen',)} | \
        {k for e in s.zneq for k in e if isinstance(k, tuple) and k[:1] == ('tlen',)} | {k for e in s.neq for k in e if k[:1] == ('tlen',)}
    ks = sorted(ks, key=repr)

    def rep(k):
        k = s.rep(k)
        return (k[0], rep(k[1])) if k[0] in ('istr', 'lstr') and isinstance(k[1], tuple) and s.rep(k[1]) != k[1] else k
    for i, a in enumerate(ks):
        ra = rep(a[1])
        if ra[0] == 's' and s.try_int('eq', Sym(a), len(ra[1].encode())) is False:
            return True
        for b in ks[:i]:
            if rep(b[1]) == ra and s.try_int('eq', Sym(a), Sym(b)) is False:
                return True
    for k, v in list(s.bind.items()) + [(k, s.res(Sym(k))) for k in s.uf if k[:1] == ('starts',)]:
        if k[:1] == ('starts',):
            a, b = rep(k[1]), rep(k[2])
            if v == 0 and a == b:
                return True
            if v == 1 and a != b and s.try_int('eq', Sym(('tlen', k[1])), Sym(('tlen', k[2]))) is True and \
                    (s.decided_neq(a, b) or a[0] == b[0] and a[0] in ('istr', 'lstr') and s.decided_neq(s.rep(a[1]), s.rep(b[1]))):
                return True
    return False


def verdict(eng, s, args, o, expect, post):
    env = Env(eng, s, args, args)
    if expect is not None:
        want = expect(env)
        if not same(eng, s, o.val, want):
            return False, 'returns %s, expected %s' % (show(eng, s, o.val), show(eng, s, want))
    if post is not None:
        m = post(env, s, o)
        if m:
            return False, m
    return True, ''


def show(eng, st, v, d=0):
    try:
        if v.__class__ is X:
            return '%s(%s)' % (v.var if v.name != '()' else '', ', '.join(show(eng, st, x, d + 1) for x in v.f))
        v = strip(eng, st.copy(), v)
        if v.__class__ is Agg:
            n, var, f = head(eng, v)
            if d > 6:
                return var + '(..)'
            return '%s(%s)' % (var if n != '()' else '', ', '.join(show(eng, st, x, d + 1) for x in f))
        return kstr(eng.term(st.copy(), v))[:160]
    except (NeedFork, Unsupported, Infeasible):
        return repr(v)[:160]


def lens(getter):
    """post-condition: the returned mutable reference designates exactly the part selected by getter(env, whole)"""
    def post(env, s, o):
        eng = env.eng
        before = opened(eng, s, env.now(0))
        part = getter(env, before)
        if not same(eng, s, o.val, part):
            return 'the returned reference does not show the expected part'
        # writing through it changes that part and nothing else
        probe = Sym(('probe', 1), getattr(part, 'ty', None))
        eng.store(s, o.val, probe)
        after = opened(eng, s, env.now(0))
        if not same(eng, s, getter(env, after), probe):
            return 'a write through the returned reference does not reach the expected part'
        fa, fb = before.f, after.f
        if sum(0 if same(eng, s, x, y) else 1 for x, y in zip(fa, fb)) != 1:
            return 'a write through the returned reference changes other parts'
    return post
