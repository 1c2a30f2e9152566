"""Texts of unknown length: character iteration with character classes, a grammar automaton
followed in lockstep, formatters and format strings."""
import re
from core import *
import models, lib
from lib import refine
from models import M, model, values_eq

# ------------------------------------------------------------------ grammar of blank node labels (N-Triples)
BASE = [(0x41, 0x5A), (0x61, 0x7A), (0xC0, 0xD6), (0xD8, 0xF6), (0xF8, 0x2FF), (0x370, 0x37D), (0x37F, 0x1FFF), (0x200C, 0x200D), (0x2070, 0x218F),
        (0x2C00, 0x2FEF), (0x3001, 0xD7FF), (0xF900, 0xFDCF), (0xFDF0, 0xFFFD), (0x10000, 0xEFFFF)]
DIG = [(0x30, 0x39)]
PN_U = sorted(BASE + [(0x5F, 0x5F), (0x3A, 0x3A)])
PN = sorted(PN_U + [(0x2D, 0x2D), (0xB7, 0xB7), (0x300, 0x36F), (0x203F, 0x2040)] + DIG)
FIRST = sorted(PN_U + DIG)
DOT = [(0x2E, 0x2E)]
DEAD = 5
LASTS = [DOT, PN, rsub(rsub(CHAR_ALL, PN), DOT)]
TRANS = {0: [([(0x5F, 0x5F)], 1)], 1: [([(0x3A, 0x3A)], 2)], 2: [(FIRST, 3)], 3: [(DOT, 4), (PN, 3)], 4: [(DOT, 4), (PN, 3)], DEAD: []}
ACC = {3}
REACH = {0: {0, 1, 2, 3, 4, 5}, 1: {1, 2, 3, 4, 5}, 2: {2, 3, 4, 5}, 3: {3, 4, 5}, 4: {3, 4, 5}, 5: {5}}


def delta(st, q, c):
    for cls, t in TRANS[q]:
        if st.decide_in(c, cls):
            return t
    return DEAD


def delta_cls(q, cls):
    """targets for a character of the class"""
    out = set()
    rest = cls
    for k, t in TRANS[q]:
        if rint(rest, k):
            out.add(t)
        rest = rsub(rest, k)
    if rest:
        out.add(DEAD)
    return out


# ------------------------------------------------------------------ texts as sequences of parts
def parts_of(eng, st, v):
    v = st.res(v)
    n = 0
    while n < 10 and (v.__class__ is Ref or (v.__class__ is Sym and eng.is_ref(v.ty)) or (v.__class__ is Agg and v.ty is not None)):
        if v.__class__ is Agg:
            t = eng.p.types[v.ty]
            if t['k'] == 'adt' and (t['def'] in ERASED_ADTS or t['def'] in COW_ADTS or t['def'] == 'std::boxed::Box') and v.f:
                v = st.res(v.f[0])
            else:
                raise Unsupported('text of %r' % (v,))
        else:
            v = st.res(eng.load(st, v))
        n += 1
    if v.__class__ is Sym and v.ty is not None and eng.p.types[v.ty]['k'] == 'adt' and eng.p.types[v.ty]['def'] in ('blankid::BlankIdBuf',):
        v = Sym(v.key, v.ty)
    if v.__class__ is Text:
        return expand(st, v.parts)
    if v.__class__ is Sym:
        return (v,)
    if v.__class__ is Bytes:
        return (v.b.decode(),)
    if v.__class__ is Tail:
        return tail_parts(eng, st, v.it)
    raise Unsupported('text of %r' % (v,))


def expand(st, parts):
    """the parts, with the texts that were split replaced by their pieces"""
    parts = tuple(parts)
    while any(p.__class__ is Sym and st.bind.get(p.key).__class__ is Text for p in parts):
        parts = Text([st.bind[p.key] if p.__class__ is Sym and st.bind.get(p.key).__class__ is Text else p for p in parts]).parts
    return parts


def is_valid_id(eng, p, st=None):
    """a text received as a blank node identifier, or the content of one"""
    if p.__class__ is not Sym:
        return False
    if p.ty is not None and eng.p.types[p.ty]['k'] == 'adt' and eng.p.types[p.ty]['def'] in ('blankid::BlankId', 'blankid::BlankIdBuf'):
        return True
    k = p.key
    while st is not None and k[0] in ('f', '*'):
        if k[0] == 'f' and k[2:] == (0, 0):
            a = st.bind.get(k[1])
            if a.__class__ is Agg and a.ty is not None and eng.p.types[a.ty].get('def') in ('blankid::BlankId', 'blankid::BlankIdBuf'):
                return True
        return False
    return False


def splice(st, p):
    """the pieces of a text that was split, not merged with what surrounds it"""
    return expand(st, st.bind[p.key].parts)


def is_chr(p):
    """a single character as part of a text"""
    return p.__class__ is Sym and p.key[0] == 'chr'


def chr_val(st, p):
    return st.res(Sym(p.key[1]))


def chr_part(st, c):
    c = st.res(c)
    return chr(c) if isinstance(c, int) else Sym(('chr', c.key))


def tail_parts(eng, st, it):
    """the text after an iterator position as parts: the text iterated over is cut there"""
    parts, pi, pos = it.parts, it.pi, it.pos
    parts = parts[:pi] + expand(st, parts[pi:]) if not pos else parts
    if pi >= len(parts):
        return ()
    p = parts[pi]
    if not pos or isinstance(p, str) or is_chr(p):
        rest = (p[pos:],) if isinstance(p, str) else () if pos else (p,)
        return Text(list(rest) + list(parts[pi + 1:])).parts
    if st.bind.get(p.key).__class__ is Text:
        ps = list(expand(st, (p,)))
        while pos:
            if isinstance(ps[0], str):
                k = min(pos, len(ps[0]))
                ps[0] = ps[0][k:]
                pos -= k
                if not ps[0]:
                    ps.pop(0)
            elif is_chr(ps[0]):
                ps.pop(0)
                pos -= 1
            else:
                raise Unsupported('position in a split text')
        return Text(ps + list(parts[pi + 1:])).parts
    k = p.key
    q0 = id_start(eng, st, p)
    if q0 is not None:
        if pos == 2 and q0 == 0:
            r = id_tail(st, p)
            fr = st.x.get(('front', k), 0)
            if fr > 2 and ('front', r.key) not in st.x:
                move_chars(st, k, r.key, 2)
            return (r,) + tuple(parts[pi + 1:])
        raise Unsupported('part of an identifier')
    r = Sym(('sub', k, pos))
    move_chars(st, k, r.key, pos)
    tr = []
    for t in trk(st, k):
        if t[0] == 'ends' and t[3] is None and st.x.get(('front', k), 0) <= pos:
            last = st.x[('ch', k, pos - 1)]
            t = t[:3] + (st.decide_in(last, tcls(st, t[1])),)
        tr.append(t)
    st.x[('trk', r.key)] = tuple(tr)
    st.bind[k] = Text([chr_part(st, st.x[('ch', k, i)]) for i in range(pos)] + [r])
    return Text([r] + list(parts[pi + 1:])).parts


def move_chars(st, k, r, pos):
    n = st.x.get(('front', k), 0)
    for i in range(pos, n):
        st.x[('ch', r, i - pos)] = st.x[('ch', k, i)]
    if n > pos:
        st.x[('front', r)] = n - pos
    if st.x.get(('ended', k)):
        st.x[('ended', r)] = True
        st.x[('ch', r, n - pos)] = None
    if st.x.get(('looped', k)):
        st.x[('looped', r)] = True


class Chars(Model):
    """iterator over the characters of a text; position (part, offset)"""
    def __init__(self, parts, pi=0, pos=0):
        self.parts, self.pi, self.pos = parts, pi, pos

    def __eq__(self, o):
        return o.__class__ is Chars and (self.parts, self.pi, self.pos) == (o.parts, o.pi, o.pos)

    def __hash__(self):
        return hash((self.parts, self.pi, self.pos))

    def term(self, st):
        return ('chars', tuple(p if isinstance(p, str) else st.rep(p.key) for p in self.parts), self.pi, self.pos)

    def step(self, eng, st):
        """-> (char or None, next iterator); forks"""
        pi, pos, parts = self.pi, self.pos, self.parts
        while pi < len(parts):
            p = parts[pi]
            if isinstance(p, str):
                if pos < len(p):
                    return ord(p[pos]), Chars(parts, pi, pos + 1)
                pi, pos = pi + 1, 0
                continue
            if is_chr(p):
                if not pos:
                    return chr_val(st, p), Chars(parts, pi, 1)
                pi, pos = pi + 1, 0
                continue
            if st.bind.get(p.key).__class__ is Text:
                parts, pi, pos = parts[:pi] + tuple(x for x in splice(st, p)) + parts[pi + 1:], pi, pos
                while pos:
                    x = parts[pi]
                    n = len(x) if isinstance(x, str) else 1
                    if not isinstance(x, str) and not is_chr(x):
                        raise Unsupported('position in a split text')
                    if pos < n:
                        break
                    pos -= n
                    pi += 1
                continue
            c = char_at(eng, st, p, pos)
            if c is None:
                pi, pos = pi + 1, 0
                continue
            return c, Chars(parts, pi, pos + 1)
        return None, Chars(parts, pi, 0)


RADIX = {'d': DIG, 'o': [(48, 55)], 'b': [(48, 49)], 'x': DIG + [(97, 102)], 'X': [(48, 57), (65, 70)]}


def char_class(p):
    k = p.key
    if k[0] == 'dec':
        return DIG if len(k) == 2 else RADIX[k[2]]
    return CHAR_ALL


def id_start(eng, st, p):
    """the automaton state a text known to be (the end of) an identifier starts in"""
    if st.x.get(('idtail', p.key)):
        return 2
    return 0 if is_valid_id(eng, p, st) else None


def trk(st, k):
    """constraints on a text: ('ban', cls) no later character is in the class; ('need', cls, seen) some later one is;
    ('ends', cls, want, now) whether the last character is in the class, now is the answer if the text ended here"""
    return st.x.get(('trk', k), ())


def tcls(st, c):
    """the class of a constraint; a symbol stands for whatever that character can be"""
    if c and c[0] == 'sym':
        v = st.res(Sym(c[1]))
        return [(v, v)] if isinstance(v, int) else st.get_rng(v.key)
    return [tuple(x) for x in c]


def char_at(eng, st, p, pos):
    """character number pos of an atom, or None after its end; forks when unknown"""
    k = ('ch', p.key, pos)
    if k in st.x:
        return st.x[k]
    front = st.x.get(('front', p.key), 0)
    if pos != front:
        raise Unsupported('character behind the frontier')
    if st.x.get(('ended', p.key)):
        return None
    sym = Sym(k)
    q0 = id_start(eng, st, p)
    q = None if q0 is None else run_chars(st, p.key, q0)
    tr = trk(st, p.key)
    pend = [i for i, t in enumerate(tr) if t[0] == 'need' and not t[2]]

    def mk(bits):
        def more(s):
            if s.x.get(('maxlen', p.key), 1 << 60) <= pos:
                raise Infeasible()
            rg = list(char_class(p))
            if q is not None:
                rg = rint(rg, sorted(x for cls, _ in TRANS[q] for x in cls))
            nt = []
            for i, t in enumerate(tr):
                if t[0] == 'ban':
                    rg = rsub(rg, tcls(s, t[1]))
                elif t[0] == 'first' and pos == 0:
                    rg = rsub(rg, tcls(s, t[1]))
                elif t[0] == 'need' and i in pend:
                    b = bits[pend.index(i)]
                    rg = rint(rg, tcls(s, t[1])) if b else rsub(rg, tcls(s, t[1]))
                    t = (t[0], t[1], b)
                elif t[0] == 'ends':
                    t = t[:3] + (None,)
                nt.append(t)
            if not rg:
                raise Infeasible()
            s.x[k] = sym
            s.x[('front', p.key)] = pos + 1
            if tr:
                s.x[('trk', p.key)] = tuple(nt)
            s.rng[k] = rg
        return more

    def end(s):
        if p.key[0] == 'dec' and pos == 0:
            raise Infeasible()
        if q is not None and q not in ACC:
            raise Infeasible()
        s.x[k] = None
        s.x[('ended', p.key)] = True
        for t in tr:
            if t[0] == 'need' and not t[2]:
                raise Infeasible()
            if t[0] == 'ends':
                if t[3] is not None:
                    if t[3] != t[2]:
                        raise Infeasible()
                    continue
                last = s.res(s.x[('ch', p.key, pos - 1)])
                if t[1][0] == 'sym':
                    same_char(s, Sym(t[1][1]), last)
                    continue
                if isinstance(last, int):
                    if bool(rint([(last, last)], tcls(s, t[1]))) != t[2]:
                        raise Infeasible()
                    continue
                r = s.get_rng(last.key)
                r = rint(r, tcls(s, t[1])) if t[2] else rsub(r, tcls(s, t[1]))
                if not r:
                    raise Infeasible()
                s.set_rng(last.key, r)
    alts = [mk([bool(b >> i & 1) for i in range(len(pend))]) for b in range(1 << len(pend))]
    raise NeedFork(alts + [end])


def same_char(s, a, b):
    a, b = s.res(a), s.res(b)
    if a == b:
        return
    if isinstance(a, int):
        a, b = b, a
    if isinstance(a, int):
        raise Infeasible()
    if isinstance(b, int):
        r = rint(s.get_rng(a.key), [(b, b)])
        if not r:
            raise Infeasible()
        s.set_rng(a.key, r)
        return
    r = rint(s.get_rng(a.key), s.get_rng(b.key))
    if not r:
        raise Infeasible()
    s.set_rng(b.key, r)
    s.bind[s.rep(a.key)] = s.res(b)


def run_chars(st, k, q):
    """the automaton state after the characters met of a text, from state q; forks"""
    n = st.x.get(('front', k), 0)
    g = ('gh', k, q)
    i, q = st.x.get(g, (0, q))
    while i < n:
        q = delta(st, q, st.x[('ch', k, i)])
        i += 1
        st.x[g] = (i, q)
    return q


def partition(classes):
    out = [list(CHAR_ALL)]
    for c in classes:
        nxt = []
        for o in out:
            a, b = rint(o, c), rsub(o, c)
            nxt += [x for x in (a, b) if x]
        out = nxt
    return out


def later(st, p, q):
    """the automaton states possible at the end of a text that has not ended, from the state after the characters met"""
    k = p.key
    tr = trk(st, k)
    alpha = list(char_class(p))
    for t in tr:
        if t[0] == 'ban':
            alpha = rsub(alpha, tcls(st, t[1]))
    alpha = [rint(a, alpha) for a in partition([list(c) for q2 in TRANS for c, _ in TRANS[q2]] + [tcls(st, t[1]) for t in tr if t[0] != 'ban'])]
    alpha = [a for a in alpha if a]
    n = st.x.get(('front', k), 0)
    ini = []
    for t in tr:
        if t[0] == 'need':
            ini.append((t[2],))
        elif t[0] == 'ends':
            if t[3] is not None:
                ini.append((t[3],))
            else:
                c = st.res(st.x[('ch', k, n - 1)])
                rg = [(c, c)] if isinstance(c, int) else st.get_rng(c.key)
                ini.append(tuple(b for b, r in ((True, rint(rg, tcls(st, t[1]))), (False, rsub(rg, tcls(st, t[1])))) if r))
    live = [t for t in tr if t[0] in ('need', 'ends')]
    first = [list(c) for c in alpha]
    for t in tr:
        if t[0] == 'first' and not n:
            first = [rsub(a, tcls(st, t[1])) for a in first]
    first = [a for a in first if a]
    todo = [(q, ())]
    for o in ini:
        todo = [(q, b + (x,)) for q, b in todo for x in o]
    todo = [x + (n > 0,) for x in todo]
    seen = set(todo)
    out = set()
    while todo:
        q, bits, some = todo.pop()
        if (some or k[0] != 'dec') and all(b if t[0] == 'need' else b == t[2] for t, b in zip(live, bits)):
            out.add(q)
        for a in (alpha if some else first):
            nb = tuple(bool(rint(a, tcls(st, t[1]))) or (t[0] == 'need' and b) for t, b in zip(live, bits))
            for q2 in delta_cls(q, a):
                x = (q2, nb, True)
                if x not in seen:
                    seen.add(x)
                    todo.append(x)
    return out


def ends_state(eng, st, parts, start=0):
    """automaton states the whole text can be in, given what is known about it"""
    qs = {start}
    parts = expand(st, parts)
    for n, p in enumerate(parts):
        if isinstance(p, str):
            for ch in p:
                qs = {t for q in qs for t in delta_cls(q, [(ord(ch), ord(ch))])}
            continue
        k = p.key
        if is_valid_id(eng, p, st):
            if n == 0 and qs == {0}:
                qs = {3}
                continue
            raise Unsupported('identifier inside a text')
        if is_chr(p):
            qs = {delta(st, q, chr_val(st, p)) for q in sorted(qs)}
            continue
        if st.x.get(('idtail', k)) and qs == {2}:
            qs = {3}
            continue
        nxt = set()
        for q in sorted(qs):
            q = run_chars(st, k, q)
            nxt |= {q} if st.x.get(('ended', k)) else later(st, p, q)
        qs = nxt
    return qs


def ghost_state(eng, st, parts):
    """the automaton state after the characters met so far; forks so that it is unique"""
    q = 0
    parts = expand(st, parts)
    for i, p in enumerate(parts):
        if isinstance(p, str):
            for ch in p:
                q = delta(st, q, ord(ch))
            continue
        if is_chr(p):
            q = delta(st, q, chr_val(st, p))
            continue
        q = run_chars(st, p.key, q)
        if not st.x.get(('ended', p.key)):
            more = []
            for p2 in parts[i + 1:]:
                if not isinstance(p2, str) and st.x.get(('front', p2.key), 0):
                    # characters of a later piece are known: the state they lead to from every state
                    more.append((p2.key, bool(st.x.get(('ended', p2.key)))) + tuple(run_chars(st, p2.key, q2) for q2 in range(6)))
            return (q,) + tuple(more) if more else q
    return q


def grammar_hook(parts_fn):
    """stop exploring a loop when its state was met before with the same automaton state"""
    seen = {}

    def hook(eng, st, fr, inst, body, bb, n, depth):
        q = ghost_state(eng, st, parts_fn(st))
        if settled(eng, st, fr, inst, body, bb, depth, (q,), seen):
            return 'stop'
        if n:
            looped(st)
    return hook


def auto_hook():
    """the same for whatever text is being iterated over"""
    seen = {}

    def hook(eng, st, fr, inst, body, bb, n, depth):
        ps = {v.parts for v in st.mem.values() if v.__class__ is Chars}
        qs = []
        for ps_ in sorted(ps, key=repr):
            if ps_ and isinstance(ps_[0], str) and ps_[0].startswith('_:'):
                qs.append(ghost_state(eng, st, ps_))
                continue
            for p in expand(st, ps_):
                if not isinstance(p, str) and not is_chr(p) and st.x.get(('front', p.key), 0):
                    qs.append((p.key,) + tuple(run_chars(st, p.key, q) for q in range(6)))
        qs = tuple(qs)
        if settled(eng, st, fr, inst, body, bb, depth, qs, seen):
            return 'stop'
        if n:
            looped(st)
    return hook


def acceptance(eng, st, v):
    """subset of {True, False}: can the text be (in)valid"""
    qs = ends_state(eng, st, parts_of(eng, st, v))
    return {q in ACC for q in qs}


# ------------------------------------------------------------------ loops over texts
def settled(eng, st, fr, inst, body, bb, depth, ghost, seen):
    """was this state met before at the loop header. States that differ in counters only are met a few times with the exact
    counters, then once with counters of any greater (smaller) value: a cycle of states can be followed any number of times"""
    nums = []
    k = (inst['path'], depth) + canon(eng, st, fr, body, bb, ghost, nums)
    vals = tuple(repr(st.res(x[2])) for x in nums)
    met = seen.setdefault(k, [])
    if not nums:
        met.append(None)
        return len(met) > 1
    cur = [st.res(x[2]) for x in nums]
    syms = [lin_key(v.sym) if v.__class__ is Lin else v.key if v.__class__ is Sym else None for v in cur]
    if any(y is not None and y[0] == 'cnt' for y in syms):
        if 'cnt' in met:
            return True
        met.append('cnt')
        for (a, path, v, t), y in zip(nums, syms):
            if y is not None and y[0] == 'cnt':
                n = Sym(('cnt', st.n), t)
                st.n += 1
                put(st, a, path, n)
                st.assume_int('le', Sym(y, t), n)
        return False
    if None in met:
        return True
    vals = tuple(map(repr, cur))
    old = [m for m in met if m != 'cnt']
    if vals in [m[0] for m in old]:
        return True
    if len(old) < 3:
        met.append((vals, cur))
        return False
    met.append(None)
    if 'cnt' not in met:
        met.append('cnt')
    for (a, path, _, t), v, o in zip(nums, cur, old[-1][1]):
        if v == o:
            continue
        n = Sym(('cnt', st.n), t)
        st.n += 1
        rel = st.int_rel(v, o)
        put(st, a, path, n)
        if rel[0] is not None and rel[0] > 0:
            st.assume_int('le', v, n)
        elif rel[1] is not None and rel[1] < 0:
            st.assume_int('le', n, v)
    return False


def lin_key(x):
    return x.key if x.__class__ is Sym else x


def put(st, a, path, n):
    def go(v, path):
        if not path:
            return n
        v = st.res(v) if v.__class__ is Sym else v
        f = list(v.f)
        f[path[0]] = go(f[path[0]], path[1:])
        return Agg(v.ty, v.var, f)
    st.mem[a] = go(st.mem[a], path)


def canon(eng, st, fr, body, bb, ghost=(), nums=None):
    """canonical form of the state at a loop header, characters replaced by their classes"""
    names, order = {}, []

    def char(k):
        if k not in names:
            names[k] = len(names)
            return ('c', names[k], tuple(st.get_rng(k)))
        return ('c', names[k])

    addr = {}
    todo = []

    def counter(t):
        return t is not None and nums is not None and eng.p.types.get(t, {}).get('k') in ('uint', 'int')

    def fields(v):
        t = eng.p.types.get(v.ty) if v.ty is not None else None
        if t is None or nums is None:
            return [None] * len(v.f)
        fs = t['f'] if t['k'] == 'tuple' else [f[1] for f in t['v'][v.var]['f']] if t['k'] == 'adt' and t.get('v') else ()
        return list(fs) if len(fs) == len(v.f) else [None] * len(v.f)

    def val(v, d=0, t=None, at=None):
        if d > 60:
            raise Unsupported('canon depth')
        v = st.res(v) if v.__class__ is Sym else v
        if counter(t) and at is not None and (isinstance(v, int) or v.__class__ is Lin or (v.__class__ is Sym and st.get_rng(v.key) is None)):
            nums.append((at[0], at[1], v, t))
            return 'N'
        if v.__class__ is Sym:
            if st.get_rng(v.key) is not None:
                return char(st.rep(v.key))
            return ('S', st.rep(v.key))
        if v.__class__ is Agg:
            return ('A', v.ty, v.var) + tuple(val(x, d + 1, ft, None if at is None else (at[0], at[1] + (i,))) for i, (x, ft) in enumerate(zip(v.f, fields(v))))
        if v.__class__ is Ref:
            if v.a not in addr:
                addr[v.a] = len(addr)
                todo.append(v.a)
            return ('R', addr[v.a], tuple(p if not isinstance(p, tuple) else p for p in v.p))
        if v.__class__ is Chars:
            tail = []
            q = v
            if v.pi < len(v.parts) and not isinstance(v.parts[v.pi], str):
                k = v.parts[v.pi].key
                n = st.x.get(('front', k), 0)
                for i in range(v.pos, n):
                    tail.append(val(st.x[('ch', k, i)], d + 1))
                tail.append(bool(st.x.get(('ended', k))))
                off = 'front' if v.pos <= n else v.pos
            else:
                off = v.pos
            return ('I', tuple(p if isinstance(p, str) else p.key for p in v.parts), v.pi, off, tuple(tail))
        if v.__class__ is Lin or isinstance(v, int) or v.__class__ in (FnV, Text, Bytes):
            return repr(v)
        if v.__class__ is tuple:
            return v
        return repr(v)

    live = eng.p.live_at(body, bb)
    cells = []
    for a in sorted((a for a in st.mem if isinstance(a[0], tuple) and a[0][0] == 'fr' and len(a) == 2), key=repr):
        if a[0] == fr and a[1] not in live:
            continue
        if a[0] != fr and a[0] in eng.sites:
            b2, t2 = eng.sites[a[0]]
            if a[1] not in (eng.p.live_at(b2, t2) if t2 >= 0 else ()):
                continue
        lb = body if a[0] == fr else eng.sites[a[0]][0] if a[0] in eng.sites else None
        lt = lb['locals'][a[1]] if lb is not None and isinstance(a[1], int) and a[1] < len(lb['locals']) else None
        cells.append((a, val(st.mem[a], 0, lt, (a, ()))))
    out = []
    while todo:
        a = todo.pop()
        if a in st.mem:
            out.append((addr[a], val(st.mem[a], 0, None, (a, ()))))
    last = []
    for k in list(st.x):
        if k[0] == 'front':
            n = st.x[k]
            c = st.res(st.x[('ch', k[1], n - 1)]) if n else None
            if c.__class__ is Sym and st.rep(c.key) not in names and min([v[1] for g, v in st.x.items() if g[0] == 'gh' and g[1] == k[1]] or [0]) >= 3:
                # nothing refers to the character any more: only its class can matter
                for cls in LASTS:
                    rg = st.get_rng(c.key)
                    if any(t[0] == 'ends' and rint(cls, tcls(st, t[1])) and rsub(cls, tcls(st, t[1])) for t in trk(st, k[1])):
                        continue
                    if rg and not rsub(rg, cls):
                        st.rng[st.rep(c.key)] = list(cls)
                        break
            if st.x.get(('ended', k[1])) and c is not None and not (c.__class__ is Sym and st.rep(c.key) in names):
                # only the kind of the last character can matter from here on
                rg = [(c, c)] if isinstance(c, int) else st.get_rng(c.key)
                j = [m for m, cls in enumerate(LASTS) if not rsub(rg, cls)]
                if j:
                    st.x[('lastlost', k[1])] = True
                    last.append((k[1], 'ended', j[0]))
                    continue
            last.append((k[1], bool(n), val(st.x[('ch', k[1], n - 1)]) if n else None, tuple(t[:1] + ((val(Sym(t[1][1])) if t[1] and t[1][0] == 'sym' else t[1]),) + t[2:] for t in trk(st, k[1]))))
    binds = tuple(sorted((repr(k), v.var) for k, v in st.bind.items() if v.__class__ is Agg))
    cons = tuple(sorted(repr(x) for x in st.neq | st.lt if 'ch' not in repr(x)))
    return (bb, tuple(cells), tuple(sorted(out, key=repr)), tuple(sorted(last, key=repr)), binds, cons, ghost)


def looped(st):
    for k in [k for k in st.x if k[0] == 'front']:
        if st.x[k] > 0:
            st.x[('looped', k[1])] = True


# ------------------------------------------------------------------ transformers of str / char functions
@model('core::str::<impl str>::chars')
def m_chars(eng, st, c):
    v = st.res(eng.load(st, c.args[0]))
    if v.__class__ is Tail:
        return v.it
    ps = parts_of(eng, st, c.args[0])
    for p in ps:
        fresh(st, p)
    return Chars(ps)


def fresh(st, p):
    if not isinstance(p, str) and p.__class__ is not Sym:
        raise Unsupported('text part %r' % (p,))
    if not isinstance(p, str) and st.x.get(('looped', p.key)):
        raise Unsupported('second iteration over a text')


@model("<std::str::Chars<'a> as std::iter::Iterator>::next")
def m_chars_next(eng, st, c):
    it = st.res(eng.load(st, c.args[0]))
    if it.__class__ is not Chars:
        return NotImplemented
    ch, nx = it.step(eng, st)
    eng.store(st, c.args[0], nx)
    st.events.append(('in', ch, it.parts, it.pi))
    if ch is None:
        return eng.none(c.dty)
    return eng.some(c.dty, ch)


@model("<std::str::Chars<'a> as std::clone::Clone>::clone")
def m_chars_clone(eng, st, c):
    return eng.load(st, c.args[0])


@model("std::str::Chars::<'a>::as_str")
def m_chars_as_str(eng, st, c):
    it = st.res(eng.load(st, c.args[0]))
    return eng.box(st, sub_text(eng, st, it))


def sub_text(eng, st, it):
    ps = list(it.parts[it.pi:])
    if ps and it.pos:
        p = ps[0]
        ps[0] = p[it.pos:] if isinstance(p, str) else Sym(('sub', p.key, it.pos))
        if not isinstance(p, str):
            # what is known of the remainder carries over
            if st.x.get(('front', p.key), 0) > it.pos or st.x.get(('ended', p.key)):
                raise Unsupported('look-ahead text')
    if len(ps) == 1 and not isinstance(ps[0], str):
        return ps[0]
    return Text(ps)


CLASSES = {
    'is_ascii_digit': DIG, 'is_ascii_alphabetic': [(0x41, 0x5A), (0x61, 0x7A)], 'is_ascii_uppercase': [(0x41, 0x5A)], 'is_ascii_lowercase': [(0x61, 0x7A)],
    'is_ascii_alphanumeric': [(0x30, 0x39), (0x41, 0x5A), (0x61, 0x7A)], 'is_ascii': [(0, 0x7F)], 'is_ascii_hexdigit': [(0x30, 0x39), (0x41, 0x46), (0x61, 0x66)],
    'is_ascii_control': [(0, 0x1F), (0x7F, 0x7F)], 'is_ascii_whitespace': [(9, 10), (12, 13), (32, 32)], 'is_control': [(0, 0x1F), (0x7F, 0x9F)],
    'is_ascii_punctuation': [(0x21, 0x2F), (0x3A, 0x40), (0x5B, 0x60), (0x7B, 0x7E)], 'is_ascii_graphic': [(0x21, 0x7E)],
}
CLASSES['is_whitespace'] = [(9, 13), (0x20, 0x20), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A), (0x2028, 0x2029), (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000)]
for _n, _c in CLASSES.items():
    def _f(eng, st, c, cls=_c):
        v = st.res(c.args[0])
        if v.__class__ is Ref or (v.__class__ is Sym and eng.is_ref(v.ty)):
            v = eng.load(st, v)
        return int(st.decide_in(v, cls))
    M['core::char::methods::<impl char>::' + _n] = M['std::char::methods::<impl char>::' + _n] = _f
    M['core::num::<impl u8>::' + _n] = _f


def general_categories():
    """code points by general category, as ranges; a table of constants"""
    global _gc
    if _gc is None:
        import unicodedata
        _gc = {}
        lo, last = 0, unicodedata.category(chr(0))
        for i in range(1, 0x110000):
            k = unicodedata.category(chr(i))
            if k != last:
                _gc.setdefault(last, []).append((lo, i - 1))
                lo, last = i, k
        _gc.setdefault(last, []).append((lo, 0x10FFFF))
    return _gc


_gc = None
# (categories with the property, categories of which some code points may have it); code points not assigned in the table may have any
PROPS = {
    'is_alphabetic': (('Lu', 'Ll', 'Lt', 'Lm', 'Lo', 'Nl'), ('Mn', 'Mc', 'Me', 'So')),
    'is_numeric': (('Nd', 'Nl', 'No'), ()),
    'is_alphanumeric': (('Lu', 'Ll', 'Lt', 'Lm', 'Lo', 'Nd', 'Nl', 'No'), ('Mn', 'Mc', 'Me', 'So')),
    'is_uppercase': (('Lu',), ('Nl', 'So')),
    'is_lowercase': (('Ll',), ('Lm', 'Lo', 'Nl', 'So', 'Mn')),
}


def _prop(name):
    def f(eng, st, c):
        v = st.res(c.args[0])
        if v.__class__ is Ref or (v.__class__ is Sym and eng.is_ref(v.ty)):
            v = st.res(eng.load(st, v))
        g = general_categories()
        yes, maybe = PROPS[name]
        if st.decide_in(v, sorted(x for k in yes for x in g[k])):
            return 1
        if st.decide_in(v, sorted(x for k in g if k not in yes + maybe + ('Cn',) for x in g[k])):
            return 0
        return NotImplemented
    return f


for _n in PROPS:
    M['core::char::methods::<impl char>::' + _n] = M['std::char::methods::<impl char>::' + _n] = _prop(_n)


def m_len_utf(widths):
    def f(eng, st, c):
        v = st.res(c.args[0])
        for lo, hi, n in widths:
            if st.decide_in(v, [(lo, hi)]):
                return n
        return widths[-1][2]
    return f


for _p in ('core', 'std'):
    M[_p + '::char::methods::<impl char>::len_utf8'] = m_len_utf([(0, 0x7F, 1), (0x80, 0x7FF, 2), (0x800, 0xFFFF, 3), (0x10000, 0x10FFFF, 4)])
    M[_p + '::char::methods::<impl char>::len_utf16'] = m_len_utf([(0, 0xFFFF, 1), (0x10000, 0x10FFFF, 2)])


@model('core::char::methods::<impl char>::is_digit', 'std::char::methods::<impl char>::is_digit')
def m_is_digit(eng, st, c):
    n = st.res(c.args[1])
    if not isinstance(n, int) or not 2 <= n <= 36:
        return NotImplemented
    cls = [(48, 47 + min(n, 10))] + ([(65, 54 + n), (97, 86 + n)] if n > 10 else [])
    return int(st.decide_in(st.res(c.args[0]), cls))


@model('<std::string::String as std::iter::FromIterator<char>>::from_iter')
def m_string_from_chars(eng, st, c):
    it = st.res(c.args[0])
    if it.__class__ is not Chars:
        return NotImplemented
    ps = tail_parts(eng, st, it)
    return ps[0] if len(ps) == 1 and ps[0].__class__ is Sym and not is_chr(ps[0]) else Text(ps)


@model('<char as std::convert::Into<u32>>::into', 'std::char::convert::<impl std::convert::From<char> for u32>::from', 'core::char::convert::<impl std::convert::From<char> for u32>::from')
def m_char_u32(eng, st, c):
    return c.args[0]


@model('<T as std::convert::Into<U>>::into')
def m_into(eng, st, c):
    a = st.res(c.args[0])
    if (a.__class__ is Sym and st.get_rng(a.key) is not None) or isinstance(a, int):
        return c.args[0]
    return NotImplemented


def const_text(eng, st, v):
    ps = parts_of(eng, st, v)
    if all(isinstance(p, str) for p in ps):
        return ''.join(ps)
    return None


def drop_prefix(eng, st, parts, lit):
    """-> remaining parts or None; forks on the characters"""
    it = Chars(parts)
    for ch in lit:
        c, it = it.step(eng, st)
        if c is None or not st.decide_in(c, [(ord(ch), ord(ch))]):
            return None
    return it


@model('core::str::<impl str>::strip_prefix')
def m_strip(eng, st, c):
    it = text_iter(eng, st, c.args[0])
    ps = it.parts[it.pi:] if not it.pos else ()
    cls = pat_class(eng, st, c.args[1])
    if len(ps) == 1 and not isinstance(ps[0], str) and is_valid_id(eng, ps[0], st) and cls is None and pat_text(eng, st, c.args[1]) == '_:':
        return eng.some(c.dty, eng.box(st, id_tail(st, ps[0])))
    it = drop_classes(eng, st, it, [cls] if cls is not None else [[(ord(x), ord(x))] for x in pat_text(eng, st, c.args[1])])
    if it is None:
        return eng.none(c.dty)
    return eng.some(c.dty, eng.box(st, tail_value(eng, st, it)))


def id_tail(st, p):
    """what follows the first two characters of an identifier"""
    k = ('sub', p.key, 2)
    st.x[('idtail', k)] = True
    return Sym(k)


def drop_classes(eng, st, it, classes):
    for cls in classes:
        c, it = it.step(eng, st)
        if c is None or not st.decide_in(c, cls):
            return None
    return it


def pat_class(eng, st, v):
    """the set of characters a pattern looks for, None for a text of several characters"""
    v = st.res(v)
    for _ in range(4):
        if v.__class__ is Ref or (v.__class__ is Sym and eng.is_ref(v.ty)):
            v = st.res(eng.load(st, v))
    if isinstance(v, int):
        return [(v, v)]
    if v.__class__ is Agg and v.ty is not None and eng.p.types[v.ty]['k'] in ('array', 'slice'):
        out = [st.res(x) for x in v.f]
        if not all(isinstance(x, int) for x in out):
            raise Unsupported('pattern')
        return norm_cls([(x, x) for x in out])
    if v.__class__ is Sym and st.get_rng(v.key) is not None:
        raise Unsupported('pattern')
    if v.__class__ is Agg or v.__class__ is FnV or (v.__class__ is Sym and v.ty is not None and eng.p.types[v.ty]['k'] in ('fndef', 'closure')):
        return pred_class(eng, st, v)
    t = const_text(eng, st, v)
    if t is not None and len(t) == 1:
        return [(ord(t), ord(t))]
    return None


def pred_class(eng, st, f):
    """the characters a closure without effects answers true for"""
    k = ('predchar', st.n)
    yes, no = [], []
    base = st.copy()
    base.x['nofail'] = base.x.get('nofail', 0)
    arg = Sym(k)
    base.rng[k] = list(CHAR_ALL)
    hook, eng.loop_hook = eng.loop_hook, None
    try:
        for s, outs in refine(base, lambda s: eng.call_fnlike(s.copy(), f, [arg], None, 1, 'std::ops::FnMut::call_mut')):
            if outs is None:
                raise Unsupported('predicate')
            for o in outs:
                if o.kind != 'ret' or o.st.imprecise - st.imprecise or len(o.st.events) != len(st.events):
                    raise Unsupported('predicate')
                for a, v in st.mem.items():
                    if o.st.mem.get(a) is not v and o.st.mem.get(a) != v:
                        raise Unsupported('predicate with effects')
                for s2, b in refine(o.st, lambda s2: eng.truth(s2, o.val)):
                    v = s2.res(arg)
                    (yes if b else no).extend([(v, v)] if isinstance(v, int) else s2.get_rng(v.key))
    finally:
        eng.loop_hook = hook
    yes, no = norm_cls(yes), norm_cls(no)
    if rint(yes, no) or rsub(rsub(list(CHAR_ALL), yes), no):
        raise Unsupported('predicate')
    return yes


def byte_class(eng, st, f):
    """the characters all of whose bytes a closure over bytes answers true for, and false for"""
    yes = pred_class(eng, st, f)
    lo = rint(yes, [(0, 0x7F)])
    hi = rint(yes, [(0x80, 0xFF)])
    if hi and rsub([(0x80, 0xFF)], hi):
        raise Unsupported('predicate on bytes')
    return lo + ([(0x80, 0x10FFFF)] if hi else [])


def all_any(eng, st, c, want_all):
    it = st.res(eng.load(st, c.args[0]))
    byte = it.__class__ is BytesIter
    if byte:
        it = it.it
    if it.__class__ is not Chars:
        return NotImplemented
    if any(not isinstance(p, str) and not is_chr(p) and st.x.get(('looped', p.key)) for p in expand(st, it.parts[it.pi:])):
        return NotImplemented
    try:
        cls = byte_class(eng, st, c.args[1]) if byte else pred_class(eng, st, c.args[1])
    except Unsupported:
        if byte:
            raise
        return NotImplemented
    found = contains(eng, st, it, rsub(list(CHAR_ALL), cls) if want_all else cls)
    eng.store(st, c.args[0], Sym(('consumed', st.n)) if found else Chars(it.parts, len(it.parts), 0))
    return int(not found) if want_all else int(found)


class BytesIter(Model):
    """iterator over the bytes of a text, for questions about all of them"""
    def __init__(self, it):
        self.it = it

    def __eq__(self, o):
        return o.__class__ is BytesIter and self.it == o.it

    def __hash__(self):
        return hash(self.it)

    def term(self, st):
        return ('bytes',) + self.it.term(st)


M['std::iter::Iterator::all'] = M["<std::str::Bytes<'_> as std::iter::Iterator>::all"] = lambda eng, st, c: all_any(eng, st, c, True)
M['std::iter::Iterator::any'] = M["<std::str::Bytes<'_> as std::iter::Iterator>::any"] = lambda eng, st, c: all_any(eng, st, c, False)


@model('core::str::<impl str>::bytes')
def m_bytes(eng, st, c):
    return BytesIter(text_iter(eng, st, c.args[0]))


def last_char(eng, st, c):
    """the last character of a text nothing of which was looked at yet"""
    it = st.res(eng.load(st, c.args[0])) if c.args[0].__class__ is Ref else st.res(c.args[0])
    if it.__class__ is not Chars:
        return NotImplemented
    sg = seg(it, st)
    if not sg:
        return eng.none(c.dty)
    p, lo = sg[-1]
    if isinstance(p, str) or is_chr(p):
        if lo and (is_chr(p) or lo >= len(p)):
            return eng.none(c.dty)
        return eng.some(c.dty, ord(p[-1]) if isinstance(p, str) else chr_val(st, p))
    if len(sg) > 1 or lo or st.x.get(('front', p.key), 0) or st.x.get(('ended', p.key)) or id_start(eng, st, p) is not None:
        if st.x.get(('ended', p.key)) and st.x.get(('front', p.key), 0) > lo:
            return eng.some(c.dty, st.x[('ch', p.key, st.x[('front', p.key)] - 1)])
        if len(sg) == 1 and st.x.get(('ended', p.key)):
            return eng.none(c.dty)
        raise Unsupported('last character')
    k = ('lastch', p.key)
    if k not in st.x:
        def some(s):
            s.x[k] = True
            s.rng[k] = list(char_class(p))
            remember(s, p, ('ends', ('sym', k), True, False))

        def none(s):
            if p.key[0] == 'dec':
                raise Infeasible()
            s.x[k] = False
            s.x[('ch', p.key, 0)] = None
            s.x[('ended', p.key)] = True
            for t in trk(s, p.key):
                if t[0] == 'need' or t[0] == 'ends' and t[3] != t[2]:
                    raise Infeasible()
        raise NeedFork([some, none])
    return eng.some(c.dty, Sym(k)) if st.x[k] else eng.none(c.dty)


@model("<std::str::Chars<'a> as std::iter::DoubleEndedIterator>::next_back")
def m_next_back(eng, st, c):
    r = last_char(eng, st, c)
    if r is not NotImplemented:
        eng.store(st, c.args[0], Sym(('consumed', st.n)))
    return r


M["<std::str::Chars<'a> as std::iter::Iterator>::last"] = last_char


# ------------------------------------------------------------------ positions in texts
class Pos(Model):
    """a byte offset: the length of some parts plus a constant"""
    def __init__(self, parts, off=0):
        self.parts, self.off = parts, off

    def __eq__(self, o):
        return o.__class__ is Pos and (self.parts, self.off) == (o.parts, o.off)

    def __hash__(self):
        return hash((self.parts, self.off))

    def term(self, st):
        return ('pos', tuple(p if isinstance(p, str) else st.rep(p.key) for p in self.parts), self.off)

    def binop(self, eng, st, op, a, b):
        if op.startswith(('Add', 'Sub')) and a is self and isinstance(b, int):
            r = Pos(self.parts, self.off + (b if op.startswith('Add') else -b))
            if r.off < 0:
                raise Unsupported('position')
            return Agg(None, 0, [r, 0]) if 'WithOverflow' in op else r
        if a is self and b == 0 or (a is self and b == 1 and op in ('Lt', 'Ge')):
            if op in ('Lt', 'Ge') and b == 0:
                return int(op == 'Ge')
            empty = not self.off and Chars(self.parts).step(eng, st)[0] is None
            if op in ('Eq', 'Le', 'Lt'):
                return int(empty)
            if op in ('Ne', 'Gt', 'Ge'):
                return int(not empty)
        raise Unsupported('position %s' % op)


def m_find(eng, st, c, back):
    cls = pat_class(eng, st, c.args[1])
    if cls is None:
        raise Unsupported('find')
    r = split_at_char(eng, st, c.args[0], cls, back)
    if r is None:
        return eng.none(c.dty)
    ps = r[0].parts if r[0].__class__ is Text else (r[0],)
    ps = expand(st, ps)
    if all(isinstance(p, str) for p in ps):
        return eng.some(c.dty, len(''.join(ps).encode()))
    return eng.some(c.dty, Pos(ps))


M['core::str::<impl str>::find'] = lambda eng, st, c: m_find(eng, st, c, False)
M['core::str::<impl str>::rfind'] = lambda eng, st, c: m_find(eng, st, c, True)


def cut(eng, st, parts, n):
    """the text before and after a byte offset"""
    parts = list(expand(st, parts))
    if len(parts) == 1 and not isinstance(parts[0], str) and not is_chr(parts[0]) and isinstance(n, int):
        if n == 0:
            return Text([]), parts[0]
        p = parts[0]
        if is_valid_id(eng, p, st) and n <= 2:
            if n == 2:
                return Text(['_:']), id_tail(st, p)
            return Text(['_']), Sym(('sub', p.key, 1))
        return Sym(('pre', p.key, n)), Sym(('sub', p.key, n))
    pre = []
    if n.__class__ is Pos:
        want = list(expand(st, n.parts))
        while want:
            if not parts:
                raise Unsupported('cut')
            a, b = want[0], parts[0]
            if isinstance(a, str) and isinstance(b, str) and (a.startswith(b) or b.startswith(a)):
                k = min(len(a), len(b))
                pre.append(a[:k])
                want[0:1] = [a[k:]] if a[k:] else []
                parts[0:1] = [b[k:]] if b[k:] else []
            elif a == b:
                pre.append(a)
                want.pop(0)
                parts.pop(0)
            else:
                raise Unsupported('cut')
        n = n.off
    if not isinstance(n, int):
        raise Unsupported('cut')
    while n:
        if not parts or not isinstance(parts[0], str):
            raise Unsupported('cut')
        b = parts[0]
        ch = b[0]
        w = len(ch.encode())
        if w > n:
            raise Unsupported('cut inside a character')
        pre.append(ch)
        n -= w
        parts[0:1] = [b[1:]] if b[1:] else []
    return text_value(pre), text_value(parts)


def norm_cls(c):
    out = []
    for a, b in sorted(c):
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(b, out[-1][1]))
        else:
            out.append((a, b))
    return out


def text_iter(eng, st, v):
    v = st.res(eng.load(st, v))
    if v.__class__ is Tail:
        return v.it
    return Chars(parts_of(eng, st, v))


def seg(it, st):
    """(part, first position) from an iterator position on"""
    parts = expand(st, it.parts[it.pi:]) if not it.pos else it.parts[it.pi:]
    if it.pos and not isinstance(parts[0], str) and (is_chr(parts[0]) or st.bind.get(parts[0].key).__class__ is Text):
        parts = tail_parts(None, st, it)
        return [(p, 0) for p in parts]
    return [(p, it.pos if i == 0 else 0) for i, p in enumerate(parts)]


def remember(st, p, f):
    st.x[('trk', p.key)] = trk(st, p.key) + (f,)


def atom_contains(eng, st, p, cls, lo):
    """is some character of the text, from position lo on, in the class; forks, and the answer is kept in mind"""
    key = ('contains', p.key, tuple(cls), lo)
    if key in st.x:
        return st.x[key]
    fresh(st, p)
    n = st.x.get(('front', p.key), 0)
    for i in range(lo, n):
        c = st.x[('ch', p.key, i)]
        if st.decide_in(c, cls):
            return 1
    if st.x.get(('ended', p.key)):
        return 0
    q0 = id_start(eng, st, p)
    al = char_class(p)
    if q0 is not None:
        al = rint(al, sorted(PN + DOT))
        if q0 == 0 and n == 0 and (rint(cls, [(0x5F, 0x5F)]) or rint(cls, [(0x3A, 0x3A)])):
            return 1
    for t in trk(st, p.key):
        if t[0] == 'ban':
            al = rsub(al, tcls(st, t[1]))
    if not rint(al, cls):
        return 0

    def yes(s):
        s.x[key] = 1
        remember(s, p, ('need', tuple(cls), False))

    def no(s):
        s.x[key] = 0
        remember(s, p, ('ban', tuple(cls)))
    raise NeedFork([yes, no])


def contains(eng, st, it, cls):
    for p, lo in seg(it, st):
        if isinstance(p, str):
            if any(rint([(ord(ch), ord(ch))], cls) for ch in p[lo:]):
                return 1
        elif is_chr(p):
            if not lo and st.decide_in(chr_val(st, p), cls):
                return 1
        elif atom_contains(eng, st, p, cls, lo):
            return 1
    return 0


@model('core::str::<impl str>::contains')
def m_contains(eng, st, c):
    it = text_iter(eng, st, c.args[0])
    cls = pat_class(eng, st, c.args[1])
    if cls is None:
        sg = seg(it, st)
        t = pat_text(eng, st, c.args[1])
        if all(isinstance(p, str) for p, _ in sg):
            return int(t in ''.join(p[lo:] for p, lo in sg))
        raise Unsupported('contains')
    return contains(eng, st, it, cls)


@model('core::str::<impl str>::is_ascii')
def m_str_ascii(eng, st, c):
    return 1 - contains(eng, st, text_iter(eng, st, c.args[0]), [(0x80, 0x10FFFF)])


@model('core::str::<impl str>::eq_ignore_ascii_case', 'core::slice::ascii::<impl [u8]>::eq_ignore_ascii_case')
def m_eqic(eng, st, c):
    a, b = c.args
    if values_eq(eng, st, a, b):
        return 1
    ta, tb = const_text(eng, st, a), const_text(eng, st, b)
    if ta is not None and tb is not None:
        return int(ascii_lower(ta) == ascii_lower(tb))
    ps = parts_of(eng, st, a) + parts_of(eng, st, b)
    for p in ps:
        if not isinstance(p, str) and (is_chr(p) or st.x.get(('front', p.key), 0)):
            raise Unsupported('comparison of texts already looked at')
    for t in (ta, tb):
        if t is not None and ascii_lower(t) == t.upper():
            return 0  # no letter: only the same text
    k = ('eqic',) + tuple(sorted([repr(eng.term(st, a)), repr(eng.term(st, b))]))
    if k not in st.x:
        def put(v):
            def f(s):
                s.x[k] = v
            return f
        raise NeedFork([put(1), put(0)])
    return st.x[k]


def ascii_lower(t):
    return ''.join(chr(ord(x) + 32) if 'A' <= x <= 'Z' else x for x in t)


def m_case(name, f):
    def run(eng, st, c):
        t = const_text(eng, st, c.args[0])
        if t is not None:
            return Text([f(t)] if t else [])
        for p in parts_of(eng, st, c.args[0]):
            if not isinstance(p, str) and (is_chr(p) or st.x.get(('front', p.key), 0)):
                raise Unsupported('case of a text already looked at')
        return Sym(('app', name, eng.term(st, c.args[0])))
    model(*['core::str::<impl str>::' + name, 'std::str::<impl str>::' + name, 'alloc::str::<impl str>::' + name])(run)


def ascii_upper(t):
    return ''.join(chr(ord(x) - 32) if 'a' <= x <= 'z' else x for x in t)


m_case('to_lowercase', str.lower)
m_case('to_uppercase', str.upper)
m_case('to_ascii_lowercase', ascii_lower)
m_case('to_ascii_uppercase', ascii_upper)


def split_atom(eng, st, p, lo, ch, back):
    """an atom known to contain the character: its pieces around the first (last) occurrence"""
    if lo or st.x.get(('front', p.key), 0) or st.x.get(('ended', p.key)) or id_start(eng, st, p) is not None or p.key[0] == 'dec':
        raise Unsupported('split of a text already looked at')
    c = [(ord(ch), ord(ch))]
    a, b = Sym(('spl', p.key, ch, back, 0)), Sym(('spl', p.key, ch, back, 1))
    ta, tb = [], []
    for t in trk(st, p.key):
        if t[0] == 'ban':
            ta.append(t)
            tb.append(t)
        elif t[0] == 'need':
            if not rint(c, tcls(st, t[1])):
                raise Unsupported('split of a text with other requirements')
        else:
            tb.append(t[:3] + (bool(rint(c, tcls(st, t[1]))),))
    (tb if back else ta).append(('ban', tuple(c)))
    st.x[('trk', a.key)], st.x[('trk', b.key)] = tuple(ta), tuple(tb)
    st.bind[p.key] = Text([a, ch, b])
    return a, b


def text_value(parts):
    ps = Text(parts).parts
    return ps[0] if len(ps) == 1 and not isinstance(ps[0], str) else Text(ps)


def split_at_char(eng, st, v, cls, back):
    """-> (before, after) or None"""
    it = text_iter(eng, st, v)
    sg = seg(it, st)
    if len(cls) != 1 or cls[0][0] != cls[0][1]:
        raise Unsupported('split')
    ch = chr(cls[0][0])
    if len(sg) == 1 and not isinstance(sg[0][0], str) and is_valid_id(eng, sg[0][0], st) and not back and not sg[0][1]:
        p = sg[0][0]
        if ch == ':':
            return Text(['_']), id_tail(st, p)
    if len(sg) == 1 and not isinstance(sg[0][0], str) and is_valid_id(eng, sg[0][0], st) and back and not sg[0][1] and ch == ':':
        p = sg[0][0]
        k = ('rsplit', p.key)
        if k not in st.x:
            raise NeedFork([lambda s: s.x.__setitem__(k, 0), lambda s: s.x.__setitem__(k, 1)])
        if st.x[k]:
            return Sym(('rpre', p.key)), Sym(('rsub', p.key))
        return Text(['_']), id_tail(st, p)
    order = list(range(len(sg)))
    for i in (reversed(order) if back else order):
        p, lo = sg[i]
        pre, post = [x for x, _ in sg[:i]], [x for x, _ in sg[i + 1:]]
        if i and sg[0][1]:
            raise Unsupported('split')
        if isinstance(p, str):
            j = p[lo:].rfind(ch) if back else p[lo:].find(ch)
            if j >= 0:
                return text_value(pre + [p[lo:][:j]]), text_value([p[lo:][j + 1:]] + post)
        elif is_chr(p):
            if st.decide_in(chr_val(st, p), cls):
                return text_value(pre), text_value(post)
        elif atom_contains(eng, st, p, cls, lo):
            a, b = split_atom(eng, st, p, lo, ch, back)
            return text_value(pre + [a]), text_value([b] + post)
    return None


def m_split_once(eng, st, c, back):
    cls = pat_class(eng, st, c.args[1])
    if cls is None:
        raise Unsupported('split_once')
    r = split_at_char(eng, st, c.args[0], cls, back)
    if r is None:
        return eng.none(c.dty)
    tt = eng.p.types[c.dty]['ga'][0]
    return eng.some(c.dty, Agg(tt, 0, [eng.box(st, r[0]), eng.box(st, r[1])]))


M['core::str::<impl str>::split_once'] = lambda eng, st, c: m_split_once(eng, st, c, False)
M['core::str::<impl str>::rsplit_once'] = lambda eng, st, c: m_split_once(eng, st, c, True)


@model('core::str::<impl str>::strip_suffix')
def m_strip_suffix(eng, st, c):
    cls = pat_class(eng, st, c.args[1])
    if cls is None or len(cls) != 1 or cls[0][0] != cls[0][1]:
        raise Unsupported('strip_suffix')
    it = text_iter(eng, st, c.args[0])
    if not ends_in(eng, st, it, cls):
        return eng.none(c.dty)
    sg = seg(it, st)
    p, lo = sg[-1]
    if sg[0][1]:
        raise Unsupported('strip_suffix')
    if len(sg) > 1 and not isinstance(p, str) and not is_chr(p):
        raise Unsupported('strip_suffix')
    if isinstance(p, str) or is_chr(p):
        last = [p[:-1]] if isinstance(p, str) else []
    else:
        if st.x.get(('front', p.key), 0) or id_start(eng, st, p) is not None or p.key[0] == 'dec':
            raise Unsupported('split of a text already looked at')
        # the text is not known to be empty here, so that it ends with the character
        a = Sym(('spl', p.key, chr(cls[0][0]), 'end'))
        ta = []
        for t in trk(st, p.key):
            if t[0] == 'ban':
                ta.append(t)
            elif t[0] == 'need' and not rint(cls, tcls(st, t[1])):
                ta.append(t)
            elif t[0] == 'ends' and bool(rint(cls, tcls(st, t[1]))) != t[2]:
                raise Infeasible()
        st.x[('trk', a.key)] = tuple(ta)
        st.bind[p.key] = Text([a, chr(cls[0][0])])
        last = [a]
    return eng.some(c.dty, eng.box(st, text_value([x for x, _ in sg[:-1]] + last)))


WHITE = [(9, 13), (0x20, 0x20), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A), (0x2028, 0x2029), (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000)]


def trimmed(eng, st, v, cls, start):
    """the text without the characters of the class at its start (end)"""
    ps = list(parts_of(eng, st, v))
    while ps:
        i = 0 if start else -1
        p = ps[i]
        if isinstance(p, str):
            while p and rint([(ord(p[i]),) * 2], cls):
                p = p[1:] if start else p[:-1]
            if p:
                ps[i] = p
                break
            ps.pop(i)
            continue
        if is_chr(p):
            if not st.decide_in(chr_val(st, p), cls):
                break
            ps.pop(i)
            continue
        q0 = id_start(eng, st, p)
        if q0 is not None and not rint(cls, sorted(PN + DOT)):
            break
        if q0 is not None or st.x.get(('front', p.key), 0) or st.x.get(('ended', p.key)) or any(t[0] != 'ban' for t in trk(st, p.key)):
            raise Unsupported('trimmed text')
        if not rint(char_class(p), cls):
            break
        if len(ps) > 1:
            raise Unsupported('trimmed text')
        ban = trk(st, p.key)
        k = ('spl', p.key, 'trim', start)
        w, a = Sym(k + (0,)), Sym(k + (1,))
        st.x[('trk', w.key)] = ban + (('ban', tuple(rsub(list(CHAR_ALL), cls))),)
        st.x[('trk', a.key)] = ban + ((('first', tuple(cls)) if start else ('ends', tuple(cls), False, False)),)
        st.bind[p.key] = Text([w, a] if start else [a, w])
        ps[i] = a
        break
    return eng.box(st, text_value(ps))


M['core::str::<impl str>::trim_start'] = lambda eng, st, c: trimmed(eng, st, c.args[0], WHITE, True)
M['core::str::<impl str>::trim_end'] = lambda eng, st, c: trimmed(eng, st, c.args[0], WHITE, False)


@model('core::str::<impl str>::trim')
def m_trim(eng, st, c):
    ps = parts_of(eng, st, c.args[0])
    r = trimmed(eng, st, c.args[0], WHITE, True)
    t = parts_of(eng, st, r)
    if len(t) == 1 and not isinstance(t[0], str) and not is_chr(t[0]) and id_start(eng, st, t[0]) is None and trk(st, t[0].key) and trk(st, t[0].key)[-1][0] == 'first':
        p = t[0]
        tr = trk(st, p.key)
        k = ('spl', p.key, 'trim2')
        a, w = Sym(k + (0,)), Sym(k + (1,))
        ban = tuple(x for x in tr if x[0] == 'ban')
        # a is empty only when the whole text is: then the white space is the first part
        st.x[('trk', a.key)] = tr + (('ends', tuple(WHITE), False, False),)
        st.x[('trk', w.key)] = ban + (('ban', tuple(rsub(list(CHAR_ALL), WHITE))),)
        st.bind[p.key] = Text([a, w])
        return eng.box(st, a)
    return trimmed(eng, st, r, WHITE, False)


@model('core::str::<impl str>::trim_end_matches')
def m_trim_end_matches(eng, st, c):
    cls = pat_class(eng, st, c.args[1])
    if cls is None:
        raise Unsupported('trim_end_matches')
    return trimmed(eng, st, c.args[0], cls, False)


@model('core::str::<impl str>::trim_start_matches')
def m_trim_start(eng, st, c):
    cls = pat_class(eng, st, c.args[1])
    ps = parts_of(eng, st, c.args[0])
    if len(ps) != 1 or not is_valid_id(eng, ps[0], st):
        if cls is None:
            raise Unsupported('trim_start_matches')
        return trimmed(eng, st, c.args[0], cls, True)
    p = ps[0]
    if cls is None:
        if pat_text(eng, st, c.args[1]) != '_:':
            raise Unsupported('trim_start_matches')
        again = True
    else:
        if not rint(cls, [(0x5F, 0x5F)]):
            return c.args[0]
        if not rint(cls, [(0x3A, 0x3A)]):
            return eng.box(st, Sym(('sub', p.key, 1)))
        again = True        # the label itself can start with '_' or ':'
    k = ('trims', p.key, repr(cls))
    if k not in st.x:
        raise NeedFork([lambda s: s.x.__setitem__(k, 0), lambda s: s.x.__setitem__(k, 1)])
    return eng.box(st, Sym(('trimmed', p.key, repr(cls))) if st.x[k] else id_tail(st, p))


def tail_value(eng, st, it):
    """the text after an iterator position, sharing what is known of its characters"""
    ps = list(it.parts[it.pi:])
    if not it.pos:
        return Text(ps) if len(ps) != 1 or isinstance(ps[0], str) else ps[0]
    p = ps[0]
    if isinstance(p, str):
        ps[0] = p[it.pos:]
        return Text(ps) if len(ps) != 1 or isinstance(ps[0], str) else ps[0]
    if is_valid_id(eng, p, st) and it.pos == 2 and st.x.get(('front', p.key), 0) <= 2 and len(ps) == 1:
        return id_tail(st, p)
    return Tail(it)


class Tail(Model):
    """a text starting at an iterator position of another text"""
    def __init__(self, it):
        self.it = it

    def __eq__(self, o):
        return o.__class__ is Tail and self.it == o.it

    def __hash__(self):
        return hash(self.it)

    def term(self, st):
        it = self.it
        if it.pi == len(it.parts) - 1 and not isinstance(it.parts[it.pi], str):
            return ('sub', it.parts[it.pi].key, it.pos)
        return ('tail',) + it.term(st)


def pat_text(eng, st, v):
    v = st.res(v)
    if isinstance(v, int):
        return chr(v)
    t = const_text(eng, st, v)
    if t is None:
        raise Unsupported('pattern text')
    return t


@model('core::str::<impl str>::starts_with')
def m_starts(eng, st, c):
    if getattr(eng, 'lens', False):
        a, b = parts_of(eng, st, c.args[0]), pattern_atom(eng, st, c.args[1])
        if b is not None and len(a) == 1 and a[0].__class__ is Sym and not is_chr(a[0]):
            return int(eng.truth(st, Sym(('starts', st.rep(a[0].key), st.rep(b)))))
    cls = pat_class(eng, st, c.args[1])
    classes = [cls] if cls is not None else [[(ord(x), ord(x))] for x in pat_text(eng, st, c.args[1])]
    return int(drop_classes(eng, st, text_iter(eng, st, c.args[0]), classes) is not None)


def pattern_atom(eng, st, v):
    """the key of a pattern that is a text of which nothing is known"""
    v = st.res(v)
    for _ in range(4):
        if v.__class__ is Ref or (v.__class__ is Sym and eng.is_ref(v.ty)):
            v = st.res(eng.load(st, v))
    if v.__class__ is Sym and st.get_rng(v.key) is None and (type_name(eng, v) in STR_LIKE or v.key[0] in ('istr', 'lstr')):
        return v.key
    return None


def ends_in(eng, st, it, cls):
    """is the last character in the class; forks, and the answer is kept in mind"""
    sg = seg(it, st)
    if not sg:
        return 0
    p, lo = sg[-1]
    if isinstance(p, str):
        return int(len(p) > lo and bool(rint([(ord(p[-1]), ord(p[-1]))], cls)))
    if is_chr(p):
        return int(st.decide_in(chr_val(st, p), cls))
    prev = 0
    if len(sg) > 1:
        prev = ends_in(eng, st, Chars([x for x, _ in sg[:-1]]), cls) if not sg[0][1] else None
        if prev is None or not (isinstance(sg[-2][0], str) or is_chr(sg[-2][0])):
            raise Unsupported('ends_with')
    n = st.x.get(('front', p.key), 0)
    if st.x.get(('ended', p.key)):
        if st.x.get(('lastlost', p.key)) and any(rint(x, cls) and rsub(x, cls) for x in LASTS):
            raise Unsupported('last character after a loop')
        return int(st.decide_in(st.x[('ch', p.key, n - 1)], cls)) if n > lo else prev
    k = ('endsin', p.key, tuple(cls), lo, prev)
    if k in st.x:
        return st.x[k]

    def mk(b):
        def f(s):
            s.x[k] = int(b)
            remember(s, p, ('ends', tuple(cls), b, bool(prev) if n <= lo else None))
        return f
    alts = [mk(True), mk(False)]
    q0 = id_start(eng, st, p)
    if q0 is not None and not rint(cls, PN):
        return 0
    raise NeedFork(alts)


@model('core::str::<impl str>::ends_with')
def m_ends(eng, st, c):
    cls = pat_class(eng, st, c.args[1])
    it = text_iter(eng, st, c.args[0])
    if cls is None:
        sg = seg(it, st)
        t = pat_text(eng, st, c.args[1])
        if all(isinstance(p, str) for p, _ in sg):
            return int(''.join(p[lo:] for p, lo in sg).endswith(t))
        raise Unsupported('ends_with')
    return ends_in(eng, st, it, cls)


@model('core::str::<impl str>::is_empty', 'std::string::String::is_empty')
def m_is_empty(eng, st, c):
    v = st.res(eng.load(st, c.args[0]))
    it = v.it if v.__class__ is Tail else Chars(parts_of(eng, st, c.args[0]))
    ch, _ = it.step(eng, st)
    return int(ch is None)


@model('core::str::<impl str>::len', 'std::string::String::len')
def m_len(eng, st, c):
    t = const_text(eng, st, c.args[0])
    if t is not None:
        return len(t.encode())
    if getattr(eng, 'lens', False):
        v = st.res(eng.load(st, c.args[0]))
        ps = tail_parts(eng, st, v.it) if v.__class__ is Tail else parts_of(eng, st, c.args[0])
        atoms = [p for p in ps if not isinstance(p, str)]
        if len(atoms) == 1 and not is_chr(atoms[0]):
            n = sum(len(p.encode()) for p in ps if isinstance(p, str))
            return eng.linadd(st, Sym(('tlen', atoms[0].key), c.dty), n, 1)
    return NotImplemented


def length_conflict(eng, st):
    """the lengths asked for, against what is known of the texts: True when the trace cannot be followed; small bounds are not weighed"""
    keys = {k for e in st.zone for k in e if isinstance(k, tuple) and k[:1] == ('tlen',)} | {k for k in st.bind if k[:1] == ('tlen',)} | \
        {k for k in st.uf if k[:1] == ('tlen',)} | {k for e in st.zneq for k in e if isinstance(k, tuple) and k[:1] == ('tlen',)}
    for k in keys:
        lo, hi = st.int_rel(Sym(k), 0)
        if st.x.get(('looped', k[1])) or not st.x.get(('ended', k[1])):
            if hi is not None and hi < 16:
                raise Unsupported('a bound on the length')
            continue
        n = st.x.get(('front', k[1]), 0)
        rg = [st.res(st.x[('ch', k[1], i)]) for i in range(n)]
        rg = [[(c, c)] if isinstance(c, int) else st.get_rng(c.key) for c in rg]
        if (lo is not None and lo > sum(len(chr(r[-1][1]).encode()) for r in rg)) or (hi is not None and hi < sum(1 if r[0][0] < 128 else 2 for r in rg)):
            return True
        if (lo or 0) > n or (hi is not None and hi < 4 * n):
            raise Unsupported('a bound on the length')
    return False


def slice_text(eng, st, c):
    ps = parts_of(eng, st, c.args[0])
    r = st.res(c.args[1])
    n = lib.short(eng.p.types[r.ty]['def']) if r.__class__ is Agg and r.ty is not None else None
    if n == 'RangeFull':
        return c.args[0]
    if n == 'RangeFrom':
        return eng.box(st, cut(eng, st, ps, st.res(r.f[0]))[1])
    if n == 'RangeTo':
        return eng.box(st, cut(eng, st, ps, st.res(r.f[0]))[0])
    raise Unsupported('str index')


@model('core::str::traits::<impl std::ops::Index<I> for str>::index', 'std::str::traits::<impl std::ops::Index<I> for str>::index',
       '<std::string::String as std::ops::Index<I>>::index', 'core::str::<impl str>::get_unchecked')
def m_index(eng, st, c):
    return slice_text(eng, st, c)


@model('core::str::<impl str>::get')
def m_str_get(eng, st, c):
    ps = parts_of(eng, st, c.args[0])
    r = st.res(c.args[1])
    if r.__class__ is Agg and len(r.f) == 1 and len(ps) == 1 and not isinstance(ps[0], str) and is_valid_id(eng, ps[0], st) and st.res(r.f[0]) in (0, 1, 2):
        return eng.some(c.dty, slice_text(eng, st, c))
    raise Unsupported('str get')


@model('core::str::<impl str>::split_at')
def m_split_at(eng, st, c):
    a, b = cut(eng, st, parts_of(eng, st, c.args[0]), st.res(c.args[1]))
    return Agg(c.dty, 0, [eng.box(st, a), eng.box(st, b)])


# building texts
@model('std::string::String::new', 'std::string::String::with_capacity')
def m_snew(eng, st, c):
    return Text([])


def append(eng, st, ref, more):
    v = st.res(eng.load(st, ref))
    eng.store(st, ref, Text(list(parts_of(eng, st, v)) + list(more)))


@model('std::string::String::push_str')
def m_push_str(eng, st, c):
    append(eng, st, c.args[0], parts_of(eng, st, c.args[1]))
    return eng.unit()


@model('std::string::String::push')
def m_push(eng, st, c):
    ch = st.res(c.args[1])
    append(eng, st, c.args[0], [chr(ch) if isinstance(ch, int) else Sym(('chr', ch.key))])
    return eng.unit()


@model('<std::string::String as std::ops::Add<&str>>::add')
def m_sadd(eng, st, c):
    return Text(list(parts_of(eng, st, c.args[0])) + list(parts_of(eng, st, c.args[1])))


# ------------------------------------------------------------------ formatting
class Fmtr(Model):
    """a formatter: where it writes, and whether its options are the default ones"""
    def __init__(self, sink, plain, spec=None):
        self.sink, self.plain, self.spec = sink, plain, spec

    def __eq__(self, o):
        return o.__class__ is Fmtr and (self.sink, self.plain, self.spec) == (o.sink, o.plain, o.spec)

    def __hash__(self):
        return hash((self.sink, self.plain))

    def term(self, st):
        return ('fmtr', self.sink, self.plain)


class FArg(Model):
    def __init__(self, how, ref, ty):
        self.how, self.ref, self.ty = how, ref, ty

    def term(self, st):
        return ('farg', self.how, repr(self.ref))


class FArgs(Model):
    def __init__(self, pieces):
        self.pieces = pieces

    def term(self, st):
        return ('fargs', repr(self.pieces))


def fmtr_of(eng, st, v):
    v = st.res(v)
    for _ in range(6):
        if v.__class__ is Fmtr:
            return v
        if v.__class__ is Ref or (v.__class__ is Sym and eng.is_ref(v.ty)):
            v = st.res(eng.load(st, v))
            continue
        break
    if v.__class__ is Fmtr:
        return v
    if v.__class__ is Sym:
        return Fmtr(('sink', v.key), False)
    raise Unsupported('formatter %r' % (v,))


def result(eng, st, c_dty, sink):
    """success or failure of a write"""
    if st.x.get('nofail'):
        return [Outcome(st, 'ret', eng.mk(c_dty, 'Ok', eng.unit()))]
    s2 = st.copy()
    st.x['fail'] = st.x.get('fail', 0)
    s2.events.append(('fail', sink))
    t = eng.p.types[c_dty]
    et = t['v'][1]['f'][0][1]
    ok = Outcome(st, 'ret', eng.mk(c_dty, 'Ok', eng.unit()))
    er = Outcome(s2, 'ret', eng.mk(c_dty, 'Err', Sym(('fmterr',), et)))
    return [ok, er]


def emit(eng, st, fm, parts):
    """write the parts; buffers of format!() collect them in a text"""
    if isinstance(fm.sink, Ref):
        v = st.res(eng.load(st, fm.sink))
        eng.store(st, fm.sink, Text(list(parts_of(eng, st, v)) + list(parts)))
        return
    for p in parts:
        st.events.append(('w', fm.sink, p))


@model('core::fmt::rt::Argument::<\'_>::new_display', 'core::fmt::rt::Argument::<\'_>::new_debug', 'core::fmt::rt::Argument::<\'_>::new_lower_hex',
       'core::fmt::rt::Argument::<\'_>::new_upper_hex', 'core::fmt::rt::Argument::<\'_>::from_usize', 'core::fmt::rt::Argument::<\'_>::new_octal', 'core::fmt::rt::Argument::<\'_>::new_binary')
def m_farg(eng, st, c):
    return FArg(c.callee['path'].split('::')[-1], c.args[0], c.callee['ga'][0] if c.callee.get('ga') else None)


@model("std::fmt::Arguments::<'a>::from_str", "std::fmt::Arguments::<'a>::from_str_nonconst")
def m_fstr(eng, st, c):
    return FArgs([('lit', const_text(eng, st, c.args[0]))])


@model("std::fmt::Arguments::<'a>::new")
def m_fnew(eng, st, c):
    b = st.res(eng.load(st, c.args[0]))
    arr = st.res(eng.load(st, c.args[1]))
    if b.__class__ is not Bytes or arr.__class__ is not Agg:
        raise Unsupported('format template %r' % (b,))
    args = [st.res(x) for x in arr.f]
    b = b.b
    i, k, out = 0, 0, []
    while True:
        n = b[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(('lit', b[i:i + n].decode()))
            i += n
        elif n == 0x80:
            ln = b[i] | b[i + 1] << 8
            out.append(('lit', b[i + 2:i + 2 + ln].decode()))
            i += 2 + ln
        else:
            fl = w = pr = None
            if n & 1:
                fl = int.from_bytes(b[i:i + 4], 'little')
                i += 4
            if n & 2:
                w = int.from_bytes(b[i:i + 2], 'little')
                i += 2
            if n & 4:
                pr = int.from_bytes(b[i:i + 2], 'little')
                i += 2
            if n & 8:
                k = int.from_bytes(b[i:i + 2], 'little')
                i += 2
            if n & 48:
                raise Unsupported('dynamic width')
            out.append(('arg', args[k], (fl, w, pr)))
            k += 1
    return FArgs(out)


def write_args(eng, st, fm, fa, dty, depth=0):
    """outcomes of formatting; traces with a failed write stop there"""
    outs = [Outcome(st, 'ret', None)]
    final = []
    rty = dty
    for pc in fa.pieces:
        nxt = []
        for o in outs:
            s = o.st
            if pc[0] == 'lit':
                emit(eng, s, fm, [pc[1]])
                res = finish(eng, s, rty, fm)
            else:
                f, (fl, w, pr) = pc[1], pc[2]
                plain = fl is None and w is None and pr is None
                res = show_value(eng, s, f.how, f.ref, Fmtr(fm.sink, plain, (fl, w, pr)), rty, depth)
            for r in res:
                if r.kind != 'ret':
                    final.append(r)
                elif is_err(eng, r):
                    final.append(r)
                else:
                    nxt.append(r)
        outs = nxt
    for o in outs:
        final.append(Outcome(o.st, 'ret', eng.mk(rty, 'Ok', eng.unit())))
    return final


def is_err(eng, o):
    v = o.st.res(o.val)
    if v is None:
        return False
    if v.__class__ is Sym:
        raise Unsupported('unknown write result')
    return eng.p.types[v.ty]['v'][v.var]['n'] == 'Err'


def finish(eng, st, dty, fm):
    if isinstance(fm.sink, Ref):
        return [Outcome(st, 'ret', eng.mk(dty, 'Ok', eng.unit()))]
    return result(eng, st, dty, fm.sink)


def deep(eng, st, v):
    v = st.res(v)
    for _ in range(10):
        if v.__class__ is Ref or (v.__class__ is Sym and eng.is_ref(v.ty)):
            v = st.res(eng.load(st, v))
        elif v.__class__ is Agg and v.ty is not None and eng.p.types[v.ty]['k'] == 'adt' and eng.p.types[v.ty]['def'] in COW_ADTS and v.f:
            v = st.res(v.f[0])
        else:
            break
    return v


def type_name(eng, v):
    if v.__class__ is Text:
        return 'str'
    t = getattr(v, 'ty', None)
    if t is None:
        return None
    d = eng.p.types[t]
    if d['k'] == 'adt':
        return lib.short(d['def'])
    if d['k'] == 'str':
        return 'str'
    return None


def find_impl(eng, trait, name):
    """root implementing the trait for the named type"""
    key = ('impl', trait, name)
    if key not in eng.cache:
        eng.cache[key] = None
        for r in eng.p.roots:
            if r.get('traitref') and lib.base(r['traitref']) == trait and lib.base(r.get('self')) == name:
                eng.cache[key] = r
    return eng.cache[key]


TEXT_ATOMS = ('sub', 'istr', 'lstr', 'dec', 'spl', 'pre', 'trimmed', 'rpre', 'rsub')
STR_LIKE = ('str', 'String')
IRI_LIKE = ('Iri', 'IriBuf', 'IriRef', 'IriRefBuf')


NUMBERS = {'new_display': 'd', 'new_debug': 'd', 'new_lower_hex': 'x', 'new_upper_hex': 'X', 'new_octal': 'o', 'new_binary': 'b'}


def number_text(eng, st, fm, radix, t):
    """a formatted unsigned number; ('dec', t) in decimal, ('dec', t, radix, width) in another radix or filled with zeros"""
    if fm.plain:
        return [Sym(('dec', t) if radix == 'd' else ('dec', t, radix, 0))]
    if fm.spec is None or fm.spec[0] is None:
        raise Unsupported('number formatted by the options of the caller')
    fl, w, pr = fm.spec
    w = w if w and fl & 1 << 27 else 0
    sign = '+' if fl & 1 << 21 else ''
    if fl & 1 << 23:
        sign += {'x': '0x', 'X': '0x', 'o': '0o', 'b': '0b'}.get(radix, '')
    w = max(0, w - len(sign))
    pre = [sign] if sign else []
    if fl & 1 << 24 or w <= 1:
        w = w if fl & 1 << 24 and w > 1 else 0
        return pre + [Sym(('dec', t) if radix == 'd' and not w else ('dec', t, radix, w))]
    fill, al = chr(fl & 0x1FFFFF), fl >> 29 & 3
    if fill == '0' and al in (1, 3) and not pre:
        return [Sym(('dec', t, radix, w))]
    num = Sym(('dec', t) if radix == 'd' else ('dec', t, radix, 0))
    for k in range(w - 1, 0, -1):
        # k characters are missing: the number has w - k digits
        if eng.truth(st, Sym(('missing', t, radix, w - k))):
            left = {0: 0, 1: k, 2: k // 2, 3: k}[al]
            return [fill * left] * (left > 0) + pre + [num] + [fill * (k - left)] * (k > left)
    return pre + [num]


def show_value(eng, st, how, ref, fm, rty, depth):
    """format one argument"""
    v = deep(eng, st, ref)
    t = getattr(v, 'ty', None)
    k = eng.p.types[t]['k'] if t is not None else None
    n = type_name(eng, v)
    if isinstance(v, int) or v.__class__ is Lin or k in ('int', 'uint', 'char') or (v.__class__ is Sym and st.get_rng(v.key) is not None):
        isch = k == 'char' or (v.__class__ is Sym and k is None and st.get_rng(v.key) is not None)
        if how == 'new_display' and isch and fm.plain:
            return put_char(eng, st, fm, v, rty)
        if how in NUMBERS and not isch and not isinstance(v, int) and k != 'int':
            emit(eng, st, fm, number_text(eng, st, fm, NUMBERS[how], eng.term(st, v)))
            return finish(eng, st, rty, fm)
        if how == 'new_display' and fm.plain and isinstance(v, int):
            raise Unsupported('display of a constant of unknown type')
        elif how in ('new_lower_hex', 'new_upper_hex'):
            p = ('hex', how == 'new_upper_hex', fm.spec, v if isinstance(v, int) else v.key if v.__class__ is Sym else eng.term(st, v))
            if isinstance(fm.sink, Ref):
                p = Sym(p)
        else:
            raise Unsupported('integer format %s' % how)
        emit(eng, st, fm, [p])
        return finish(eng, st, rty, fm)
    if how != 'new_display':
        raise Unsupported('format %s' % how)
    if n in STR_LIKE or (v.__class__ is Sym and v.key[0] in TEXT_ATOMS) or v.__class__ in (Text, Tail):
        return put_text(eng, st, fm, v, rty)
    if n is not None:
        r = find_impl(eng, 'Display', n)
        if r is not None:
            outs = eng.run(st, r['root'], [eng.box(st, v), eng.box(st, fm)], depth + 1)
            return outs
        if n in IRI_LIKE:
            return put_text(eng, st, fm, Sym(('istr', st.akey(v))), rty)
        if n.startswith('LangTag'):
            return put_text(eng, st, fm, Sym(('lstr', st.akey(v))), rty)
        raise Unsupported('display of %s' % n)
    emit(eng, st, fm, [('disp', 'Display', eng.term(st, v), fm.plain)])
    return finish(eng, st, rty, fm)


def put_text(eng, st, fm, v, rty, raw=False):
    ps = parts_of(eng, st, v)
    if not fm.plain and not raw:
        ps = [('pad', tuple(p if isinstance(p, str) else p.key for p in ps))]
    emit(eng, st, fm, ps)
    return finish(eng, st, rty, fm)


def put_char(eng, st, fm, ch, rty, raw=False):
    ch = st.res(ch)
    if not fm.plain and not raw:
        p = ('pad', ('chr', ch if isinstance(ch, int) else ch.key))
    else:
        p = chr(ch) if isinstance(ch, int) else (('chr', ch.key) if not isinstance(fm.sink, Ref) else Sym(('chr', ch.key)))
    emit(eng, st, fm, [p])
    return finish(eng, st, rty, fm)


@model("std::fmt::Formatter::<'a>::write_fmt", "<std::fmt::Formatter<'_> as std::fmt::Write>::write_fmt", 'std::fmt::Write::write_fmt')
def m_write_fmt(eng, st, c):
    fa = st.res(c.args[1])
    if fa.__class__ is not FArgs:
        raise Unsupported('format arguments')
    return write_args(eng, st, sink_of(eng, st, c.args[0]), fa, c.dty)


def sink_of(eng, st, v):
    """formatter, or a string used as a writer"""
    r = st.res(v)
    x = st.res(eng.load(st, r)) if (r.__class__ is Ref or r.__class__ is Sym) else r
    if x.__class__ is Text:
        return Fmtr(r, True)
    return fmtr_of(eng, st, v)


@model("std::fmt::Formatter::<'a>::write_str", "<std::fmt::Formatter<'_> as std::fmt::Write>::write_str", 'std::fmt::Write::write_str', '<std::string::String as std::fmt::Write>::write_str')
def m_write_str(eng, st, c):
    return put_text(eng, st, sink_of(eng, st, c.args[0]), c.args[1], c.dty, raw=True)


@model("<std::fmt::Formatter<'_> as std::fmt::Write>::write_char", 'std::fmt::Write::write_char', '<std::string::String as std::fmt::Write>::write_char')
def m_write_char(eng, st, c):
    return put_char(eng, st, sink_of(eng, st, c.args[0]), c.args[1], c.dty, raw=True)


@model("std::fmt::Formatter::<'a>::pad")
def m_pad(eng, st, c):
    return put_text(eng, st, fmtr_of(eng, st, c.args[0]), c.args[1], c.dty)


@model('std::fmt::Display::fmt', '<str as std::fmt::Display>::fmt', '<std::string::String as std::fmt::Display>::fmt', '<char as std::fmt::Display>::fmt')
def m_display(eng, st, c):
    if c.name.startswith(('<str as', '<std::string::String as')):
        return put_text(eng, st, fmtr_of(eng, st, c.args[1]), c.args[0], c.dty)
    return show_value(eng, st, 'new_display', c.args[0], fmtr_of(eng, st, c.args[1]), c.dty, 0)


@model('std::fmt::format', 'std::fmt::format::format_inner')
def m_format(eng, st, c):
    fa = st.res(c.args[0])
    if fa.__class__ is not FArgs:
        raise Unsupported('format arguments')
    buf = eng.box(st, Text([]), 'buf')
    rty = eng.fmt_result_ty()
    outs = []
    for o in write_args(eng, st, Fmtr(buf, True), fa, rty):
        if o.kind == 'ret' and not is_err(eng, o):
            outs.append(Outcome(o.st, 'ret', eng.load(o.st, buf)))
        elif o.kind != 'ret':
            outs.append(o)
    return outs


@model('<T as std::string::ToString>::to_string', 'std::string::ToString::to_string', '<T as std::string::SpecToString>::spec_to_string',
       'std::string::SpecToString::spec_to_string')
def m_to_string(eng, st, c):
    v = deep(eng, st, c.args[0])
    t = getattr(v, 'ty', None)
    k = eng.p.types[t]['k'] if t is not None else None
    if v.__class__ is Lin or k in ('int', 'uint'):
        return Text([Sym(('dec', eng.term(st, v)))])
    if v.__class__ is Text or type_name(eng, v) in STR_LIKE:
        return v
    return NotImplemented
