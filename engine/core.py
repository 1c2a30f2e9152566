"""Abstract interpreter over the dumped MIR.

Trace-partitioned abstract interpretation: a state abstracts all concrete states
that agree on the decisions taken so far.  Values of generic or library types are
opaque atoms; what is known about atoms is kept in small relational domains
(equality partition, order facts, difference bounds, character ranges); enums are
partitioned on their variant the first time a discriminant is inspected.  Nothing is
executed and no solver is called: every decision is answered by the domains or splits
the abstract state.
"""
import json, sys, collections, time
sys.setrecursionlimit(20000)


class Len(int):
    """number of elements of a sequence explored in place of all sequences"""


class NeedFork(Exception):
    def __init__(self, options):
        self.options = options


class Infeasible(Exception):
    pass


class Unsupported(Exception):
    pass


class Panic(Exception):
    def __init__(self, msg):
        self.msg = msg


class Budget(Exception):
    pass


# what is not decided by then stays undecided
DEADLINE = time.time() + float(__import__('os').environ.get('VERIF_TIME', '420'))


# ---------------------------------------------------------------- values
class Sym:
    __slots__ = ('key', 'ty', '_h')

    def __init__(self, key, ty=None):
        self.key = key
        self.ty = ty
        self._h = hash(key)

    def __eq__(self, o):
        return o.__class__ is Sym and self._h == o._h and self.key == o.key

    def __hash__(self):
        return self._h

    def __repr__(self):
        return '$' + kstr(self.key)


class Lin:
    __slots__ = ('sym', 'off')

    def __init__(self, sym, off):
        self.sym = sym
        self.off = off

    def __eq__(self, o):
        return o.__class__ is Lin and self.sym == o.sym and self.off == o.off

    def __hash__(self):
        return hash((self.sym, self.off))

    def __repr__(self):
        return '%r%+d' % (self.sym, self.off)


class Agg:
    __slots__ = ('ty', 'var', 'f')

    def __init__(self, ty, var, f):
        self.ty = ty
        self.var = var
        self.f = tuple(f)

    def __eq__(self, o):
        return o.__class__ is Agg and self.var == o.var and self.f == o.f

    def __hash__(self):
        return hash((self.var, self.f))

    def __repr__(self):
        return 'Agg<%s#%s>%r' % (self.ty, self.var, list(self.f))


class Ref:
    __slots__ = ('a', 'p')

    def __init__(self, a, p=()):
        self.a = a
        self.p = p

    def __eq__(self, o):
        return o.__class__ is Ref and self.a == o.a and self.p == o.p

    def __hash__(self):
        return hash((self.a, self.p))

    def __repr__(self):
        return '&%s%s' % (kstr(self.a), list(self.p) if self.p else '')


class FnV:
    __slots__ = ('callee',)

    def __init__(self, callee):
        self.callee = callee

    def __eq__(self, o):
        return o.__class__ is FnV and self.callee['full'] == o.callee['full']

    def __hash__(self):
        return hash(self.callee['full'])

    def __repr__(self):
        return 'fn:' + self.callee['path']


class Text:
    """text value: concatenation of literal strings and text atoms"""
    __slots__ = ('parts',)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, Text):
                for q in p.parts:
                    Text._add(out, q)
            else:
                Text._add(out, p)
        self.parts = tuple(out)

    @staticmethod
    def _add(out, p):
        if isinstance(p, str):
            if not p:
                return
            if out and isinstance(out[-1], str):
                out[-1] += p
                return
        out.append(p)

    def lit(self):
        if not self.parts:
            return ''
        if len(self.parts) == 1 and isinstance(self.parts[0], str):
            return self.parts[0]
        return None

    def __eq__(self, o):
        return o.__class__ is Text and self.parts == o.parts

    def __hash__(self):
        return hash(self.parts)

    def __repr__(self):
        return 'Text%r' % (list(self.parts),)


class Bytes:
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = bytes(b)

    def __eq__(self, o):
        return o.__class__ is Bytes and self.b == o.b

    def __hash__(self):
        return hash(self.b)

    def __repr__(self):
        return 'Bytes%r' % self.b


class Model:
    """base class of abstract library objects (immutable)"""
    def project(self, eng, st, p):
        raise Unsupported('project %r on %s' % (p, type(self).__name__))

    def update(self, eng, st, p, rest, val):
        raise Unsupported('update %r on %s' % (p, type(self).__name__))

    def term(self, st):
        return ('model', repr(self))


UNINIT = ('uninit',)


def kstr(k):
    if isinstance(k, tuple):
        if len(k) >= 2 and k[0] == 'arg':
            return str(k[1])
        if len(k) == 4 and k[0] == 'f':
            return '%s.%s' % (kstr(k[1]), k[3] if k[2] == 0 else '%d:%d' % (k[2], k[3]))
        if len(k) == 2 and k[0] == '*':
            return '*' + kstr(k[1])
        return '(' + ' '.join(kstr(x) for x in k) + ')'
    return str(k)


# ---------------------------------------------------------------- program
class Prog:
    def __init__(self, path):
        self.insts = {}
        self.types = {}
        self.roots = []
        self.consts = {}
        for l in open(path):
            d = json.loads(l)
            if 'inst' in d:
                self.insts[d['inst']] = d
            elif 'ty' in d:
                self.types[d['ty']] = d
            elif 'root' in d:
                self.roots.append(d)
            elif 'const' in d:
                self.consts[d['const']] = d
        self._loops = {}

    def find(self, pred):
        return [r for r in self.roots if pred(r)]

    def loops(self, body):
        k = id(body)
        if k in self._loops:
            return self._loops[k]
        headers = set()
        color = {}
        stack = [(0, iter(succs(body['blocks'][0])))]
        color[0] = 1
        while stack:
            b, it = stack[-1]
            adv = False
            for s in it:
                if color.get(s, 0) == 0:
                    color[s] = 1
                    stack.append((s, iter(succs(body['blocks'][s]))))
                    adv = True
                    break
                elif color[s] == 1:
                    headers.add(s)
            if not adv:
                color[b] = 2
                stack.pop()
        self._loops[k] = headers
        return headers

    def live_at(self, body, bb):
        """locals that may be read from block bb on before being overwritten"""
        k = ('live', id(body))
        if k not in self._loops:
            blocks = body['blocks']
            gen, kill = [], []
            for b in blocks:
                g, d = set(), set()
                for s in b['s']:
                    if s[0] == '=':
                        for u in uses(s[2]) | uses(s[1][1]) | ({s[1][0]} if s[1][1] else set()):
                            if u not in d:
                                g.add(u)
                        if not s[1][1]:
                            d.add(s[1][0])
                t = b['t']
                if t[0] == 'ret':
                    u = {0}
                elif t[0] == 'call':
                    u = uses(t[1]) | uses(t[2]) | ({t[3][0]} if t[3][1] else set())
                elif t[0] in ('switch', 'assert'):
                    u = uses(t[1])
                else:
                    u = set()
                g |= {x for x in u if x not in d}
                if t[0] == 'call' and not t[3][1]:
                    d.add(t[3][0])
                gen.append(g)
                kill.append(d)
            live = [set(g) for g in gen]
            ch = True
            while ch:
                ch = False
                for i in range(len(blocks) - 1, -1, -1):
                    out = set()
                    for s in succs(blocks[i]):
                        out |= live[s]
                    n = gen[i] | (out - kill[i])
                    if n != live[i]:
                        live[i] = n
                        ch = True
            self._loops[k] = live
        return self._loops[k][bb]


def uses(x):
    """locals mentioned in a piece of MIR (places are [local, projections])"""
    out = set()
    if isinstance(x, dict):
        for v in x.values():
            out |= uses(v)
    elif isinstance(x, list):
        if len(x) == 2 and isinstance(x[0], int) and not isinstance(x[0], bool) and isinstance(x[1], list) and all(isinstance(e, list) for e in x[1]):
            out.add(x[0])
            out |= uses(x[1])
        elif len(x) == 2 and x[0] == 'i' and isinstance(x[1], int):
            out.add(x[1])
        else:
            for v in x:
                out |= uses(v)
    return out


def succs(blk):
    t = blk['t']
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [b for _, b in t[2]] + [t[3]]
    if k == 'drop':
        return [t[2]]
    if k == 'call':
        return [t[4]] if t[4] >= 0 else []
    if k == 'assert':
        return [t[4]]
    return []


# ---------------------------------------------------------------- state
class State:
    __slots__ = ('mem', 'bind', 'uf', 'neq', 'lt', 'zone', 'zneq', 'rng', 'events', 'n', 'imprecise', 'x', 'notes')

    def __init__(self):
        self.mem = {}
        self.bind = {}
        self.uf = {}
        self.neq = set()
        self.lt = set()
        self.zone = {}
        self.zneq = set()
        self.rng = {}
        self.events = []
        self.n = 0
        self.imprecise = set()
        self.x = {}
        self.notes = []

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.bind = dict(self.bind)
        s.uf = dict(self.uf)
        s.neq = set(self.neq)
        s.lt = set(self.lt)
        s.zone = dict(self.zone)
        s.zneq = set(self.zneq)
        s.rng = dict(self.rng)
        s.events = list(self.events)
        s.n = self.n
        s.imprecise = set(self.imprecise)
        s.x = dict(self.x)
        s.notes = list(self.notes)
        return s

    def fresh(self, tag='t'):
        self.n += 1
        return (tag, self.n)

    # ---- resolution
    def res(self, v):
        while v.__class__ is Sym:
            b = self.bind.get(v.key)
            if b is None:
                r = self.rep(v.key)
                if r != v.key:
                    c = self.x.get(('repval', r))
                    if c is not None:
                        return c
                    b = self.bind.get(r)
                    if b is not None:
                        v = b
                        continue
                    return Sym(r, v.ty)
                return v
            v = b
        return v

    def rep(self, k):
        uf = self.uf
        while k in uf:
            k = uf[k]
        return k

    def akey(self, v):
        """key of an atom-like value"""
        v = self.res(v)
        if v.__class__ is Sym:
            return self.rep(v.key)
        if isinstance(v, int):
            return ('c', v)
        if v.__class__ is Text:
            while any(p.__class__ is Sym and self.bind.get(p.key).__class__ is Text for p in v.parts):
                v = Text([self.bind[p.key] if p.__class__ is Sym and self.bind.get(p.key).__class__ is Text else p for p in v.parts])
            l = v.lit()
            if l is not None:
                return ('s', l)
            return ('txt',) + tuple(self.akey(p) if not isinstance(p, str) else ('s', p) for p in v.parts)
        if v.__class__ is Lin:
            return ('lin', self.rep(v.sym.key), v.off)
        raise Unsupported('akey %r' % (v,))

    @staticmethod
    def is_const(k):
        return isinstance(k, tuple) and len(k) == 2 and k[0] in ('c', 's')

    # ---- atom equality/order
    def atom_eq(self, ka, kb):
        ka = self.rep(ka)
        kb = self.rep(kb)
        if ka == kb:
            return True
        if self.is_const(ka) and self.is_const(kb):
            return False
        if (ka, kb) in self.neq or (kb, ka) in self.neq:
            return False
        if self.reach(ka, kb) or self.reach(kb, ka):
            return False
        return None

    def reach(self, a, b):
        seen = set()
        todo = [a]
        while todo:
            x = todo.pop()
            for (p, q) in self.lt:
                if p == x and q not in seen:
                    if q == b:
                        return True
                    seen.add(q)
                    todo.append(q)
        return False

    def merge(self, ka, kb):
        ka = self.rep(ka)
        kb = self.rep(kb)
        if ka == kb:
            return
        if self.atom_eq(ka, kb) is False:
            raise Infeasible()
        # constants and older (argument) atoms become representatives
        if self.is_const(ka) or (not self.is_const(kb) and self.rank(ka) <= self.rank(kb)):
            ka, kb = kb, ka
        self.uf[ka] = kb          # ka -> kb
        if kb[0] == 'c':
            self.x[('repval', kb)] = kb[1]
        elif kb[0] == 's':
            self.x[('repval', kb)] = Text([kb[1]])
        if ka in self.bind and kb not in self.bind:
            self.bind[kb] = self.bind.pop(ka)
        self.neq = {tuple(kb if z == ka else z for z in p) for p in self.neq}
        self.lt = {tuple(kb if z == ka else z for z in p) for p in self.lt}
        for p in self.neq:
            if p[0] == p[1]:
                raise Infeasible()
        for p in self.lt:
            if p[0] == p[1]:
                raise Infeasible()
        if self.reach(kb, kb):
            raise Infeasible()

    def decided_neq(self, ka, kb):
        return self.atom_eq(ka, kb) is False

    def rank(self, k):
        return len(repr(k))

    def add_neq(self, ka, kb):
        ka = self.rep(ka)
        kb = self.rep(kb)
        if ka == kb:
            raise Infeasible()
        self.neq.add((ka, kb))

    def add_lt(self, ka, kb):
        ka = self.rep(ka)
        kb = self.rep(kb)
        if ka == kb or self.reach(kb, ka):
            raise Infeasible()
        self.lt.add((ka, kb))

    def whole_ids(self, ka, kb):
        """identifiers all start with the same two characters: comparing what follows is comparing them"""
        while ka[:1] == ('sub',) and kb[:1] == ('sub',) and self.x.get(('idtail', ka)) and self.x.get(('idtail', kb)):
            ka, kb = ka[1], kb[1]
        return ka, kb

    def decide_atom_eq(self, ka, kb):
        ka, kb = self.whole_ids(ka, kb)
        r = self.atom_eq(ka, kb)
        if r is None:
            raise NeedFork([lambda s: s.merge(ka, kb), lambda s: s.add_neq(ka, kb)])
        return r

    def decide_atom_cmp(self, ka, kb):
        ka, kb = self.whole_ids(ka, kb)
        ka = self.rep(ka)
        kb = self.rep(kb)
        if ka == kb:
            return 0
        if self.is_const(ka) and self.is_const(kb):
            return -1 if ka[1] < kb[1] else 1
        if self.reach(ka, kb):
            return -1
        if self.reach(kb, ka):
            return 1
        opts = [lambda s: s.add_lt(ka, kb)]
        if self.atom_eq(ka, kb) is None:
            opts.append(lambda s: s.merge(ka, kb))
        opts.append(lambda s: s.add_lt(kb, ka))
        raise NeedFork(opts)

    # ---- integers: difference bounds (zones)
    def lin(self, v):
        """-> (symkey or None, offset)"""
        v = self.res(v)
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            return (None, v)
        if v.__class__ is Sym:
            return (self.rep(v.key), 0)
        if v.__class__ is Lin:
            b = self.res(v.sym)
            if isinstance(b, int):
                return (None, b + v.off)
            if b.__class__ is Lin:
                return (self.rep(b.sym.key), b.off + v.off)
            return (self.rep(b.key), v.off)
        raise Unsupported('lin %r' % (v,))

    def zkeys(self):
        ks = set()
        for a, b in self.zone:
            ks.add(a)
            ks.add(b)
        return ks

    def bound(self, a, b):
        """best known c with a-b<=c, or None; keys (None = zero, syms >= 0)"""
        if a == b:
            return 0
        # Bellman-Ford style from a to b over edges (x,y):c meaning x-y<=c
        dist = {a: 0}
        todo = collections.deque([a])
        cnt = 0
        out = {}
        for (p, y), c in self.zone.items():
            out.setdefault(self.rep0(p), []).append((y, c))
        while todo:
            x = todo.popleft()
            cnt += 1
            if cnt > 4000:
                break
            edges = out.get(x, ())
            if x is None:
                # zero - y <= 0 for every unsigned sym y
                edges = list(edges)
                for y in self.zkeys() | {b}:
                    if y is not None and self.is_unsigned(y):
                        edges.append((y, 0))
            for y, c in edges:
                y = self.rep0(y)
                d = dist[x] + c
                if y not in dist or d < dist[y]:
                    dist[y] = d
                    todo.append(y)
        return dist.get(b)

    def rep0(self, k):
        return None if k is None else self.rep(k)

    def is_unsigned(self, k):
        return True

    def add_le(self, a, b, c):
        """a - b <= c"""
        a = self.rep0(a)
        b = self.rep0(b)
        if a == b:
            if c < 0:
                raise Infeasible()
            return
        back = self.bound(b, a)
        if back is not None and back + c < 0:
            raise Infeasible()
        old = self.zone.get((a, b))
        if old is None or c < old:
            self.zone[(a, b)] = c
        if back is not None and back + c == 0 and not (a is None or b is None):
            # a - b == c exactly
            if c == 0:
                self.zmerge(a, b)
                return
        if (a is None or b is None) and back is not None and back + c == 0:
            k = a if b is None else b
            val = c if b is None else -c
            self.merge(k, ('c', val))
        for (x, y, d) in list(self.zneq):
            self.znorm(x, y, d)

    def zmerge(self, a, b):
        self.merge(a, b)

    def znorm(self, x, y, d):
        # x - y != d : infeasible if x - y == d is implied
        x = self.rep0(x)
        y = self.rep0(y)
        if x == y:
            if d == 0:
                raise Infeasible()
            return
        u = self.bound(x, y)
        l = self.bound(y, x)
        if u is not None and l is not None and u == d and l == -d:
            raise Infeasible()

    def int_rel(self, a, b):
        """returns (lo, hi) bounds on a-b (None = unbounded), and forbidden set"""
        (sa, oa), (sb, ob) = self.lin(a), self.lin(b)
        if sa == sb:
            return oa - ob, oa - ob
        u = self.bound(sa, sb)
        l = self.bound(sb, sa)
        hi = None if u is None else u + oa - ob
        lo = None if l is None else -l + oa - ob
        return lo, hi

    def int_neq_known(self, a, b):
        (sa, oa), (sb, ob) = self.lin(a), self.lin(b)
        d = ob - oa       # a==b iff sa - sb == d
        for (x, y, e) in self.zneq:
            x, y = self.rep0(x), self.rep0(y)
            if (x, y, e) == (sa, sb, d) or (x, y, e) == (sb, sa, -d):
                return True
        if d == 0 and sa is not None and sb is not None and ((sa, sb) in self.neq or (sb, sa) in self.neq):
            return True
        return False

    def try_int(self, op, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return {'lt': a < b, 'le': a <= b, 'eq': a == b}[op]
        lo, hi = self.int_rel(a, b)
        if op == 'lt':
            if hi is not None and hi < 0:
                return True
            if lo is not None and lo >= 0:
                return False
            if lo is None and hi is None:
                return None
            if hi == 0 and self.int_neq_known(a, b):
                return True
            return None
        if op == 'le':
            r = self.try_int('lt', b, a)
            return None if r is None else not r
        if op == 'eq':
            if lo is not None and lo == hi == 0:
                return True
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return False
            if self.int_neq_known(a, b):
                return False
            return None

    def assume_int(self, op, a, b, truth=True):
        (sa, oa), (sb, ob) = self.lin(a), self.lin(b)
        if op == 'lt':
            if truth:
                self.add_le(sa, sb, ob - oa - 1)
            else:
                self.add_le(sb, sa, oa - ob)
        elif op == 'le':
            if truth:
                self.add_le(sa, sb, ob - oa)
            else:
                self.add_le(sb, sa, oa - ob - 1)
        elif op == 'eq':
            if truth:
                if sa is not None and sb is not None and oa == ob:
                    if self.int_neq_known(a, b):
                        raise Infeasible()
                self.add_le(sa, sb, ob - oa)
                (sa, oa), (sb, ob) = self.lin(a), self.lin(b)
                if sa != sb:
                    self.add_le(sb, sa, oa - ob)
            else:
                if self.try_int('eq', a, b) is True:
                    raise Infeasible()
                self.zneq.add((sa, sb, ob - oa))

    def decide_int(self, op, a, b):
        a = self.res(a)
        b = self.res(b)
        # character / byte ranges
        r = self._decide_rng(op, a, b)
        if r is not None:
            return r
        r = self.try_int(op, a, b)
        if r is None:
            raise NeedFork([lambda s: s.assume_int(op, a, b, True), lambda s: s.assume_int(op, a, b, False)])
        return r

    def decide_int_cmp(self, a, b):
        if self.decide_int('lt', a, b):
            return -1
        if self.decide_int('eq', a, b):
            return 0
        return 1

    # ---- character ranges
    def get_rng(self, key):
        return self.rng.get(self.rep(key))

    def set_rng(self, key, r):
        if not r:
            raise Infeasible()
        key = self.rep(key)
        self.rng[key] = r
        if len(r) == 1 and r[0][0] == r[0][1]:
            self.bind[key] = r[0][0]

    def _decide_rng(self, op, a, b):
        if a.__class__ is Sym and isinstance(b, int) and self.get_rng(a.key) is not None:
            r = self.get_rng(a.key)
            if op == 'lt':
                t = rint(r, [(0, b - 1)])
            elif op == 'le':
                t = rint(r, [(0, b)])
            else:
                t = rint(r, [(b, b)])
        elif b.__class__ is Sym and isinstance(a, int) and self.get_rng(b.key) is not None:
            r = self.get_rng(b.key)
            if op == 'lt':
                t = rint(r, [(a + 1, 1 << 40)])
            elif op == 'le':
                t = rint(r, [(a, 1 << 40)])
            else:
                t = rint(r, [(a, a)])
            a = b
        else:
            return None
        f = rsub(r, t)
        if not f:
            return True
        if not t:
            return False
        k = a.key
        raise NeedFork([lambda s: s.set_rng(k, t), lambda s: s.set_rng(k, f)])

    def decide_in(self, sym, cls):
        sym = self.res(sym)
        if isinstance(sym, int):
            return any(l <= sym <= h for l, h in cls)
        r = self.get_rng(sym.key)
        if r is None:
            raise Unsupported('class test on unranged symbol')
        t = rint(r, cls)
        f = rsub(r, cls)
        if not f:
            return True
        if not t:
            return False
        k = sym.key
        raise NeedFork([lambda s: s.set_rng(k, t), lambda s: s.set_rng(k, f)])

    def note(self, m):
        self.notes.append(m)


def rint(a, b):
    out = []
    for l, h in a:
        for x, y in b:
            p, q = max(l, x), min(h, y)
            if p <= q:
                out.append((p, q))
    return sorted(out)


def rsub(a, b):
    out = list(a)
    for x, y in b:
        nxt = []
        for l, h in out:
            if y < l or x > h:
                nxt.append((l, h))
                continue
            if l < x:
                nxt.append((l, x - 1))
            if h > y:
                nxt.append((y + 1, h))
        out = nxt
    return sorted(out)


CHAR_ALL = [(0, 0xD7FF), (0xE000, 0x10FFFF)]

INTR = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128, 'isize': 64, 'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64}


# ---------------------------------------------------------------- interpreter
class Outcome:
    __slots__ = ('st', 'kind', 'val')

    def __init__(self, st, kind, val):
        self.st = st
        self.kind = kind      # 'ret' | 'panic' | 'unsup'
        self.val = val


class Call:
    __slots__ = ('args', 'dty', 'callee', 'line', 'name', 'inst', 'used', 'depth')

    def __init__(self, args, dty, callee, line=0, inst=None):
        self.args = args
        self.dty = dty
        self.callee = callee
        self.line = line
        self.inst = inst
        self.used = True
        self.depth = 0
        self.name = callee.get('rpath') or callee['path']


class Engine:
    def __init__(self, prog, models=None):
        self.p = prog
        self.models = models or {}
        self.rxmodels = []
        self.uninterp = set()        # explicit uninterpreted paths
        self.steps = 0
        self.max_steps = 400000
        self.max_depth = 120
        self.visited = set()
        self.unroll = 40
        self.loop_hook = None
        self.cache = {}
        self.sites = {}
        self.pre_call = None
        self.dest_used = True
        self.provided = True
        self.fn_cover = set()

    # ---- types
    def ty(self, t):
        return self.p.types[t]

    def tdef(self, t):
        return self.p.types[t].get('def')

    def is_ref(self, t):
        return t is not None and self.p.types[t]['k'] in ('ref', 'ptr')

    def variant(self, tyid, name):
        for i, v in enumerate(self.p.types[tyid]['v']):
            if v['n'] == name:
                return i
        raise KeyError(name)

    def mk(self, tyid, vname, *f):
        return Agg(tyid, self.variant(tyid, vname), f)

    def unit(self):
        return Agg(None, 0, ())

    def fmt_result_ty(self):
        if 'fmtres' not in self.cache:
            self.cache['fmtres'] = next(i for i, t in self.p.types.items() if t['s'] == 'std::result::Result<(), std::fmt::Error>')
        return self.cache['fmtres']

    def some(self, t, v):
        return self.mk(t, 'Some', v)

    def none(self, t):
        return self.mk(t, 'None')

    def ordering_ty(self):
        for k, t in self.p.types.items():
            if t['k'] == 'adt' and t['def'] == 'std::cmp::Ordering':
                return k

    def ordering(self, t, c):
        return Agg(t, {-1: 0, 0: 1, 1: 2}[c], ())

    def sym(self, key, t):
        k = self.p.types[t]['k'] if t is not None else None
        return Sym(key, t)

    # ---- expansion of symbolic values
    def expand(self, st, v, var=0):
        """symbolic struct/tuple/closure (or enum variant var) -> Agg"""
        t = self.p.types.get(v.ty) if v.ty is not None else None
        if t is None:
            raise Unsupported('expand untyped %r' % v)
        if t['k'] == 'adt':
            if not t['local'] and not t['def'].startswith(OPEN_ADTS):
                raise Unsupported('expand library type %s' % t['def'])
            fs = t['v'][var]['f']
            a = Agg(v.ty, var, [self.fresh_field(st, v, var, i, ft) for i, (_, ft) in enumerate(fs)])
        elif t['k'] in ('tuple', 'closure'):
            a = Agg(v.ty, 0, [self.fresh_field(st, v, 0, i, ft) for i, ft in enumerate(t['f'])])
        else:
            raise Unsupported('expand %s (%r)' % (t['s'], v))
        st.bind[v.key] = a
        return a

    def fresh_field(self, st, v, var, i, ft):
        s = Sym(('f', v.key, var, i), ft)
        if self.p.types[ft]['k'] == 'char' and st.get_rng(s.key) is None and s.key not in st.bind:
            st.rng[s.key] = CHAR_ALL
        return s

    def new_char(self, st, key, t=None, rng=None):
        s = Sym(key, t)
        st.rng[key] = rng or CHAR_ALL
        return s

    def deref_sym(self, st, v):
        """symbolic reference -> Ref to a materialised cell"""
        t = self.p.types.get(v.ty) if v.ty is not None else None
        if t is not None and t['k'] == 'adt' and t['def'].endswith('boxed::Box'):
            to = t['ga'][0]
        elif t is None or t['k'] not in ('ref', 'ptr'):
            raise Unsupported('deref of %r: %s' % (v, t and t['s']))
        else:
            to = t['to']
        a = ('*', v.key)
        if a not in st.mem:
            st.mem[a] = self.fresh_cell(st, Sym(('*', v.key), to))
        r = Ref(a)
        st.bind[v.key] = r
        return r

    def fresh_cell(self, st, s):
        t = self.p.types.get(s.ty)
        if t is not None and t['k'] == 'char':
            st.rng[s.key] = CHAR_ALL
        return s

    def is_text_ty(self, t):
        if t is None:
            return False
        d = self.p.types[t]
        if d['k'] == 'str':
            return True
        return d['k'] == 'adt' and d['def'] in TEXT_ADTS

    def project(self, st, v, p):
        v = st.res(v)
        if isinstance(v, Model):
            return v.project(self, st, p)
        if isinstance(p, tuple):
            if p[0] == 'd':
                if v.__class__ is Sym:
                    return self.expand(st, v, p[1])
                if v.__class__ is Agg and v.var != p[1]:
                    raise Infeasible()
                return v
            if p[0] == 'i':
                if v.__class__ is Agg:
                    if isinstance(p[1], int) and p[1] < len(v.f):
                        return v.f[p[1]]
                    raise Unsupported('index')
                if v.__class__ is Bytes and isinstance(p[1], int):
                    return v.b[p[1]]
                raise Unsupported('index on %r' % (v,))
            raise Unsupported('proj %r' % (p,))
        if v.__class__ is Sym:
            if self.is_text_ty(v.ty):
                return v
            v = self.expand(st, v)
        if v.__class__ is Agg:
            if p >= len(v.f):
                raise Unsupported('field %d of %r' % (p, v))
            return v.f[p]
        if v.__class__ is Text or v.__class__ is Bytes:
            return v
        if v.__class__ is Ref and p == 0:
            return v          # transparent pointer wrappers
        raise Unsupported('field %r of %r' % (p, v))

    def read(self, st, a, proj):
        if a not in st.mem:
            raise Unsupported('read of unknown cell %r' % (a,))
        v = st.res(st.mem[a])
        for p in proj:
            v = st.res(self.project(st, v, p))
        return v

    def load(self, st, r):
        r = st.res(r)
        if r.__class__ is Sym:
            r = self.deref_sym(st, r)
        if r.__class__ is not Ref:
            raise Unsupported('load of %r' % (r,))
        return self.read(st, r.a, r.p)

    def upd(self, st, v, proj, val):
        if not proj:
            return val
        v = st.res(v)
        p = proj[0]
        if isinstance(v, Model):
            return v.update(self, st, p, proj[1:], val)
        if isinstance(p, tuple):
            if p[0] == 'd':
                if v.__class__ is Sym:
                    v = self.expand(st, v, p[1])
                return self.upd(st, v, proj[1:], val)
            if p[0] == 'i' and v.__class__ is Agg:
                fs = list(v.f)
                fs[p[1]] = self.upd(st, fs[p[1]], proj[1:], val)
                return Agg(v.ty, v.var, fs)
            raise Unsupported('upd %r' % (p,))
        if v.__class__ is Sym:
            if self.is_text_ty(v.ty):
                return self.upd(st, v, proj[1:], val)
            v = self.expand(st, v)
        if v.__class__ is Text:
            return self.upd(st, v, proj[1:], val)
        if v == UNINIT:
            v = Agg(None, 0, [UNINIT] * (p + 1))
        if v.__class__ is Agg:
            fs = list(v.f)
            while len(fs) <= p:
                fs.append(UNINIT)
            fs[p] = self.upd(st, fs[p], proj[1:], val)
            return Agg(v.ty, v.var, fs)
        raise Unsupported('upd field of %r' % (v,))

    def write(self, st, a, proj, val):
        if not proj:
            st.mem[a] = val
            return
        st.mem[a] = self.upd(st, st.mem.get(a, UNINIT), proj, val)

    def store(self, st, r, val):
        r = st.res(r)
        if r.__class__ is Sym:
            r = self.deref_sym(st, r)
        self.write(st, r.a, r.p, val)

    def box(self, st, val, tag='cell'):
        a = st.fresh(tag)
        st.mem[a] = val
        return Ref(a)

    # ---- semantic terms (references erased, text wrappers erased)
    def term(self, st, v, depth=0):
        if depth > 40:
            raise Unsupported('term depth')
        v = st.res(v)
        c = v.__class__
        if c is Sym:
            t = self.p.types.get(v.ty) if v.ty is not None else None
            if t is not None and t['k'] in ('ref', 'ptr'):
                return self.term(st, self.load(st, v), depth + 1)
            if t is not None and t['k'] == 'tuple' and not t['f']:
                return ('()',)
            return st.rep(v.key)
        if isinstance(v, int):
            return ('c', int(v))
        if c is Text:
            return st.akey(v)
        if c is Lin:
            return st.akey(v)
        if c is Ref:
            return self.term(st, self.read(st, v.a, v.p), depth + 1)
        if c is Agg:
            if v.ty is None:
                return ('()',) + tuple(self.term(st, x, depth + 1) for x in v.f)
            t = self.p.types[v.ty]
            if t['k'] == 'adt':
                if t['def'] in ERASED_ADTS and len(v.f) == 1:
                    return self.term(st, v.f[0], depth + 1)
                if t['def'] in COW_ADTS:
                    return self.term(st, v.f[0], depth + 1)
                return (t['def'], t['v'][v.var]['n']) + tuple(self.term(st, x, depth + 1) for x in v.f)
            return ('()',) + tuple(self.term(st, x, depth + 1) for x in v.f)
        if c is FnV:
            return ('fn', v.callee.get('rfull') or v.callee['full'])
        if c is Bytes:
            return ('b', v.b)
        if isinstance(v, Model):
            return v.term(st)
        if v == UNINIT:
            return ('uninit',)
        raise Unsupported('term %r' % (v,))

    # ---- operands
    def place(self, st, fr, pl):
        a = (fr, pl[0])
        proj = ()
        for e in pl[1]:
            k = e[0]
            if k == 'f':
                proj = proj + (e[1],)
            elif k == '*':
                r = self.read(st, a, proj)
                if r.__class__ is Sym:
                    r = self.deref_sym(st, r)
                if r.__class__ is not Ref:
                    if isinstance(r, Model):
                        raise Unsupported('deref model %r' % r)
                    raise Unsupported('deref %r' % (r,))
                a, proj = r.a, r.p
            elif k == 'd':
                proj = proj + (('d', e[1]),)
            elif k == 'i':
                i = st.res(st.mem[(fr, e[1])])
                proj = proj + (('i', i),)
            elif k == 'c':
                if e[3]:
                    raise Unsupported('from_end index')
                proj = proj + (('i', e[1]),)
            else:
                raise Unsupported('place elem %s' % k)
        return a, proj

    def operand(self, st, fr, o, inst):
        k = o['o']
        if k == 'k':
            return self.const(st, o['k'], inst)
        a, proj = self.place(st, fr, o['p'])
        v = self.read(st, a, proj)
        return v

    def const(self, st, k, inst):
        c = k['c']
        if c == 'zst':
            return self.zst(k['t'])
        if c == 'int':
            return self.intconst(k['v'], k['t'])
        if c == 'agg':
            return Agg(k['t'], k['var'], [self.const(st, f, inst) for f in k['f']])
        if c == 'str':
            a = ('str', k['v'])
            st.mem[a] = Text([k['v']])
            return Ref(a)
        if c == 'fn' or c == 'fnptr':
            return FnV(k['callee'])
        if c == 'promoted':
            a = ('prom', k['owner'], k['i'])
            if a in st.mem:
                return st.mem[a]
            pb = self.p.insts[k['owner']]['promoted'][k['i']]
            if pb is None:
                raise Unsupported('promoted')
            outs = self.run_body(st, self.p.insts[k['owner']], pb, [], 0, keep=True)
            if len(outs) != 1 or outs[0].kind != 'ret':
                raise Unsupported('promoted forks')
            o = outs[0]
            st.mem = o.st.mem
            st.n = o.st.n
            st.bind = o.st.bind
            st.mem[a] = o.val
            return o.val
        if c == 'refbytes':
            t = self.p.types[k['t']]
            to = self.p.types[t['to']] if 'to' in t else None
            a = ('bytes', bytes(k['b']), k['t'])
            if a not in st.mem:
                v = Bytes(k['b'])
                if to is not None and to['k'] not in ('slice', 'array', 'str'):
                    v = self.decode(k['b'], t['to'])
                st.mem[a] = v
            return Ref(a)
        if c == 'bytes':
            return self.decode(k['b'], k['t'])
        if c == 'rtc':
            return 0
        if c == 'generic':
            return Sym(('const', k['s']), k['t'])
        if c == 'unk':
            return Sym(('const', k.get('name', '?%d' % k['t'])), k['t'])
        raise Unsupported('const %s' % c)

    def intconst(self, v, t):
        ty = self.p.types[t]
        if ty['k'] == 'adt':
            # scalar-represented aggregate: newtype around an integer or fieldless enum
            if ty['kind'] == 'enum':
                plain = all(not x['f'] for x in ty['v'])
                for i, x in enumerate(ty['v'] if plain else ()):
                    if x['d'] == v:
                        return Agg(t, i, ())
                # unsigned view of negative discriminants
                for i, x in enumerate(ty['v'] if plain else ()):
                    if x['d'] & 0xff == v & 0xff:
                        return Agg(t, i, ())
                if not plain and all(self.p.types[f[1]]['k'] == 'tuple' and not self.p.types[f[1]].get('f') for x in ty['v'] for f in x['f']):
                    for i, x in enumerate(ty['v']):
                        if x['d'] == v:
                            return Agg(t, i, [Agg(f[1], 0, ()) for f in x['f']])
                if len(ty['v']) and ty['def'].endswith('option::Option'):
                    f = ty['v'][1]['f'][0][1]
                    ft = self.p.types[f]
                    if ft['k'] == 'adt' and ft['def'].endswith('cmp::Ordering'):
                        m = {255: -1, -1: -1, 0: 0, 1: 1}
                        if v in m:
                            return Agg(t, 1, [self.ordering(f, m[v])])
                        return Agg(t, 0, ())
                    if ft['k'] in ('bool',):
                        return Agg(t, 0, ()) if v == 2 else Agg(t, 1, [v])
                    if ft['k'] == 'char':
                        return Agg(t, 0, ()) if v == 0x110000 else Agg(t, 1, [v])
                    if v == 0 and (ft['k'] in ('ref', 'ptr') or (ft['k'] == 'adt' and ft['def'].endswith('boxed::Box'))):
                        return Agg(t, 0, ())
                raise Unsupported('constant %d of type %s' % (v, ty['s']))
            fs = ty['v'][0]['f']
            nz = [i for i, (n, ft) in enumerate(fs)]
            if len(fs) == 1:
                return Agg(t, 0, [self.intconst(v, fs[0][1])])
            return Sym(('const', ty['s'], v), t)
        return v

    def decode(self, b, t):
        ty = self.p.types[t]
        if ty['k'] in ('int', 'uint', 'bool', 'char'):
            return int.from_bytes(bytes(b), 'little', signed=ty['k'] == 'int')
        if ty['k'] == 'tuple' and not ty['f']:
            return self.unit()
        if ty['k'] == 'array':
            return Bytes(b)
        if ty['k'] == 'adt' and ty['kind'] == 'enum' and all(not v['f'] for v in ty['v']) and len(b) == 1:
            for i, v in enumerate(ty['v']):
                if v['d'] & 0xff == b[0]:
                    return Agg(t, i, ())
        return Sym(('constbytes', bytes(b), ty['s']), t)

    def zst(self, t):
        ty = self.p.types[t]
        if ty['k'] == 'fndef':
            return FnV(ty['callee'])
        if ty['k'] == 'adt' and ty['kind'] != 'enum':
            return Agg(t, 0, [self.zst(f) for _, f in ty['v'][0]['f']])
        if ty['k'] in ('tuple', 'closure'):
            return Agg(t, 0, [self.zst(f) for f in ty['f']])
        if ty['k'] == 'adt' and len(ty['v']) == 1:
            return Agg(t, 0, [self.zst(f) for _, f in ty['v'][0]['f']])
        if ty['k'] == 'array':
            return Agg(t, 0, ())
        return Sym(('zst', ty['s']), t)

    # ---- discriminants
    def variant_of(self, st, v):
        v = st.res(v)
        if v.__class__ is Agg:
            return v.ty, v.var
        if isinstance(v, Model) and hasattr(v, 'variant_of'):
            return v.variant_of(self, st)
        if v.__class__ is Sym and v.ty is not None and self.p.types[v.ty]['k'] == 'adt':
            vs = self.p.types[v.ty]['v']
            if len(vs) == 1:
                self.expand(st, v, 0)
                return v.ty, 0
            forb = st.x.get(('novar', v.key), ())

            def opt(i):
                def f(s):
                    self.expand(s, v, i)
                return f
            raise NeedFork([opt(i) for i in range(len(vs)) if i not in forb and not self.uninhabited(vs[i])])
        raise Unsupported('discriminant of %r' % (v,))

    def uninhabited(self, var):
        for _, t in var['f']:
            ty = self.p.types[t]
            if ty['k'] == 'never' or (ty['k'] == 'adt' and ty['kind'] == 'enum' and not ty['v']):
                return True
        return False

    def discr(self, st, v):
        t, i = self.variant_of(st, v)
        ty = self.p.types[t]
        if ty['k'] == 'adt' and ty['kind'] == 'enum':
            return ty['v'][i]['d']
        return 0

    # ---- truth
    def truth(self, st, v):
        v = st.res(v)
        if isinstance(v, int):
            return bool(v)
        if v.__class__ is Sym:
            def opt(b):
                def f(s):
                    s.bind[v.key] = b
                return f
            raise NeedFork([opt(1), opt(0)])
        raise Unsupported('truth %r' % (v,))

    # ---- rvalues
    def rvalue(self, st, fr, r, inst):
        k = r[0]
        if k == 'use':
            return self.operand(st, fr, r[1], inst)
        if k == 'ref':
            a, proj = self.place(st, fr, r[2])
            return Ref(a, proj)
        if k == 'addr':
            a, proj = self.place(st, fr, r[1])
            return Ref(a, proj)
        if k == 'agg':
            vals = [self.operand(st, fr, o, inst) for o in r[5]]
            if r[1] in ('tuple', 'array', 'adt', 'closure'):
                if r[1] == 'adt' and r[4] >= 0:
                    raise Unsupported('union')
                if r[1] == 'adt':
                    d = self.p.types[r[2]]
                return Agg(r[2], r[3], vals)
            raise Unsupported('aggregate ' + r[1])
        if k == 'discr':
            a, proj = self.place(st, fr, r[1])
            if a not in st.mem and not proj:
                return 0        # a local that is never assigned: what is left of an assumption after optimisation
            return self.discr(st, self.read(st, a, proj))
        if k == 'bin':
            return self.binop(st, r[1], self.operand(st, fr, r[2], inst), self.operand(st, fr, r[3], inst), r[4])
        if k == 'un':
            v = st.res(self.operand(st, fr, r[2], inst))
            if r[1] == 'Not':
                if self.p.types[r[3]]['k'] == 'bool':
                    return int(not self.truth(st, v))
                if isinstance(v, int):
                    w = INTR[self.p.types[r[3]]['name']]
                    return (~v) & ((1 << w) - 1)
            if r[1] == 'Neg' and isinstance(v, int):
                return -v
            if r[1] == 'PtrMetadata':
                return self.ptr_meta(st, v)
            raise Unsupported('unop ' + r[1])
        if k == 'cast':
            return self.cast(st, r[1], self.operand(st, fr, r[2], inst), r[3], r[4])
        if k == 'repeat':
            v = self.operand(st, fr, r[1], inst)
            if 0 <= r[2] <= 256:
                return Agg(None, 0, [v] * r[2])
        raise Unsupported('rvalue ' + k)

    def ptr_meta(self, st, v):
        w = self.load(st, v)
        if w.__class__ is Agg:
            return len(w.f)
        if w.__class__ is Text and w.lit() is not None:
            return len(w.lit().encode())
        if w.__class__ is Bytes:
            return len(w.b)
        return Sym(('len', self.term(st, w)))

    def cast(self, st, kind, v, t, src):
        v = st.res(v)
        ty = self.p.types[t]
        if kind.startswith('IntToInt'):
            if isinstance(v, int):
                if ty['k'] in ('uint', 'int'):
                    w = INTR[ty['name']]
                    x = v & ((1 << w) - 1)
                    if ty['k'] == 'int' and x >> (w - 1):
                        x -= 1 << w
                    return x
                return v
            if v.__class__ is Agg:
                return self.discr(st, v)
            if v.__class__ is Sym:
                sk = self.p.types[src]
                if sk['k'] == 'char' and ty['k'] in ('uint', 'int') and INTR[ty['name']] >= 32:
                    return v
                if sk['k'] in ('uint',) and ty['k'] in ('uint', 'int') and INTR[ty['name']] >= INTR[sk['name']]:
                    return v
                r = st.get_rng(v.key)
                if r is not None and ty['k'] == 'uint':
                    m = (1 << INTR[ty['name']]) - 1
                    if st.decide_in(v, [(0, m)]):
                        return v
            return Sym(('cast', ty['s'], st.akey(v)), t)
        if 'FloatTo' in kind or 'ToFloat' in kind or 'IntToFloat' in kind:
            return Sym(('cast', ty['s'], self.term(st, v)), t)
        # pointer casts, unsizing, transmutes between transparent wrappers
        return v

    def binop(self, st, op, a, b, t):
        a = st.res(a)
        b = st.res(b)
        if isinstance(a, Model) and hasattr(a, 'binop'):
            return a.binop(self, st, op, a, b)
        if (a.__class__ is Len or b.__class__ is Len) and op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            # the sequences explored stand for longer ones: a fixed size beyond them is one they reach
            a, b = (2 if x.__class__ is int and x > 15 and y.__class__ is Len else x for x, y in ((a, b), (b, a)))
        if op in ('Eq', 'Ne'):
            r = self.scalar_eq(st, a, b)
            return int(r) if op == 'Eq' else int(not r)
        if op == 'Lt':
            return int(st.decide_int('lt', a, b))
        if op == 'Ge':
            return int(not st.decide_int('lt', a, b))
        if op == 'Le':
            return int(st.decide_int('le', a, b))
        if op == 'Gt':
            return int(not st.decide_int('le', a, b))
        ty = self.p.types[t]
        if ty['k'] == 'bool' and op in ('BitAnd', 'BitOr', 'BitXor'):
            if isinstance(a, int) and isinstance(b, int):
                pass
            else:
                if op == 'BitAnd' and (a == 0 or b == 0) and (isinstance(a, int) or isinstance(b, int)):
                    return 0
                a = int(self.truth(st, a))
                b = int(self.truth(st, b))
        if op == 'Cmp':
            return self.ordering(self.ordering_ty(), st.decide_int_cmp(a, b))
        if isinstance(a, int) and isinstance(b, int):
            base = op.replace('Unchecked', '').replace('WithOverflow', '')
            try:
                x = {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mul': lambda: a * b, 'BitAnd': lambda: a & b, 'BitOr': lambda: a | b, 'BitXor': lambda: a ^ b,
                     'Shl': lambda: a << b, 'Shr': lambda: a >> b, 'Div': lambda: a // b, 'Rem': lambda: a % b}[base]()
            except KeyError:
                raise Unsupported('binop ' + op)
            except ZeroDivisionError:
                raise Panic('division by zero')
            w = INTR.get(ty.get('name'), 64) if ty['k'] in ('int', 'uint') else 1
            o = x
            if ty['k'] in ('int', 'uint'):
                x &= (1 << w) - 1
                if ty['k'] == 'int' and x >> (w - 1):
                    x -= 1 << w
            if 'WithOverflow' in op:
                return Agg(None, 0, [x, int(o != x)])
            return x
        if op in ('Add', 'AddUnchecked', 'Sub', 'SubUnchecked') and ty['k'] in ('uint', 'int'):
            return self.linadd(st, a, b, -1 if op.startswith('Sub') else 1)
        if op in ('AddWithOverflow', 'SubWithOverflow') and ty['k'] in ('uint', 'int'):
            return Agg(None, 0, [self.linadd(st, a, b, -1 if op.startswith('Sub') else 1), 0])
        if op == 'Cmp':
            return self.ordering(self.ordering_ty(), st.decide_int_cmp(a, b))
        return Sym(('op', op, self.term(st, a), self.term(st, b)), t)

    def linadd(self, st, a, b, sign):
        (sa, oa), (sb, ob) = st.lin(a), st.lin(b)
        if sb is None:
            o = oa + sign * ob
            s = sa
        elif sa is None and sign == 1:
            o = oa + ob
            s = sb
        elif sa == sb and sign == -1:
            return oa - ob
        else:
            return Sym(('op', 'Add' if sign > 0 else 'Sub', self.term(st, a), self.term(st, b)))
        if s is None:
            return o
        if o == 0:
            return Sym(s)
        return Lin(Sym(s), o)

    def scalar_eq(self, st, a, b):
        if a.__class__ is Ref and b.__class__ is Ref:
            return a == b
        if a.__class__ is Agg or b.__class__ is Agg:
            ta, va = self.variant_of(st, a)
            tb, vb = self.variant_of(st, b)
            return va == vb
        return st.decide_int('eq', a, b)

    # ---- running
    def run(self, st, inst_id, args, depth=0):
        inst = self.p.insts[inst_id]
        if 'body' not in inst:
            raise Unsupported('no body for ' + inst['path'])
        self.fn_cover.add(inst['path'])
        return self.run_body(st, inst, inst['body'], args, depth)

    def run_body(self, st, inst, body, args, depth, keep=False):
        if depth > self.max_depth:
            raise Unsupported('depth')
        fr = st.fresh('fr')
        if body['args'] != len(args):
            # spread argument (rust-call)
            if inst.get('spread', -1) >= 0 and len(args) > body['args']:
                n = body['args'] - 1
                args = list(args[:n]) + [Agg(None, 0, args[n:])]
            else:
                raise Unsupported('arity of %s: %d vs %d' % (inst['path'], body['args'], len(args)))
        for i, a in enumerate(args):
            st.mem[(fr, i + 1)] = a
        if self.loop_hook is not None:
            st.x[('locals', fr)] = body['locals']
        blocks = body['blocks']
        headers = self.p.loops(body)
        outs = []
        work = [(st, 0, 0, {})]
        while work:
            st, bb, si, vis = work.pop()
            try:
                while True:
                    self.steps += 1
                    if self.steps > self.max_steps:
                        raise Budget('step budget')
                    if not self.steps & 1023 and time.time() > DEADLINE:
                        raise Budget('time budget')
                    if si == 0 and bb in headers:
                        n = vis.get(bb, 0)
                        if self.loop_hook is not None:
                            r = self.loop_hook(self, st, fr, inst, body, bb, n, depth)
                            if r == 'stop':
                                break
                        vis = dict(vis)
                        vis[bb] = n + 1
                        if n >= self.unroll:
                            raise Unsupported('loop bound in %s' % inst['path'])
                    blk = blocks[bb]
                    stm = blk['s']
                    while si < len(stm):
                        s = stm[si]
                        if s[0] == '=':
                            v = self.rvalue(st, fr, s[2], inst)
                            a, proj = self.place(st, fr, s[1])
                            self.write(st, a, proj, v)
                        elif s[0] == 'sd':
                            a, proj = self.place(st, fr, s[1])
                            v = self.read(st, a, proj)
                            raise Unsupported('set discriminant')
                        elif s[0] == 'intr':
                            pass
                        si += 1
                    t = blk['t']
                    k = t[0]
                    if k == 'goto':
                        bb, si = t[1], 0
                    elif k == 'switch':
                        v = st.res(self.operand(st, fr, t[1], inst))
                        bb = self.switch(st, v, t)
                        si = 0
                    elif k == 'ret':
                        rv = st.res(st.mem.get((fr, 0), self.unit()))
                        if not keep:
                            self.drop_frame(st, fr, len(body['locals']))
                        outs.append(Outcome(st, 'ret', rv))
                        break
                    elif k == 'drop':
                        bb, si = t[2], 0
                    elif k == 'assert':
                        c = self.truth(st, self.operand(st, fr, t[1], inst))
                        if bool(c) != bool(t[2]):
                            raise Panic('assert ' + t[3])
                        if 'verflow' in t[3]:
                            st.events.append(('unchecked', inst['path'], t[3]))
                        bb, si = t[4], 0
                    elif k == 'call':
                        self.sites[fr] = (body, t[4])
                        res = self.do_call_term(st, fr, t, inst, body, depth)
                        nxt = None
                        for o in res:
                            if o.kind != 'ret':
                                outs.append(o)
                                continue
                            a, proj = self.place(o.st, fr, t[3])
                            self.write(o.st, a, proj, o.val)
                            if t[4] < 0:
                                continue
                            if nxt is None:
                                nxt = o.st
                            else:
                                work.append((o.st, t[4], 0, vis))
                        if nxt is None:
                            break
                        st, bb, si = nxt, t[4], 0
                    elif k == 'unreachable':
                        break
                    elif k == 'resume':
                        break
                    else:
                        raise Unsupported('terminator ' + k)
            except NeedFork as nf:
                for opt in nf.options:
                    s2 = st.copy()
                    try:
                        opt(s2)
                    except Infeasible:
                        continue
                    work.append((s2, bb, si, vis))
            except Infeasible:
                continue
            except Panic as e:
                outs.append(Outcome(st, 'panic', e.msg))
            except Unsupported as e:
                outs.append(Outcome(st, 'unsup', '%s [in %s]' % (e, inst['path'])))
        return outs

    def drop_frame(self, st, fr, n):
        mem = st.mem
        for i in range(n):
            mem.pop((fr, i), None)

    def switch(self, st, v, t):
        if isinstance(v, int):
            ty = self.p.types[t[4]]
            x = v
            if ty['k'] == 'int' and x < 0:
                x &= (1 << INTR[ty['name']]) - 1
            for val, b in t[2]:
                if val == x:
                    return b
            return t[3]
        if v.__class__ is Sym or v.__class__ is Lin:
            ty = self.p.types[t[4]]
            if ty['k'] == 'bool':
                x = int(self.truth(st, v))
                for val, b in t[2]:
                    if val == x:
                        return b
                return t[3]
            for val, b in t[2]:
                if st.decide_int('eq', v, val):
                    return b
            return t[3]
        raise Unsupported('switch on %r' % (v,))

    def do_call_term(self, st, fr, t, inst, body, depth):
        args = [self.operand(st, fr, o, inst) for o in t[2]]
        f = t[1]
        dty = self.place_ty(body, t[3])
        if f['o'] == 'k':
            callee = f['k'].get('callee')
            if callee is None:
                raise Unsupported('call of const')
        else:
            fv = st.res(self.operand(st, fr, f, inst))
            if fv.__class__ is FnV:
                callee = fv.callee
            else:
                raise Unsupported('indirect call')
        d = t[3]
        self.dest_used = bool(d[1]) or t[4] < 0 or d[0] == 0 or d[0] in self.p.live_at(body, t[4])
        return self.call(st, callee, args, dty, depth, t[5], inst)

    def place_ty(self, body, pl):
        t = body['locals'][pl[0]]
        for e in pl[1]:
            if e[0] == 'f':
                t = e[2]
            elif e[0] == '*':
                t = self.p.types[t].get('to')
        return t

    def call(self, st, callee, args, dty, depth=0, line=0, inst=None):
        """-> list of Outcome.  May raise NeedFork (state st is then untouched)."""
        path = callee['path']
        rpath = callee.get('rpath', path)
        c = Call(args, dty, callee, line, inst)
        c.used, self.dest_used = self.dest_used, True
        c.depth = depth
        if self.pre_call is not None:
            r = self.pre_call(self, st, c, depth)
            if r is not None:
                return self.norm(st, r)
        if 'ctor' in callee:
            return [Outcome(st, 'ret', Agg(callee['ctor'][0], callee['ctor'][1], args))]
        m = self.models.get(rpath)
        if m is None and not callee.get('local'):
            if not (path.startswith(STRUCTURAL) and rpath != path and 'body' in self.p.insts.get(callee.get('id'), ())):
                m = self.models.get(path)
        if m is not None:
            s2 = st.copy()
            r = m(self, s2, c)
            if r is not NotImplemented:
                return self.norm(s2, r)
        # closures and function items
        if path in ('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call'):
            s2 = st.copy()
            r = self.call_fnlike(s2, args[0], self.untuple(s2, args[1]), dty, depth, path)
            if r is not None:
                return r
        if callee.get('rk') == 'clone_shim':
            return [Outcome(st, 'ret', self.load(st, args[0]))]
        if 'id' in callee:
            i = self.p.insts.get(callee['id'])
            if i is not None and 'body' in i:
                return self.run(st, callee['id'], args, depth + 1)
        if 'dflt' in callee and self.provided:
            i = self.p.insts.get(callee['dflt'])
            if i is not None and 'body' in i:
                return self.run(st, callee['dflt'], args, depth + 1)
        s2 = st.copy()
        return self.norm(s2, self.uninterpreted(s2, c))

    def untuple(self, st, v):
        v = st.res(v)
        if v.__class__ is Sym:
            v = self.expand(st, v)
        return list(v.f)

    def call_fnlike(self, st, f, args, dty, depth, path='std::ops::FnOnce::call_once'):
        f0 = f
        f = st.res(f)
        while True:
            if f.__class__ is Ref:
                f2 = self.read(st, f.a, f.p)
                if f2.__class__ is Ref:
                    f = f2
                    continue
                fv, ref = f2, f
            else:
                fv, ref = f, None
            break
        if fv.__class__ is Sym and fv.ty is not None:
            ty = self.p.types[fv.ty]
            if ty['k'] == 'fndef':
                fv = FnV(ty['callee'])
            elif ty['k'] == 'closure':
                fv = self.expand(st, fv)
            elif ty['k'] in ('ref',):
                return self.call_fnlike(st, self.deref_sym(st, fv), args, dty, depth, path)
        if fv.__class__ is FnV:
            return self.call(st, fv.callee, args, dty, depth + 1)
        if fv.__class__ is Agg and fv.ty is not None and self.p.types[fv.ty]['k'] == 'closure':
            ty = self.p.types[fv.ty]
            if 'id' not in ty or ty['id'] not in self.p.insts:
                raise Unsupported('closure without body')
            if ty['ck'] == 'FnOnce':
                me = fv
            else:
                me = ref if ref is not None else self.box(st, fv, 'clo')
            return self.run(st, ty['id'], [me] + list(args), depth + 1)
        return None

    def norm(self, st, r):
        if isinstance(r, list):
            return [x if isinstance(x, Outcome) else Outcome(x[0], 'ret', x[1]) for x in r]
        if isinstance(r, Outcome):
            return [r]
        return [Outcome(st, 'ret', r)]

    # ---- uninterpreted functions
    def uninterpreted(self, st, c):
        name = c.callee.get('rpath') or c.callee['path']
        callee = c.callee
        opaque = 'rpath' in callee and not callee.get('local', False)
        tr = callee.get('trait') or ''
        if not opaque and 'rpath' not in callee and tr.startswith(('std::', 'core::', 'alloc::')) and ('::adapters::' in tr or tr.rsplit('::', 1)[-1].startswith('Spec')):
            opaque = True       # an internal trait of the library: not an operation of the type parameters
        if opaque and name not in FREE:
            st.imprecise.add(name)
        ts = []
        muts = []
        for i, a in enumerate(c.args):
            a = st.res(a)
            ts.append(self.term(st, a))
        return self.app(st, name, c, ts)

    def app(self, st, name, c, ts=None, havoc=True):
        if ts is None:
            ts = [self.term(st, a) for a in c.args]
        key = ('app', name) + tuple(ts)
        sig = self.sig_muts(st, c)
        for i in sig:
            r = st.res(c.args[i])
            if r.__class__ is Sym:
                r = self.deref_sym(st, r)
            if r.__class__ is Ref:
                old = self.read(st, r.a, r.p)
                ty = getattr(old, 'ty', None)
                self.write(st, r.a, r.p, Sym(('mut', name, i) + tuple(ts), ty))
        st.events.append((name, tuple(ts), tuple(c.args)))
        return self.symval(st, key, c.dty)

    def symval(self, st, key, t):
        ty = self.p.types[t] if t is not None else None
        if ty is not None and ty['k'] == 'tuple' and not ty['f']:
            return self.unit()
        s = Sym(key, t)
        if ty is not None and ty['k'] == 'char':
            st.rng.setdefault(key, CHAR_ALL)
        return s

    def sig_muts(self, st, c):
        """indexes of arguments passed by mutable reference"""
        out = []
        tys = c.callee.get('in')
        if tys:
            for i, t in enumerate(tys):
                ty = self.p.types[t]
                if ty['k'] == 'ref' and ty['mut']:
                    out.append(i)
        return out


# functions of a single identifier whose answer may be anything, whatever else is known of it
FREE = {'iref::Iri::fragment', 'iref::Iri::query', 'iref::Iri::authority'}

# traits whose library implementations for references, options, tuples... delegate to the
# implementations of the components: their bodies are analysed instead of modelled
STRUCTURAL = ('std::cmp::', 'std::hash::Hash::')
OPEN_ADTS = ('std::option::', 'std::result::', 'std::cmp::', 'std::ops::', 'std::iter::', 'std::borrow::', 'std::marker::', 'std::convert::', 'contextual::', 'std::cell::', 'std::mem::')
TEXT_ADTS = {
    'std::string::String', 'iref::Iri', 'iref::IriBuf', 'iref::IriRef', 'iref::IriRefBuf',
    'langtag::LangTag', 'langtag::LangTagBuf', 'blankid::BlankId',
}
ERASED_ADTS = {'blankid::BlankIdBuf', 'blankid::BlankId', 'iref::IriBuf', 'langtag::LangTagBuf'}
COW_ADTS = {'std::borrow::Cow'}
