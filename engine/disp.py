"""RDF display: the stream of tokens written to a formatter, compared with the N-Triples syntax of the value."""
from core import *
from lib import refine, same, strip, short, opened, head, run
import lib
import models
import text
import store
from text import *
from store import world, pulls, IterM, map_mem, explore

LIT_ESC = {0x22: '\\"', 0x5C: '\\\\', 0x0A: '\\n', 0x0D: '\\r'}
IRI_SET = sorted([(0, 0x20)] + [(ord(c), ord(c)) for c in '<>"{}|^`\\'])

DM = {}


def dmodel(*names):
    def d(f):
        for n in names:
            DM[n] = f
        return f
    return d


def atom(eng, st, v):
    """identity of a text-like value"""
    ps = []
    for p in parts_of(eng, st, v):
        ps.append(p if isinstance(p, str) else ('a', st.akey(p)))
    return tuple(ps)


def iri_atom(eng, st, v):
    v = deep(eng, st, v)
    if v.__class__ is Text or v.__class__ is Bytes:
        return atom(eng, st, v)
    return (('a', st.akey(v)),)


def lang_atom(eng, st, v):
    v = deep(eng, st, v)
    return ('a', ('lstr', st.akey(v)))


def rdf_show(eng, st, v, fm, rty, depth):
    """what a value writes as an RDF syntax element"""
    v = deep(eng, st, v)
    n = type_name(eng, v)
    if n in STR_LIKE or v.__class__ is Text:
        emit(eng, st, fm, [('q', atom(eng, st, v))])
        return finish(eng, st, rty, fm)
    if n in IRI_LIKE:
        emit(eng, st, fm, [('i', iri_atom(eng, st, v))])
        return finish(eng, st, rty, fm)
    if n is None:
        emit(eng, st, fm, [('rdf', eng.term(st, v))])
        return finish(eng, st, rty, fm)
    r = find_impl(eng, 'RdfDisplay', n)
    if r is None:
        raise Unsupported('display of %s' % n)
    return eng.run(st, r['root'], [eng.box(st, v), eng.box(st, fm)], depth + 1)


@dmodel('display::RdfDisplay::rdf_fmt', '<str as display::RdfDisplay>::rdf_fmt', '<iref::IriRef as display::RdfDisplay>::rdf_fmt')
def m_rdf_fmt(eng, st, c):
    return rdf_show(eng, st, c.args[0], fmtr_of(eng, st, c.args[1]), c.dty, c.depth)


@dmodel('display::RdfDisplay::rdf_display')
def m_rdf_display(eng, st, c):
    return Agg(c.dty, 0, [c.args[0]])


@dmodel('display::RdfDisplayWithContext::rdf_fmt_with')
def m_rdf_fmt_with(eng, st, c):
    v = deep(eng, st, c.args[0])
    if type_name(eng, v) is not None:
        raise Unsupported('contextual display of %s' % type_name(eng, v))
    fm = fmtr_of(eng, st, c.args[2])
    emit(eng, st, fm, [('rdfw', eng.term(st, v), eng.term(st, deep(eng, st, c.args[1])))])
    return finish(eng, st, c.dty, fm)


# ---------------------------------------------------------------- expected streams
def want(eng, st, v):
    """tokens of the N-Triples syntax of a value; forks over its shape"""
    v = deep(eng, st, v)
    n = type_name(eng, v)
    if n in STR_LIKE or v.__class__ is Text:
        return [('q', atom(eng, st, v))]
    if n in IRI_LIKE:
        return [('i', iri_atom(eng, st, v))]
    if n is None:
        return [('rdf', eng.term(st, v))]
    if n in ('BlankId', 'BlankIdBuf'):
        ps = list(atom(eng, st, blank_text(eng, st, v)))
        if len(ps) == 1 and not isinstance(ps[0], str):
            # the text of an identifier is `_:` and its suffix
            return ['_:', ('a', st.rep(('sub', ps[0][1], 2)))]
        return ps
    if n.startswith('LangTag'):
        return [lang_atom(eng, st, v)]
    v = opened(eng, st, v)
    name, var, f = head(eng, v)
    if name == 'LiteralType':
        if var == 'Any':
            return ['^^'] + want(eng, st, f[0])
        return ['@'] + want(eng, st, f[0])
    if name == 'Literal':
        return want(eng, st, f[0]) + ([] if xsd_string(eng, st, f[1]) else want(eng, st, f[1]))
    if name in ('Term', 'LocalTerm', 'Id'):
        return want(eng, st, f[0])
    if name == 'Triple':
        return want(eng, st, f[0]) + [' '] + want(eng, st, f[1]) + [' '] + want(eng, st, f[2])
    if name == 'Quad':
        out = want(eng, st, f[0]) + [' '] + want(eng, st, f[1]) + [' '] + want(eng, st, f[2])
        g = opened(eng, st, f[3])
        if g.var == 1:
            out += [' '] + want(eng, st, g.f[0])
        return out
    raise Unsupported('no syntax for %s' % name)


def blank_text(eng, st, v):
    if v.__class__ is Agg:
        return v.f[0]
    return v


def xsd_string(eng, st, ty):
    t = opened(eng, st, ty)
    name, var, f = head(eng, t)
    if var != 'Any':
        return False
    v = deep(eng, st, f[0])
    return models.values_eq(eng, st, v, Text([XSD_STRING]))


XSD_STRING = 'http://www.w3.org/2001/XMLSchema#string'


def norm(stream):
    out = []
    for t in stream:
        if isinstance(t, str):
            if out and isinstance(out[-1], str):
                out[-1] += t
            elif t:
                out.append(t)
        else:
            out.append(t)
    return out


def tokens(st, eng):
    """what was written, texts by identity; and whether a write failed"""
    out, fail = [], False
    for e in st.events:
        if e[0] == 'w':
            if fail:
                return out, 'written after a failure'
            p = e[2]
            if isinstance(p, Sym):
                p = ('a', st.akey(p))
            elif isinstance(p, tuple) and p[0] == 'chr':
                c = st.res(Sym(p[1]))
                p = chr(c) if isinstance(c, int) else ('chr', st.rep(p[1]))
            elif isinstance(p, tuple) and p[0] == 'hex':
                p = hexed(st, p)
            out.append(p)
        elif e[0] == 'fail':
            fail = True
    return norm(out), fail


def hexed(st, p):
    """a formatted number: ('hex4', character) when it is written on exactly four upper case digits"""
    up, (fl, w, pr), v = p[1], p[2], p[3]
    v = v if isinstance(v, int) else st.res(Sym(v))
    zero = fl is not None and (fl & 1 << 24)
    alt = fl is not None and (fl & 1 << 23)
    if isinstance(v, int):
        s = '%X' % v if up else '%x' % v
        s = ('0x' + s) if alt else s
        if w and len(s) < w:
            s = s.rjust(w, '0' if zero else ' ')
        return s
    r = st.get_rng(v.key)
    if up and zero and not alt and w == 4 and r and r[-1][1] <= 0xFFFF:
        return ('hex4', st.rep(v.key))
    return ('number', up, p[2], st.rep(v.key))


def prefix_of(a, b):
    """is stream a a prefix of stream b"""
    a, b = list(a), list(b)
    for i, t in enumerate(a):
        if i >= len(b):
            return False
        if t == b[i]:
            continue
        if i == len(a) - 1 and isinstance(t, str) and isinstance(b[i], str) and b[i].startswith(t):
            return True
        return False
    return True


def show_stream(s):
    out = []
    for t in s:
        if isinstance(t, str):
            out.append(repr(t)[1:-1])
        elif t[0] == 'chr':
            out.append('{char}')
        elif t[0] == 'hex4':
            out.append('{4 hex digits}')
        else:
            out.append('{%s %s}' % (t[0], kstr(t[1])[:60] if len(t) > 1 else ''))
    return ''.join(out)[:200]


def judge_stream(eng, s, o, exp, plain=False):
    """-> None or a message; plain: texts may be padded as the formatter asks"""
    got, fail = tokens(s, eng)
    if plain:
        got = norm(x for t in got for x in ([('a', k) if not isinstance(k, str) else k for k in t[1]] if isinstance(t, tuple) and t[0] == 'pad' else [t]))
    v = opened(eng, s, o.val)
    if isinstance(fail, str):
        return 'something is %s' % fail
    ok = eng.p.types[v.ty]['v'][v.var]['n'] == 'Ok'
    exp = norm(exp)
    ids = {t[1][1]: t for t in exp if isinstance(t, tuple) and t[0] == 'a' and t[1][0] == 'sub' and t[1][2:] == (2,)}
    got = norm(x for t in got for x in (['_:', ids[t[1]]] if isinstance(t, tuple) and t[0] == 'a' and t[1] in ids else [t]))
    if fail:
        if ok:
            return 'reports success although a write failed'
        if not prefix_of(got, exp):
            return 'writes %s, expected a beginning of %s' % (show_stream(got), show_stream(exp))
        return None
    if not ok:
        return 'reports a failure although every write succeeded'
    if got != exp:
        return 'writes %s, expected %s' % (show_stream(got), show_stream(exp))
    return None


# ---------------------------------------------------------------- escapes
SPECIAL = {'lit': sorted((k, k) for k in LIT_ESC), 'iri': IRI_SET}


def escape(st, kind, c):
    """expected tokens for one character; forks until its class is known"""
    c = st.res(c)
    if isinstance(c, int):
        if kind == 'lit':
            return LIT_ESC.get(c) or chr(c)
        if any(a <= c <= b for a, b in IRI_SET):
            return '\\u%04X' % c
        return chr(c)
    r = st.get_rng(c.key)
    sp = IRI_SET if kind == 'iri' else sorted((k, k) for k in LIT_ESC)
    ins = rint(r, sp)
    if ins:
        out = rsub(r, sp)
        if kind == 'lit':
            def eq(k):
                return lambda s: s.set_rng(c.key, [(k, k)])
            raise NeedFork([eq(a) for a, b in ins] + ([lambda s: s.set_rng(c.key, out)] if out else []))
        if out:
            raise NeedFork([lambda s: s.set_rng(c.key, ins), lambda s: s.set_rng(c.key, out)])
        return ['\\u', ('hex4', st.rep(c.key))]
    return ('chr', st.rep(c.key))


def rint(a, b):
    return rsub(a, rsub(CHAR_ALL, b))


def chars_met(st, key):
    out = []
    for i in range(st.x.get(('front', key), 0) if key is not None else 0):
        out.append(st.x[('ch', key, i)])
    return out


def escaped(eng, st, kind, key):
    out = []
    for c in chars_met(st, key):
        e = escape(st, kind, c)
        out += e if isinstance(e, list) else [e]
    return out


def the_text(eng, st, a):
    ps = parts_of(eng, st, a)
    if len(ps) != 1 or isinstance(ps[0], str):
        raise Unsupported('text %r' % (ps,))
    return ps[0].key


def check_escape(ctx, eng, r, kind):
    nm = '%s::%s [%s]' % (r['nself'], r['name'], r['ntrait'])
    q0, q1 = ('"', '"') if kind == 'lit' else ('<', '>')
    flags = []
    seen = set()

    def src(st):
        """the text to be written: what is iterated over, written as it is, or cut in pieces"""
        ks = {p.key for v in st.mem.values() if v.__class__ is Chars for p in v.parts if not isinstance(p, str) and not text.is_chr(p)}
        ks |= {k[1] for k in st.x if k[0] in ('front', 'ended')} | {p.key for e in st.events if e[0] == 'w' for p in [e[2]] if isinstance(p, Sym)}
        ks = {root(k) for k in ks}
        if len(ks) > 1:
            raise Unsupported('texts %r' % (ks,))
        return min(ks) if ks else None

    def root(k):
        while k[0] in ('sub', 'spl', 'pre', 'rpre', 'rsub', 'trimmed'):
            k = k[1]
        return k

    def expected(s, key, all_):
        """the characters met as they have to be written; texts without special characters as they are"""
        if key is None:
            return []
        raw = {p.key for e in s.events if e[0] == 'w' for p in [e[2]] if isinstance(p, Sym)}
        out = []
        for p in text.expand(s, (Sym(key),)):
            if isinstance(p, str) or text.is_chr(p):
                for c in map(ord, p) if isinstance(p, str) else [text.chr_val(s, p)]:
                    e = escape(s, kind, c)
                    out += e if isinstance(e, list) else [e]
            elif p.key in raw and not s.x.get(('front', p.key)):
                al = list(CHAR_ALL)
                for t in text.trk(s, p.key):
                    if t[0] == 'ban':
                        al = rsub(al, text.tcls(s, t[1]))
                out.append(('a', s.akey(p)) if not rint(al, SPECIAL[kind]) else ('a', ('without the special characters', p.key)))
            else:
                out += escaped(eng, s, kind, p.key)
                if not s.x.get(('ended', p.key)):
                    if all_:
                        out.append(None)
                    break
        return out

    def hook(eng, st, fr, inst, body, bb, n, depth):
        try:
            key = src(st)
            for s, m in refine(st, lambda s: lock(s, key), 4000):
                if m:
                    flags.append('output and input are not in step at a loop')
        except Unsupported as e:
            flags.append(str(e))
        k = (inst['path'], depth) + canon(eng, st, fr, body, bb)
        if k in seen:
            return 'stop'
        seen.add(k)
        if n:
            looped(st)

    def lock(s, key):
        got, fail = tokens(s, eng)
        if fail:
            return 'fail'
        exp = norm([q0] + expected(s, key, False))
        return None if got == exp else 'no'
    eng.loop_hook = hook
    try:
        outs, args = run(ctx, eng, r)
    finally:
        eng.loop_hook = None
    bad = und = None
    n = 0

    def fin(s, o):
        key = src(s)
        exp = [q0] + expected(s, key, True)
        if exp[-1] is not None:
            exp += [q1]
        elif not any(e[0] == 'fail' for e in s.events):
            return 'stops before the end of the text'
        return judge_stream(eng, s, o, [x for x in exp if x is not None])
    for o in outs:
        if o.kind == 'unsup':
            und = o.val
        elif o.kind == 'panic':
            if o.st.imprecise or o.st.x.get('wide'):
                und = 'imprecise panic'
            else:
                bad = 'panics: %s' % o.val
        else:
            try:
                for s, m in refine(o.st, lambda s: fin(s, o), 20000):
                    n += 1
                    if m and s.imprecise:
                        und = 'imprecise: %s' % sorted(s.imprecise)[:2]
                    elif m:
                        bad = m
            except Unsupported as e:
                und = str(e)
    if flags and not und:
        und = flags[0]
    ctx.ob(nm, lib.BAD if bad else lib.UND if und or not n else lib.OK, bad or und or '%d traces' % n, ctx.where(r))


def want_plain(eng, st, v):
    """Display of a term: the identifier itself, or the syntax of the literal"""
    v = deep(eng, st, v)
    n = type_name(eng, v)
    if n in IRI_LIKE:
        return [('a', ('istr', st.akey(v)))]
    if n in ('BlankId', 'BlankIdBuf'):
        return want(eng, st, v)
    v = opened(eng, st, v)
    name, var, f = head(eng, v)
    if name in ('Term', 'LocalTerm', 'Id'):
        return want_plain(eng, st, f[0])
    return want(eng, st, v)


def check_display(ctx, eng, r, exp=None, label=None, plain=False):
    nm = label or '%s::%s [%s]' % (r['nself'], r['name'], r['ntrait'])
    outs, args = run(ctx, eng, r)
    bad = und = None
    n = 0
    for o in outs:
        if o.kind == 'unsup':
            und = o.val
        elif o.kind == 'panic':
            if o.st.imprecise or o.st.x.get('wide'):
                und = 'imprecise panic'
            else:
                bad = 'panics: %s' % o.val
        else:
            try:
                for s, m in refine(o.st, lambda s: judge_stream(eng, s, o, (exp or (lambda s, a: (want_plain if plain else want)(eng, s, a[0])))(s, args), plain), 20000):
                    n += 1
                    if m and s.imprecise:
                        und = 'imprecise: %s' % sorted(s.imprecise)[:2]
                    elif m:
                        bad = m
            except Unsupported as e:
                und = str(e)
    ctx.ob(nm, lib.BAD if bad else lib.UND if und or not n else lib.OK, bad or und or '%d traces' % n, ctx.where(r))


# ---------------------------------------------------------------- stores
def check_store(ctx, eng, r):
    """one line per statement: the syntax of the statement, a space, a dot, a line feed"""
    nm = '%s::%s [%s]' % (r['nself'], r['name'], r['ntrait'])
    found = []
    eng.loop_hook = store.compare_hook(found)
    try:
        outs, args = explore(ctx, eng, r)
    finally:
        eng.loop_hook = None
    bad = und = None
    n = 0

    def lines(s):
        out = []
        w = world(s)
        done = False
        inloop = False
        for e in s.events:
            if e[0] == 'loop':
                inloop = True
                if out:
                    raise Unsupported('lines before the loop')
            if e[0] == 'pull':
                if e[1] != ('tree', 'S', 'stm'):
                    raise Unsupported('iteration over %r' % (e[1],))
                if e[2] is None:
                    done = True
                    continue
                cs = [w.ents[c].comps if c is not None else None for c in w.ents[e[2]].comps]
                for i, c in enumerate(cs):
                    if c is not None:
                        out += ([' '] if i else []) + [('rdf', eng.term(s, c))]
                out += [' .\n']
        return out, done

    def fin(s, o):
        exp, done = lines(s)
        if not done and not any(e[0] == 'fail' for e in s.events):
            return 'stops before the end of the store'
        return judge_stream(eng, s, o, exp)

    def back(s):
        exp, done = lines(s)
        got, fail = tokens(s, eng)
        if fail:
            return 'goes on after a failed write'
        return None if got == norm(exp) else 'writes %s for a statement, expected %s' % (show_stream(got), show_stream(norm(exp)))
    for o in outs:
        if o.kind == 'unsup':
            und = o.val
        elif o.kind == 'panic':
            if o.st.imprecise or o.st.x.get('wide'):
                und = 'imprecise panic'
            else:
                bad = 'panics: %s' % o.val
    for st, f in [(o.st, lambda s, o=o: fin(s, o)) for o in outs if o.kind == 'ret'] + [(st, back) for st in found]:
        try:
            for s, m in refine(st, f, 20000):
                n += 1
                if m and s.imprecise:
                    und = 'imprecise: %s' % sorted(s.imprecise)[:2]
                elif m:
                    bad = m
        except Unsupported as e:
            und = str(e)
    if not found and not und:
        und = 'no loop'
    ctx.ob(nm, lib.BAD if bad else lib.UND if und or not n else lib.OK, bad or und or '%d traces' % n, ctx.where(r))
