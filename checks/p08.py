"""The acceptor of blank node identifiers is followed character class by character class in lockstep with the automaton of the N-Triples grammar;
loops are explored until no new pair of program state and automaton state appears, so every text is covered."""
from lib import *
import text
RULE = 'accepting traces end in accepting automaton states at the end of the text, rejecting traces in states from which the text cannot be accepted; the text is returned unchanged'


def text_arg(eng, st, i, args):
    v = args[i]
    while v.__class__ is Sym and eng.is_ref(v.ty):
        v = eng.load(st, v)
    return v


def ref_parts(v):
    return (v,)


def acceptor(ctx, eng, r, label, argi=0, prefix=''):
    st0 = State()
    inst = ctx.p.insts[r['root']]
    args = sym_args(eng, inst)
    a = args[argi]
    atom = Sym(('*', a.key)) if eng.is_ref(a.ty) else Sym(a.key)
    parts = ((prefix,) if prefix else ()) + (atom,)
    eng.loop_hook = text.grammar_hook(lambda s: parts)
    eng.lens = True

    def post(env, s, o):
        whole = Text(parts) if prefix else atom
        if text.length_conflict(eng, s):
            return None
        can = {q in text.ACC for q in text.ends_state(eng, s, parts)}
        parts_ = text.expand(s, parts)
        ended = all(isinstance(p, str) or s.x.get(('ended', p.key)) for p in parts_)
        v = opened(eng, s, o.val)
        n, var, f = head(eng, v)
        if n == 'Option':
            var = {'Some': 'Ok', 'None': 'Err'}[var]
        if var == 'Ok':
            if can != {True}:
                return 'accepts %s' % sample(s, parts_, ended)
            if not same(eng, s, f[0], whole):
                return 'the identifier is %s instead of the given text' % show(eng, s, f[0])
        else:
            if True in can:
                return 'rejects %s' % sample(s, parts_, ended)
            if f and head(eng, opened(eng, s, f[0]))[0] == 'InvalidBlankId':
                inv = opened(eng, s, f[0])
                if not same(eng, s, inv.f[0], whole):
                    return 'the rejected text is handed back as %s' % show(eng, s, inv.f[0])
    eng.unroll = 120
    check_fn(ctx, eng, r, None, label=label, post=post, args=args, st=st0)
    eng.loop_hook = None
    eng.lens = False


def sample(s, parts, ended):
    out = ''
    for p in parts:
        if isinstance(p, str):
            out += p
            continue
        for i in range(s.x.get(('front', p.key), 0)):
            c = s.res(s.x[('ch', p.key, i)])
            if isinstance(c, int):
                out += chr(c)
            else:
                rg = s.get_rng(c.key)
                out += '[%s]' % ','.join('%X-%X' % x for x in rg[:4])
    return 'texts of the form "%s"%s' % (out.encode('unicode_escape').decode(), '' if ended else ' followed by anything')


def run_check(ctx):
    eng = ctx.engine()
    for r in ctx.need('BlankId', 'new'):
        acceptor(ctx, eng, r, 'BlankId::new')
    for r in ctx.need('BlankIdBuf', 'new'):
        acceptor(ctx, eng, r, 'BlankIdBuf::new')
    for r in ctx.need('BlankIdBuf', 'from_str', trait='FromStr'):
        acceptor(ctx, eng, r, 'BlankIdBuf::from_str')
    for r in ctx.need('BlankIdBuf', 'from_suffix'):
        acceptor(ctx, eng, r, 'BlankIdBuf::from_suffix', prefix='_:')
    ctx.floor('constructors', len(ctx.obs), 4)
    # other public text-to-identifier conversions, present or future
    for r in ctx.p.roots:
        if r['eff_pub'] and r['bself'] in ('BlankIdBuf', 'BlankId', '&BlankId') and r['btrait'] in ('TryFrom',):
            acceptor(ctx, eng, r, '%s %s' % (r['nself'], r['ntrait']))
