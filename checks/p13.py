"""Equality, order and hash of the data model agree with content, across owned, borrowed and copy-on-write forms."""
from lib import *
import text
RULE = 'eq(a,b) iff same content; cmp/partial_cmp is the lexicographic order of the content; equal content feeds the hasher the same sequence'

TYPES = {'Term', 'TermRef', 'CowTerm', 'Literal', 'LiteralRef', 'CowLiteral', 'LiteralType', 'LiteralTypeRef', 'CowLiteralType',
         'LocalTerm', 'LocalTermRef', 'CowLocalTerm', 'Id', 'IdRef', 'CowId', 'BlankId', 'BlankIdBuf', '&BlankId', '&BlankIdBuf',
         'Triple', 'Quad', 'ResourceOrVar',
         'CanonicalTriplePattern', 'CanonicalQuadPattern', 'AnySubject', 'AnySubjectAnyPredicate', 'AnySubjectGivenPredicate', 'GivenSubject',
         'GivenSubjectAnyPredicate', 'GivenSubjectGivenPredicate', 'AnySubjectAnyPredicateAnyObject', 'AnySubjectAnyPredicateGivenObject',
         'AnySubjectGivenPredicateAnyObject', 'AnySubjectGivenPredicateGivenObject', 'GivenSubjectAnyPredicateAnyObject',
         'GivenSubjectAnyPredicateGivenObject', 'GivenSubjectGivenPredicateAnyObject', 'GivenSubjectGivenPredicateGivenObject',
         'PatternSubject', 'PatternPredicate', 'PatternObject', 'PatternGraph'}


def run_check(ctx):
    eng = ctx.engine()
    eng.lens = True
    n = {'eq': 0, 'cmp': 0, 'hash': 0}
    rel = {'eq': lambda c: c == 0, 'ne': lambda c: c != 0, 'lt': lambda c: c < 0, 'le': lambda c: c <= 0, 'gt': lambda c: c > 0, 'ge': lambda c: c >= 0}
    hashes = {}
    for r in ctx.p.roots:
        if r['bself'] not in TYPES or not r['eff_pub'] and not r.get('derived'):
            continue
        t, m = r['btrait'], r['name']
        if t in ('PartialEq', 'Equivalent') and m in ('eq', 'ne', 'equivalent'):
            n['eq'] += 1

            def exp(e, m=m):
                x = content_eq(e.eng, e.st, e.a(0), e.a(1))
                return int(x if m != 'ne' else not x)
            check_fn(ctx, eng, r, exp)
        elif t in ('PartialOrd', 'Ord') and m in ('cmp', 'partial_cmp', 'lt', 'le', 'gt', 'ge'):
            n['cmp'] += 1

            def exp(e, m=m):
                c = content_cmp(e.eng, e.st, e.a(0), e.a(1))
                if m in rel:
                    return int(rel[m](c))
                o = X('Ordering', ['Less', 'Equal', 'Greater'][c + 1])
                return some(o) if m == 'partial_cmp' else o
            check_fn(ctx, eng, r, exp)
        elif t == 'Hash' and m == 'hash':
            hashes.setdefault(fam(r['bself'].replace('Buf', '').replace('&', '')) + ('' if not 'canonical' in r['module'] else ' ' + r['module']), []).append(r)
    for f, rs in hashes.items():
        for i, r1 in enumerate(rs):
            for r2 in rs[i:]:
                n['hash'] += 1
                hash_pair(ctx, eng, r1, r2)
    ctx.floor('equality implementations', n['eq'], 24)
    ctx.floor('order implementations', n['cmp'], 24)
    ctx.floor('hash pairs', n['hash'], 12)


def hash_pair(ctx, eng, r1, r2):
    nm = 'hash %s / %s' % (r1['nself'], r2['nself'])
    bad = und = None
    k = 0
    i1, i2 = ctx.p.insts[r1['root']], ctx.p.insts[r2['root']]
    a1, a2 = sym_args(eng, i1, 'x'), sym_args(eng, i2, 'y')
    outs, _ = run(ctx, eng, r1, a1)
    for o in outs:
        if o.kind != 'ret':
            und = und or str(o.val)
            continue
        ev1 = [e for e in o.st.events if e[0] == 'hash']
        o.st.events = []
        outs2, _ = run(ctx, eng, r2, a2, o.st)
        for o2 in outs2:
            if o2.kind != 'ret':
                und = und or str(o2.val)
                continue
            ev2 = [e for e in o2.st.events if e[0] == 'hash']
            try:
                def both(s):
                    if not content_eq(eng, s, Sym(('*', a1[0].key), eng.p.types[a1[0].ty]['to']), Sym(('*', a2[0].key), eng.p.types[a2[0].ty]['to'])):
                        return True
                    return len(ev1) == len(ev2) and all(same(eng, s, x[1], y[1]) for x, y in zip(ev1, ev2))
                for s, q in refine(o2.st, both):
                    k += 1
                    if not q:
                        h1, h2 = ev1, ev2
                        if s.imprecise:
                            und = 'imprecise ' + str(sorted(s.imprecise)[:2])
                        else:
                            bad = 'equal values feed %s and %s to the hasher' % ([show(eng, s, x[1]) for x in h1], [show(eng, s, x[1]) for x in h2])
            except Unsupported as e:
                und = str(e)
    ctx.ob(nm, BAD if bad else UND if und else OK, bad or und or '%d traces' % k, ctx.where(r1) + ' / ' + ctx.where(r2))
