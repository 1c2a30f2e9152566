"""Pattern matching on the indexed stores: search plan and iteration, from an arbitrary store and iterator state."""
from lib import *
import store
import match
RULE = ('each component of the pattern becomes a constraint whose index set is the set of statements satisfying it; from any iterator state satisfying the invariant, `next` yields a statement '
        'that satisfies every constraint, at or after the frontier, jumps over no statement that may match, and leaves a state satisfying the invariant; extraction removes exactly what it yields')
NAMES = ('pattern_matching', 'multi_pattern_matching', 'extract_pattern_matching', 'triple_pattern_matching', 'quad_pattern_matching', 'quad_multi_pattern_matching')


def run_check(ctx):
    ceng = ctx.engine(match.CM, 6000000)
    rm = match.removers(ctx)
    nm = dict(match.NM)
    for p in rm:
        nm[p] = match.removal
    for r in ctx.idx.get('remove', []):
        if r['bself'] in store.STORES and r['btrait'] is None:
            nm[r['path']] = match.removal_of
    neng = ctx.engine(nm, 400000)
    neng.removals = set()
    n = 0
    for s in store.STORES:
        for name in NAMES:
            for r in [r for r in ctx.idx.get(name, []) if r['bself'] == s and r['eff_pub']]:
                ctx.section(r['path'], match.check_matching, ctx, ceng, neng, r, 'extract' in name)
                n += 1
    ctx.floor('searches', n, 7)
    seng = store.engine(ctx)
    # the search relies on the indexes: they are exact after every insertion and removal
    for s in store.STORES:
        if s.startswith('Indexed'):
            for name, spec in (('insert', store.spec_insert(seng)), ('remove', store.spec_remove(seng))):
                for r in ctx.need(s, name):
                    ctx.section(r['path'], store.judge_op, ctx, seng, r, 'P03', spec, s + '::' + name + ': indexes', ())
    for p, extra in sorted(neng.removals):
        ctx.section(p, match.check_removal, ctx, seng, rm[p], extra)
