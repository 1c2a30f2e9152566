"""Equality, ordering and hashing of the stores."""
from lib import *
import store
RULE = ('equality and ordering compare the statements pairwise in the order of the index until the first difference or the common end; hashing depends on the statements only; '
        'every comparator used on an index orders it by content, so that equal stores iterate alike')


def run_check(ctx):
    eng = store.engine(ctx)
    maps = {}
    for s in store.STORES:
        for r in ctx.need(s, 'eq', trait='PartialEq'):
            ctx.section(r['path'], store.check_eq, ctx, eng, r)
        for n, t in (('partial_cmp', 'PartialOrd'), ('cmp', 'Ord')):
            for r in ctx.need(s, n, trait=t):
                ctx.section(r['path'], store.check_cmp, ctx, eng, r, maps)
        m = maps.get(s, {})
        if len(m) == 2 and m['cmp'] != m['partial_cmp']:
            ctx.ob(s + ': cmp and partial_cmp', BAD, 'cmp and partial_cmp order two stores differently', '')
        for r in ctx.need(s, 'hash', trait='Hash'):
            ctx.section(r['path'], store.check_hash, ctx, eng, r)
        for r in ctx.find(s, 'iter'):
            ctx.section(r['path'], store.check_iteration, ctx, eng, r, 'P06', ('tree', 'S', 'stm'))
        # the comparators are exercised by the operations that search or update an index
        for n, spec in (('insert', store.spec_insert(eng)), ('remove', store.spec_remove(eng)), ('contains', store.spec_contains(eng))):
            for r in ctx.need(s, n):
                ctx.section(r['path'], store.judge_op, ctx, eng, r, 'P06', spec, s + '::' + n + ': ordered index', ())
    store.order_consistent(ctx, eng, 'P06', store.STORES)
