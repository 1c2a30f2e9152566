"""Insertion, removal, containment, length and iteration of the four in-memory stores, from an arbitrary store."""
from lib import *
import store
RULE = ('from any store satisfying the representation invariant, each operation leaves a store satisfying it that differs by exactly the announced statement, and returns whether it was present; '
        'iteration visits the whole statement index and yields each stored statement')


def run_check(ctx):
    eng = store.engine(ctx)
    n = 0
    for s in store.STORES:
        mut = 'DatasetMut' if store.STORES[s] == 'Quad' else 'GraphMut'
        for name, spec in (('insert', store.spec_insert(eng)), ('remove', store.spec_remove(eng)), ('contains', store.spec_contains(eng)),
                           ('len', store.spec_len(eng)), ('is_empty', store.spec_is_empty(eng))):
            for r in ctx.need(s, name):
                ctx.section(r['path'], store.judge_op, ctx, eng, r, 'P01', spec)
                n += 1
        for name, spec in (('insert', store.spec_insert(eng, False)), ('remove', store.spec_remove(eng, False))):
            for r in ctx.need(s, name, trait=mut):
                ctx.section(r['path'], store.judge_op, ctx, eng, r, 'P01', spec)
                n += 1
        for r in [r for nm in ('contains_triple', 'contains_quad') for r in ctx.idx.get(nm, []) if r['bself'] == s and r['eff_pub']]:
            ctx.section(r['path'], store.judge_op, ctx, eng, r, 'P01', store.spec_contains(eng))
            n += 1
        for r in [r for nm in ('iter', 'triples', 'quads') for r in ctx.idx.get(nm, []) if r['bself'] == s and r['eff_pub']] + \
                [r for r in ctx.idx.get('into_iter', []) if r['bself'] == '&' + s and r['eff_pub']]:
            ctx.section(r['path'], store.check_iteration, ctx, eng, r, 'P01', ('tree', 'S', 'stm'))
            n += 1
    ctx.floor('store functions', n, 40)
    store.order_consistent(ctx, eng, 'P01', store.STORES)
