"""Empty stores, bulk construction, cloning, conversion and consumption of the four in-memory stores."""
from lib import *
import store
import bulk
RULE = ('new stores are empty; building or extending from a sequence takes every statement and adds exactly it (induction over the loop, from an arbitrary store); a clone copies each container; '
        'indexing a plain store keeps its slabs and gives each statement exactly its index entries; consuming iteration yields every stored statement')


def run_check(ctx):
    eng = bulk.engine(ctx)
    n = 0
    for s in store.STORES:
        idx = lambda nm: [r for r in ctx.idx.get(nm, []) if r['bself'] == s and r['eff_pub']]
        for nm in ('new', 'default'):
            for r in idx(nm):
                ctx.section(r['path'], bulk.check_new, ctx, eng, r)
                n += 1
        for r in idx('extend'):
            ctx.section(r['path'], bulk.check_bulk, ctx, eng, r, 'S')
            n += 1
        for r in idx('from_iter'):
            ctx.section(r['path'], bulk.check_bulk, ctx, eng, r, 'new')
            n += 1
        for r in idx('clone'):
            ctx.section(r['path'], bulk.check_clone, ctx, eng, r)
            n += 1
        for r in idx('from_non_indexed') + idx('into_indexed') + [r for r in idx('from') if 'BTree' in r['ntrait']]:
            ctx.section(r['path'], bulk.check_convert, ctx, eng, r)
            n += 1
        for r in idx('into_iter'):
            ctx.section(r['path'], store.check_iteration, ctx, eng, r, 'P04', ('tree', 'S', 'stm'))
            n += 1
    for r in ctx.idx.get('visit_seq', []):
        if 'BTree' in r['path']:
            ctx.section(r['path'], bulk.check_bulk, ctx, eng, r, 'new', label=r['path'].split(' as serde')[0].split('::')[-1] + '::deserialize visit_seq')
            n += 1
    ctx.floor('bulk functions', n, 30)
