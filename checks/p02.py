"""Role listings, resource listing and their counts, after every insertion and removal from an arbitrary store."""
from lib import *
import store
RULE = 'from any store satisfying the representation invariant, each operation leaves exact role sets, listings and resource entries; each listing iterates over exactly its index, and each count is its size'

LISTS = {'subjects': 's', 'predicates': 'p', 'objects': 'o', 'named_graphs': 'g'}


def run_check(ctx):
    eng = store.engine(ctx)
    n = 0
    for s in store.STORES:
        for name, spec in (('insert', store.spec_insert(eng)), ('remove', store.spec_remove(eng)), ('contains_resource', store.spec_contains_resource(eng))):
            for r in ctx.need(s, name):
                ctx.section(r['path'], store.judge_op, ctx, eng, r, 'P02', spec)
                n += 1
        for name in ('resources', 'graph_resources'):
            for r in ctx.find(s, name) + ctx.find(s, name, trait='ResourceTraversableGraph') + ctx.find(s, name, trait='ResourceTraversableDataset'):
                ctx.section(r['path'], store.check_iteration, ctx, eng, r, 'P02', ('tree', 'S', 'res'))
                n += 1
        for l, x in LISTS.items():
            for nm in (l, 'graph_' + l):
                for r in [r for r in ctx.idx.get(nm, []) if r['bself'] == s and r['eff_pub']]:
                    ctx.section(r['path'], store.check_iteration, ctx, eng, r, 'P02', ('set', 'S', 'list', x))
                    n += 1
        for nm, want in [('resource_count', len0_res), ('graph_resource_count', len0_res)] + [(p + l[:-1] + '_count', card(x)) for l, x in LISTS.items() for p in ('', 'graph_')]:
            for r in [r for r in ctx.idx.get(nm, []) if r['bself'] == s and r['eff_pub']]:
                def spec(st, args, o, want=want):
                    if st.try_int('eq', o.val, want) is not True:
                        return ('P02',), 'the count is not the number of listed resources'
                ctx.section(r['path'], store.judge_op, ctx, eng, r, 'P02', spec)
                n += 1
    ctx.floor('store functions', n, 40)


len0_res = store.len0(('S', 'res'))


def card(x):
    return Sym(('card', ('S', 'list', x)))
