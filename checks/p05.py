"""Removal of a graph from the indexed dataset, from an arbitrary dataset."""
from lib import *
import store
import bulk
RULE = 'the loop visits exactly the statements of the graph; each iteration removes exactly the statement it visits (full audit of the representation) and inserts its triple in the returned graph'


def run_check(ctx):
    m = dict(bulk.BM)
    for r in ctx.idx.get('insert', []):
        if r['bself'] in ('BTreeGraph', 'IndexedBTreeGraph') and r['btrait'] is None:
            m[r['path']] = bulk.ginsert
    eng = ctx.engine(m, 6000000)
    n = 0
    for s in store.STORES:
        for r in [r for r in ctx.idx.get('remove_graph', []) if r['bself'] == s and r['eff_pub']]:
            ctx.section(r['path'], bulk.check_remove_graph, ctx, eng, r)
            n += 1
    # the removal of a graph relies on the indexes: they are exact after every insertion and removal
    seng = store.engine(ctx)
    for s in store.STORES:
        if ctx.idx.get('remove_graph') and any(r['bself'] == s for r in ctx.idx['remove_graph']):
            for name, spec in (('insert', store.spec_insert(seng)), ('remove', store.spec_remove(seng))):
                for r in ctx.need(s, name):
                    ctx.section(r['path'], store.judge_op, ctx, seng, r, 'P05', spec, s + '::' + name + ': indexes', ())
    ctx.floor('graph removals', n, 1)
