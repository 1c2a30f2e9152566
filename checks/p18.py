"""P18: pattern maps associate each pattern with its own value."""
from lib import *
import pmap
from pmap import *

RULE = "the access path of the set that each operation uses: one per pattern for insert, those of the matching patterns for get, the same path for union"

ASSUME = ['HashMap and HashSet behave as finite maps and sets; equality and hashing of the keys and values agree',
          'iterating over a hash set yields each of its values once',
          'the loops over the entries of a map carry no state from one iteration to the next (checked), so that one generic entry stands for all']


def run_check(ctx):
    ctx.assumptions += ASSUME
    eng = ctx.engine(PM)
    ins = {r['nself']: r for r in map_roots(ctx, 'insert')}
    gets = map_roots(ctx, 'get')
    for r in map_roots(ctx, 'default', 'Default'):
        ctx.section('default', check_default, ctx, eng, r)
    for r in ins.values():
        ctx.section('insert', check_insert, ctx, eng, r)
    for r in gets:
        if r['nself'] in ins:
            ctx.section('get', check_get, ctx, eng, r, ins[r['nself']])
    nx = [r for r in ctx.p.roots if r['name'] == 'next' and r['btrait'] == 'Iterator' and r['file'].startswith('src/pattern/')]
    for r in nx:
        ctx.section('next', check_next, ctx, r, PM)
    us = [r for nm in ('union_with', 'union') for r in map_roots(ctx, nm)]
    for r in us:
        ctx.section('union', check_union, ctx, r, PM)
    ctx.floor('pattern maps with insertion and lookup', min(len(ins), len(gets)), 1)
    ctx.floor('iterators over the values', len(nx), 1)
