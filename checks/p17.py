"""Accessors, projections and mappings of canonical quad patterns."""
from lib import *
from pat import *
RULE = 'the components described by the result (given / equal to an earlier one / any) are those of the specification on every trace'
GROUP = 'quad'


def run_check(ctx):
    eng = ctx.engine()
    tops = {'from': [('CanonicalTriplePattern', 'from_pattern'), ('CanonicalTriplePattern', 'from_triple'), ('CanonicalTriplePattern', 'from_option_triple'),
                     ('CanonicalQuadPattern', 'from_pattern'), ('CanonicalQuadPattern', 'from_quad'), ('CanonicalQuadPattern', 'from_option_quad')],
            'triple': [('CanonicalTriplePattern', n) for n in ('subject', 'predicate', 'object', 'set_subject', 'set_predicate', 'set_object')],
            'quad': [('CanonicalQuadPattern', n) for n in ('subject', 'predicate', 'object', 'graph', 'into_triple', 'into_parts', 'map', 'map2', 'as_ref')]}
    for b, n in tops[GROUP]:
        ctx.need(b, n)
    n = 0
    for r in pattern_roots(ctx):
        n += bool(ctx.section(r['path'], check_pattern_fn, ctx, eng, r, [GROUP]))
    ctx.floor('pattern functions', n, 100)
