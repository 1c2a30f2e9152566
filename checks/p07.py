"""P07: two datasets are isomorphic exactly when a renaming of blank nodes turns one into the other."""
from lib import *
import iso

RULE = ('each step of the search against its contract: two quads correspond under a partial renaming exactly when every component does; lists of '
        'quads match exactly when they can be paired off; every blank node gets the statements it occurs in; every candidate is tried under the '
        'current renaming extended by it; an answer is refused only by a necessary condition')

ASSUME = ['BTreeMap, BTreeSet, Vec and the iterator adaptors behave as finite maps, sets and sequences; the order of their elements is arbitrary',
          'a resource has at most one IRI and one literal; is_anonymous answers whether it has none',
          'lists of statements are analysed up to three elements, blank nodes and candidates up to two',
          'quads that may correspond fall into classes: those that match a common quad match the same quads (follows from the contract of the comparison)']


def run_check(ctx):
    ctx.assumptions += ASSUME
    ctx.section('quad_matches', iso.check_quad_match, ctx, 'quad_matches', False)
    ctx.section('quad_matches_with', iso.check_quad_match, ctx, 'quad_matches_with', True)
    ctx.section('matches', iso.check_sig_match, ctx, 'matches', 'quad_matches')
    ctx.section('signature_matches_with', iso.check_sig_match, ctx, 'signature_matches_with', 'quad_matches_with')
    ctx.section('blank_count', iso.check_blank_count, ctx)
    ctx.section('ground_quads_match', iso.check_ground, ctx)
    ctx.section('collect_signatures', iso.check_collect, ctx)
    ctx.section('find_from_candidates', iso.check_search, ctx)
    ctx.section('find_bijection_with', iso.check_top, ctx)
    ctx.section('wrappers', iso.check_wrappers, ctx)
    n = sum(1 for o in ctx.obs if o[1] == OK)
    ctx.floor('steps of the search discharged', n, 10)
