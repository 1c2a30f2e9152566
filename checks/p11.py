"""RDF display: every trace of every display function over an abstract formatter, from an arbitrary value, with failing writes."""
from lib import *
import disp
import text
import store
RULE = ('the stream of tokens written equals the N-Triples syntax of the value; loops over characters keep the output in step with the escaped input; '
        'a failed write is reported and nothing is written after it; the options of the formatter are not consulted')


def run_check(ctx):
    eng = ctx.engine(disp.DM)
    seng = ctx.engine({**store.SM, **disp.DM}, 3000000)
    n = 0
    for r in [r for r in ctx.p.roots if r['name'] in ('rdf_fmt', 'rdf_fmt_with', 'fmt') and r['eff_pub']]:
        s, t = r['bself'], r['btrait']
        if r['name'] == 'fmt' and t != 'Display' or s == 'QuadExportFailed':
            continue
        n += 1
        if s in store.STORES:
            ctx.section(r['path'], disp.check_store, ctx, seng, r)
        elif s == 'str' and t == 'RdfDisplay':
            ctx.section(r['path'], disp.check_escape, ctx, eng, r, 'lit')
        elif s == 'IriRef' and t == 'RdfDisplay':
            ctx.section(r['path'], disp.check_escape, ctx, eng, r, 'iri')
        elif s == 'RdfDisplayed':
            ctx.section(r['path'], disp.check_display, ctx, eng, r, lambda st, a: disp.want(eng, st, opened(eng, st, text.deep(eng, st, a[0])).f[0]))
        elif s == 'Contextual':
            def exp(st, a):
                v = opened(eng, st, text.deep(eng, st, a[0]))
                return [('rdfw', eng.term(st, text.deep(eng, st, v.f[0])), eng.term(st, text.deep(eng, st, v.f[1])))]
            ctx.section(r['path'], disp.check_display, ctx, eng, r, exp)
        elif r['name'] == 'rdf_fmt_with':
            def exw(st, a):
                v = text.deep(eng, st, a[0])
                if text.type_name(eng, v) is None:
                    return [('rdfw', eng.term(st, v), eng.term(st, text.deep(eng, st, a[1])))]
                return disp.want(eng, st, v)
            ctx.section(r['path'], disp.check_display, ctx, eng, r, exw)
        else:
            ctx.section(r['path'], disp.check_display, ctx, eng, r, plain=t == 'Display')
    for r in ctx.idx.get('rdf_display', []):
        if r['eff_pub']:
            check_fn(ctx, eng, r, lambda e: X('RdfDisplayed', 'RdfDisplayed', e.args[0]), label=r['path'])
            n += 1
    ctx.floor('display functions', n, 40)
