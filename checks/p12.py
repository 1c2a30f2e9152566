"""Owned, borrowed and copy-on-write forms carry the same content; accessors return their part."""
from lib import *
import text

FAMS = ['Term', 'TermRef', 'CowTerm', 'Literal', 'LiteralRef', 'CowLiteral', 'LiteralType', 'LiteralTypeRef', 'CowLiteralType',
        'LocalTerm', 'LocalTermRef', 'CowLocalTerm', 'Id', 'IdRef', 'CowId', 'BlankId', 'BlankIdBuf']
TEXT = {'String', 'str', 'IriBuf', 'Iri', 'LangTag', 'LangTagBuf', 'BlankId', 'BlankIdBuf'}


def concept(ctx, t):
    """concept denoted by a type, references and Cow erased"""
    for _ in range(6):
        ty = ctx.p.types[t]
        if ty['k'] in ('ref',):
            if ty['mut']:
                return None
            t = ty['to']
        elif ty['k'] == 'adt' and ty['def'] in COW_ADTS:
            t = ty['ga'][0]
        else:
            break
    ty = ctx.p.types[t]
    if ty['k'] == 'str':
        return 'text'
    if ty['k'] == 'slice':
        return 'bytes'
    if ty['k'] == 'adt':
        n = short(ty['def'])
        if n == 'BlankIdBuf' or n == 'BlankId':
            return 'BlankId'
        if n in ('Iri', 'IriBuf'):
            return 'Iri'
        if n in ('LangTag', 'LangTagBuf'):
            return 'LangTag'
        if n == 'String':
            return 'text'
        if ty['local']:
            return fam(n)
    return None


def run_check(ctx):
    eng = ctx.engine()
    # ---- conversions: discovered from signatures
    n = 0
    for r in ctx.p.roots:
        if not r['eff_pub'] or r['unsafe'] or r['name'] in ('fmt', 'rdf_fmt'):
            continue
        b = ctx.p.insts[r['root']].get('body')
        if b is None or b['args'] != 1:
            continue
        ci, co = concept(ctx, b['locals'][1]), concept(ctx, b['locals'][0])
        if ci is None or ci != co:
            # views of a blank identifier as text
            if not (ci == 'BlankId' and co in ('text', 'bytes') and r['name'] in ('as_str', 'as_ref', 'borrow', 'deref')):
                continue
        elif ci not in {fam(x) for x in FAMS} | {'BlankId'}:
            continue
        n += 1
        check_fn(ctx, eng, r, lambda e: e.a(0), label='conversion %s::%s' % (r['nself'], r['name']))
    ctx.floor('conversions discovered', n, 22)

    def spec(bself, name, expect, ntrait=None, post=None):
        for r in ctx.need(bself, name, ntrait=ntrait):
            check_fn(ctx, eng, r, expect, post=post)

    def pick(var, k=0, wrap=some, other=lambda e, c, f: NONE):
        def g(e):
            c, f = e.case(e.a(0))
            return wrap(f[k]) if c == var else other(e, c, f)
        return g

    def isvar(var):
        return lambda e: int(e.case(e.a(0))[0] == var)

    spec('Term', 'is_iri', isvar('Iri'))
    spec('Term', 'is_literal', isvar('Literal'))
    spec('Term', 'as_iri', pick('Iri'))
    spec('Term', 'into_iri', pick('Iri'))
    spec('Term', 'as_literal', pick('Literal'))
    spec('Term', 'into_literal', pick('Literal'))
    spec('Term', 'try_into_literal', pick('Literal', wrap=ok, other=lambda e, c, f: err(f[0])))
    spec('Term', 'try_into_iri', pick('Iri', wrap=ok, other=lambda e, c, f: err(e.a(0))))

    def local(var):
        def g(e):
            c, f = e.case(e.a(0))
            if c != 'Named':
                return NONE
            c, f = e.case(f[0])
            return some(f[0]) if c == var else NONE
        return g

    spec('LocalTerm', 'iri', lambda e: X('LocalTerm', 'Named', X('Term', 'Iri', e.a(0))))
    spec('LocalTerm', 'literal', lambda e: X('LocalTerm', 'Named', X('Term', 'Literal', e.a(0))))
    for m in ('is_anonymous', 'is_blank_id'):
        spec('LocalTerm', m, isvar('Anonymous'))
    for m in ('as_anonymous', 'as_blank_id'):
        spec('LocalTerm', m, pick('Anonymous'))
    spec('LocalTerm', 'as_iri', local('Iri'))
    spec('LocalTerm', 'as_literal', local('Literal'))
    spec('LocalTerm', 'from', lambda e: X('LocalTerm', 'Named', X('Term', 'Iri', e.a(0))), ntrait='From<IriBuf>')
    spec('LocalTerm', 'from', lambda e: X('LocalTerm', 'Named', X('Term', 'Literal', e.a(0))), ntrait='From<Literal>')
    spec('LocalTerm', 'from', lambda e: X('LocalTerm', 'Named', e.a(0)), ntrait='From<Term>')
    spec('LocalTerm', 'from', lambda e: X('LocalTerm', 'Anonymous', e.a(0)), ntrait='From<BlankIdBuf>')
    spec('Id', 'as_iri', pick('Iri'))

    def into(e, v):
        """content after a caller-chosen lossless conversion"""
        return Sym(('app', 'std::convert::Into::into', e.eng.term(e.st, v)))

    lit = lambda e, i: e.f(e.a(0), i)
    for T in ('Literal', 'LiteralRef'):
        spec(T, 'as_type', lambda e: lit(e, 1))
        spec(T, 'into_type', lambda e: lit(e, 1))
        spec(T, 'as_value', lambda e: lit(e, 0))
        spec(T, 'into_value', lambda e: lit(e, 0))
        spec(T, 'into_parts', lambda e: tup(lit(e, 0), lit(e, 1)))
        spec(T, 'as_str', lambda e: lit(e, 0))
        spec(T, 'as_bytes', lambda e: lit(e, 0))
        spec(T, 'as_ref', lambda e: lit(e, 0), ntrait='AsRef<str>')
        spec(T, 'borrow', lambda e: lit(e, 0), ntrait='Borrow<str>')
        spec(T, 'is_lang_string', lambda e: int(e.case(lit(e, 1))[0] == 'LangString'))

        def lang(e):
            c, f = e.case(lit(e, 1))
            return some(f[0]) if c == 'LangString' else NONE
        spec(T, 'lang_tag', lang)
        spec(T, 'as_type_mut', None, post=lens(lambda e, v: e.f(v, 1)))
    spec('Literal', 'as_value_mut', None, post=lens(lambda e, v: e.f(v, 0)))
    spec('Literal', 'new', lambda e: X('Literal', 'Literal', into(e, e.a(0)), into(e, e.a(1))))
    spec('LiteralRef', 'new', lambda e: X('Literal', 'Literal', e.a(0), e.a(1)))
    spec('CowLiteral', 'new', lambda e: X('Literal', 'Literal', into(e, e.a(0)), into(e, e.a(1))))

    def xsd(e, iri=None):
        c, f = e.case(e.a(0))
        if c != 'Any':
            return 0
        other = e.a(1) if iri is None else iri
        return int(models.values_eq(e.eng, e.st, strip(e.eng, e.st, f[0]), strip(e.eng, e.st, other)))
    for T in ('LiteralType', 'LiteralTypeRef'):
        spec(T, 'is_lang_string', isvar('LangString'))
        spec(T, 'lang_tag', pick('LangString'))
        spec(T, 'is_iri', xsd)
        spec(T, 'is_xsd_string', lambda e: xsd(e, Text(['http://www.w3.org/2001/XMLSchema#string'])))
    for s in ('From<&Iri>', 'From<IriBuf>', 'From<Cow<Iri>>'):
        spec('CowLiteralType', 'from', lambda e: X('LiteralType', 'Any', e.a(0)), ntrait=s)
    for s in ('From<&LangTag>', 'From<LangTagBuf>', 'From<Cow<LangTag>>'):
        spec('CowLiteralType', 'from', lambda e: X('LiteralType', 'LangString', e.a(0)), ntrait=s)
    # lexical triples and quads
    spec('Triple', 'as_lexical_triple_ref', lambda e: e.a(0))
    spec('Triple', 'into_owned', lambda e: e.a(0))
    spec('Quad', 'as_lexical_quad_ref', lambda e: e.a(0))
    spec('Quad', 'into_owned', lambda e: e.a(0))
    # a clone has the content of its original (stores: P04)
    n = 0
    for r in ctx.p.roots:
        b = ctx.p.insts[r['root']].get('body')
        if r['name'] != 'clone' or b is None or b['args'] != 1:
            continue
        c = concept(ctx, b['locals'][1])
        if c in {fam(x) for x in FAMS} | {'BlankId'}:
            continue  # judged as a conversion
        if r['bself'] not in ('BTreeGraph', 'BTreeDataset', 'IndexedBTreeGraph', 'IndexedBTreeDataset'):
            n += 1
            check_fn(ctx, eng, r, lambda e: e.a(0), label='clone of %s (%s)' % (r['nself'], r['module']))
    ctx.floor('clones', n, 30)
