"""Serialised forms: what each Serialize implementation writes, read back by the Deserialize implementation of the same value."""
from lib import *
import ser
import store
import bulk
RULE = ('the data written over an abstract serialiser, read over an abstract deserialiser holding it (fields by name in both orders, by position, variants by name and by index), gives the value back; '
        'failing or truncated data is an error; stores write each statement once')

OWNED = {'LiteralRef': 'Literal', 'CowLiteral': 'Literal', 'LiteralTypeRef': 'LiteralType', 'CowLiteralType': 'LiteralType'}


def run_check(ctx):
    ctx.assumptions += ['serialisers and deserialisers hand data through unchanged (fields, variants, sequences, texts)', 'the implementations for IRIs, language tags, strings, options and the generic components round-trip',
                        'no IRI is a blank node identifier: "_:" starts no IRI']
    eng = ser.engine(ctx)
    S = [r for r in ctx.p.roots if r['name'] == 'serialize' and r['btrait'] == 'Serialize' and r['eff_pub']]
    D = {r['bself']: r for r in ctx.p.roots if r['name'] == 'deserialize' and r['btrait'] == 'Deserialize' and r['eff_pub']}
    seng = ctx.engine({**store.SM, **ser.XM}, 3000000)
    seng.counts = True
    seng.pre_call = ser.pre_call(seng.pre_call)
    n = 0
    for r in S:
        b = r['bself']
        if b in store.STORES:
            ctx.section(r['path'], ser.check_store, ctx, seng, r)
            n += 1
        else:
            d = D.get(OWNED.get(b, b))
            if d is not None:
                ctx.section(r['path'], ser.check_roundtrip, ctx, eng, r, d)
                n += 1
    for b in store.STORES:
        if b in D:
            ctx.section(b, ser.check_entry, ctx, seng, D[b])
    if 'BlankIdBuf' in D:
        ctx.section('BlankIdBuf', ser.check_blank, ctx, eng, D['BlankIdBuf'])
    beng = bulk.engine(ctx)
    for r in ctx.idx.get('visit_seq', []):
        if 'BTree' in r['path']:
            ctx.section(r['path'], bulk.check_bulk, ctx, beng, r, 'new', label=r['path'].split(' as serde')[0].split('::')[-1] + '::deserialize visit_seq')
            n += 1
    ctx.floor('serialisation implementations', n, 12)
