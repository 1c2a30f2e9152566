"""Vocabulary constants denote the IRIs of the RDF and RDFS vocabularies."""
from lib import *
RULE = 'evaluated constant text equals namespace + local name, the local name being the only one of the W3C vocabulary with the words of the constant name'

RDF = 'http://www.w3.org/1999/02/22-rdf-syntax-ns#'
RDFS = 'http://www.w3.org/2000/01/rdf-schema#'
XSD = 'http://www.w3.org/2001/XMLSchema#'
# W3C RDF 1.1 Schema, RDF 1.1 Concepts, JSON-LD 1.1
LOCAL = {
    'RDFS': (RDFS, ['Resource', 'Class', 'Literal', 'Datatype', 'Container', 'ContainerMembershipProperty', 'range', 'domain', 'subClassOf',
                    'subPropertyOf', 'label', 'comment', 'member', 'seeAlso', 'isDefinedBy']),
    'RDF': (RDF, ['langString', 'HTML', 'XMLLiteral', 'JSON', 'Property', 'Bag', 'Seq', 'Alt', 'List', 'Statement', 'type', 'first', 'rest', 'subject',
                  'predicate', 'object', 'value', 'nil']),
    'XSD': (XSD, ['string']),
}


def run_check(ctx):
    n = 0
    for voc, (ns, names) in LOCAL.items():
        for l in names:
            words = re.findall(r'[A-Z]+(?![a-z])|[A-Z]?[a-z]+', l)
            cname = voc + '_' + '_'.join(w.upper() for w in words)
            cs = [c for c in ctx.p.consts.values() if short(c['const']) == cname]
            if not cs:
                ctx.ob('constant ' + cname, UND, 'constant not found', '')
                continue
            for c in cs:
                v = c['value']
                txt = None
                if v.get('c') == 'str':
                    txt = v['v']
                elif v.get('c') == 'refbytes':
                    txt = bytes(v['b']).decode('utf8', 'replace')
                if txt is None:
                    ctx.ob('constant ' + cname, UND, 'value not evaluated: %s' % v.get('c'), c['const'])
                    continue
                n += 1
                ctx.ob('constant ' + cname, OK if txt == ns + l else BAD, 'denotes <%s>, expected <%s>' % (txt, ns + l), c['const'])
    ctx.floor('vocabulary constants', n, 30)
