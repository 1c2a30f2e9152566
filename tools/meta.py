#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below; a property is claimed when checks/<id>.py exists."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = 'src/dataset/'
G = 'src/dataset/graph/'
P = []


def prop(id, title, statement, over, q, why, files, mech, note, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': q}, why_tests_cant=why,
                  anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}, note=note, na=na))


STORES = [G + 'impl/btree_graph.rs', G + 'impl/indexed_btree_graph.rs', D + 'impl/btree_dataset.rs', D + 'impl/indexed_btree_dataset.rs']
prop('P01', 'Graph and dataset stores behave as sets of statements',
     'After any history of insertions and removals, each in-memory graph or dataset contains exactly the statements inserted and not removed since, each once. Insertion returns true exactly when the statement was absent, removal returns true exactly when it was present, containment and length agree with the contents, and no operation affects any other statement.',
     ['inputs', 'histories'], 'every history of operations over every statement, including statements whose components coincide',
     'unit tests run a few fixed histories on one store type; the guarantee is inductive over histories and every aliasing of the components',
     STORES, [('insertion', 'BTreeGraph/IndexedBTreeGraph/BTreeDataset/IndexedBTreeDataset::insert'), ('removal', '::remove'), ('membership', '::contains, ::len, ::is_empty')],
     'inductive step over an abstract heap model of the slab, the raw B-trees and the role sets')
prop('P02', 'Indexed stores list resources exactly by their roles',
     'The resource listing of every store describes exactly the resources used by a stored statement. In the indexed stores the resource listing, the subject, predicate, object and named-graph listings, and their counts always describe exactly the resources playing that role in a stored statement. Asking whether a resource plays a role, or for the statements in which it plays it, answers from the stored statements alone after any history.',
     ['inputs', 'histories'], 'every history of insertions and removals on every store',
     'tests never remove statements from an indexed store and then query its listings', [STORES[1], STORES[3]],
     [('role sets', 'Resource::insert/remove'), ('role listings', 'subjects/predicates/objects/named_graphs')],
     'inductive step over an abstract heap model')
prop('P03', 'Pattern matching yields exactly the matching statements',
     'For every pattern, including repeated variables and the default graph, matching a store yields exactly the stored statements that satisfy the pattern, each once, and the iteration ends. The number of stored or previously removed statements, and their order of insertion, change nothing to that.',
     ['inputs', 'histories'], 'every pattern against every reachable store state', 'tests cover a few patterns on hand-built stores', STORES,
     [('pattern matching iterators', 'PatternMatching::next')], 'per-step transition analysis of the iterators over an abstract store')
prop('P04', 'Bulk construction and conversion preserve the statements',
     'Collecting or extending a store from statements gives the set of exactly those statements. Converting between the indexed and plain stores, cloning, and turning a store into its statements keep exactly the same set of statements.',
     ['inputs', 'histories'], 'every sequence of statements and every store', 'tests build small stores only', STORES,
     [('bulk construction', 'FromIterator/Extend'), ('conversion', 'into_indexed/From')], 'summary reuse of insert over the iteration loop')
prop('P05', 'Removing a graph affects that graph only',
     'Removing a graph from a dataset, named or default, removes exactly the statements of that graph and returns exactly their triples. Every other statement stays, including the same triples in other graphs. A graph without statements is reported as absent or returned empty, and nothing changes.',
     ['inputs', 'histories'], 'every dataset and every graph name', 'no test exercises it', STORES[3:], [('graph removal', 'IndexedBTreeDataset::remove_graph')],
     'shape analysis with an inductive loop rule over an abstract heap model')
prop('P06', 'Stores compare by their statements',
     'Two stores are equal exactly when they contain the same statements, whatever the history that built them. Ordering and hashing agree with that equality.',
     ['inputs', 'histories'], 'every pair of stores and their histories', 'tests compare a few stores built in the same order', STORES,
     [('comparison', 'PartialEq/Ord/Hash of the stores')], 'effect analysis')
prop('P07', 'Isomorphism answers only with a valid renaming of blank nodes',
     'Two datasets are reported isomorphic exactly when a one-to-one renaming of blank nodes turns the statements of the first into those of the second; resources that are not blank are only ever matched with themselves. A renaming that is returned is one-to-one and maps every statement onto a statement of the other dataset.',
     ['inputs'], 'every pair of datasets', 'tests sample a handful of pairs; soundness is about every pair', [D + 'isomorphism.rs'],
     [('comparison of statements under a partial renaming', 'signature_matches_with/quad_matches_with'), ('signatures', 'collect_signatures'),
     ('search step', 'find_from_candidates'), ('answer', 'find_bijection_with and its callers')],
    'abstract interpretation of every step of the search over symbolic sets of statements, each against its contract (assume/guarantee between the steps)')
prop('P08', 'Blank node identifiers are accepted exactly by the grammar',
     'A text is accepted as a blank node identifier exactly when it is "_:" followed by a label of the documented grammar (N-Triples BLANK_NODE_LABEL). Acceptance never depends on which constructor is used, and a rejected text is handed back unchanged.',
     ['inputs'], 'every text over every character', 'tests try a few dozen texts out of all character sequences', ['src/blankid.rs'],
     [('grammar', 'BlankId::validate and its char classes'), ('constructors', 'BlankId::new, BlankIdBuf::new, from_*')],
     'the abstract interpreter extracts the acceptor as a finite automaton over character classes and compares it with the grammar automaton')
prop('P09', 'Every blank node identifier that can be obtained is valid',
     'Every safe way of obtaining a blank node identifier (parsing, conversion, generation from an index or suffix, deserialisation, cloning, widening) yields either an error or a text that the grammar accepts. The identifier then gives back exactly that text, and its suffix is the text without the "_:" prefix; an identifier made from a suffix or a number has that suffix, or the decimal digits of that number as suffix.',
     ['inputs', 'programs'], 'every safe program building identifiers', 'tests call some constructors with valid texts', ['src/blankid.rs', 'src/term/generator/blank.rs'],
     [('unchecked construction', 'calls of new_unchecked')], 'interprocedural provenance analysis of every construction site')
prop('P10', 'Generated terms are fresh',
     'A generator never returns the same identifier twice over its lifetime, whatever its prefix and starting count, and it only returns valid blank node identifiers or stops. Scoped or borrowed use of a generator continues the same sequence.',
     ['inputs', 'histories'], 'every sequence of calls, prefix and starting count', 'tests draw a few identifiers', ['src/term/generator/blank.rs', 'src/term/generator/mod.rs', 'src/term/generator/interpretation.rs'],
     [('counter', 'Blank::next'), ('delegation', 'Generator for &mut G')], 'monotone counter and injective format analysis')
prop('P11', 'RDF display writes the exact N-Triples syntax of a value',
     'The RDF display of every term, literal, triple and quad is the N-Triples / N-Quads syntax of that value: IRIs between angle brackets, literals quoted with type or language tag, components separated by one space. Every character that the syntax forbids inside an IRI or a literal is written as its escape sequence, every other character as itself, and formatter flags change nothing.',
     ['inputs', 'configurations'], 'every value, every character and every formatter configuration', 'tests print a few values with the default formatter', ['src/display.rs', 'src/blankid.rs', 'src/literal/mod.rs', 'src/literal/type/mod.rs', 'src/term/mod.rs', 'src/term/local/mod.rs', 'src/triple.rs', 'src/quad.rs'],
     [('display', 'RdfDisplay::rdf_fmt implementations')], 'write-sequence analysis over an abstract formatter, character classes for the escapes')
prop('P12', 'Conversions between term representations keep the term',
     'Converting, borrowing, cloning or making owned a term, identifier, literal or literal type never changes what it denotes. Accessors and tests of the kind of a term answer for exactly that kind, return exactly that part, and a failed conversion hands the value back unchanged.',
     ['inputs'], 'every value of every representation', 'tests convert a few sample terms', ['src/term/mod.rs', 'src/term/ref.rs', 'src/term/cow.rs', 'src/term/local/mod.rs', 'src/id/mod.rs', 'src/literal/mod.rs', 'src/literal/ref.rs', 'src/literal/type/mod.rs', 'src/literal/type/ref.rs'],
     [('conversions', 'as_*/into_*/From/TryFrom/AsRef of the term types')], 'content-preservation analysis on every trace')
prop('P13', 'Equality, ordering and hashing of terms agree',
     'Equality of terms, identifiers, literals, triples and quads is equality of what they denote, across owned, borrowed and copy-on-write representations. Ordering is a total order consistent with equality, and equal values hash equally across representations.',
     ['inputs'], 'every pair of values', 'tests compare sample values', ['src/term/mod.rs', 'src/literal/mod.rs', 'src/literal/type/mod.rs', 'src/id/mod.rs', 'src/blankid.rs', 'src/triple.rs', 'src/quad.rs'],
     [('comparison', 'PartialEq/PartialOrd/Ord/Hash implementations')], 'relational analysis of the comparison functions on every pair of shapes')
prop('P14', 'Triple and quad operations act on the named component only',
     'Constructing, reading, replacing or mapping components of a triple or quad acts on exactly the named component and keeps the others in place. Conversions between triples and quads keep the components, and mapping functions are applied once per component, in order.',
     ['inputs'], 'every triple, quad and function', 'tests use a few concrete triples', ['src/triple.rs', 'src/quad.rs'],
     [('component operations', 'Triple and Quad methods')], 'component-wise analysis on every trace')
prop('P15', 'Canonical patterns keep the meaning of the pattern they come from',
     'Turning a triple or quad pattern, an optional triple or quad, or a concrete statement into a canonical pattern keeps its meaning: given components are kept, repeated variables are recorded as equal, and distinct variables stay unconstrained. Two patterns that differ only in the names of their variables have the same canonical form.',
     ['inputs'], 'every pattern and every coincidence between its variables', 'no test covers the quad patterns', ['src/pattern/triple/canonical.rs', 'src/pattern/quad/canonical.rs'],
     [('construction', 'from_pattern/from_triple/from_quad/from_option_triple/From')], 'semantic-parts oracle on every trace')
prop('P16', 'Canonical triple patterns answer and update faithfully',
     'The accessors of a canonical triple pattern report each component as given, equal to an earlier component, or unconstrained, exactly as recorded. Setting a component gives it that value together with the components bound to it, keeps everything else, and returns what was there before.',
     ['inputs'], 'every canonical pattern and value', 'no test covers them', ['src/pattern/triple/canonical.rs', 'src/pattern/resource_or_variable.rs'],
     [('update', 'set_*/with_*'), ('access', 'subject/predicate/object')], 'semantic-parts oracle on every trace')
prop('P17', 'Canonical quad patterns answer and transform faithfully',
     'The accessors, projections and mappings of canonical quad patterns report and keep each component as given, equal to an earlier component, or unconstrained, exactly as recorded. Splitting a quad pattern into a triple and a graph pattern, or making it match any graph, changes nothing else.',
     ['inputs'], 'every canonical quad pattern', 'no test covers them', ['src/pattern/quad/canonical.rs'], [('access', 'subject/predicate/object/graph'), ('transform', 'map/as_ref/into_triple/into_parts/with_any_graph')],
     'semantic-parts oracle on every trace')
prop('P18', 'Pattern maps associate each pattern with its own value',
     'A map keyed by canonical triple patterns keeps, for every pattern, the set of values inserted for exactly that pattern. Looking up a triple yields the values of all the patterns that match it, each once per pattern, and of no other pattern. Union keeps the entries of both maps, each under its own pattern, merging only the values of the same pattern.',
     ['inputs', 'histories'], 'every pattern, value and history', 'no test covers the map', ['src/pattern/triple/map.rs'], [('lookup', 'TriplePatternMap::get/insert'), ('union', 'union/union_with')],
     'slot-selection analysis on every trace')
prop('P19', 'Interpretations dispatch each kind of term to its own mapping',
     'Interpreting or looking up an IRI, blank identifier, literal, identifier or term consults the mapping of exactly that kind with exactly that value and returns its answer. Creating a resource through an interpretation with a generator generates one term, inserts exactly that term and returns the resource assigned to it, affecting nothing else.',
     ['inputs', 'histories'], 'every term and interpretation', 'no test covers the interpretations', ['src/interpretation/mod.rs', 'src/interpretation/impl/with_generator.rs', 'src/interpretation/impl/none.rs', 'src/term/generator/interpretation.rs'],
     [('dispatch', 'Interpretation*/ReverseInterpretation* default methods'), ('generation', 'WithGenerator')], 'call-sequence analysis against the dispatch specification')
prop('P20', 'Adapters and default methods agree with the operation they stand for',
     'The fallible views, by-reference implementations, graph-as-dataset views and default methods of the dataset and interpretation traits give exactly the answers of the operation they stand for on the same arguments. Statements of a graph seen as a dataset are in the default graph, and nothing is in any other graph.',
     ['inputs', 'programs'], 'every implementor and every argument', 'tests use one implementor directly', [D + 'mod.rs', D + 'fallible.rs', G + 'mod.rs', G + 'fallible.rs', 'src/interpretation/fallible.rs', 'src/utils.rs'],
     [('delegation', 'blanket implementations and default methods')], 'call-sequence analysis against the delegation specification')
prop('P21', 'Serialised values read back as the same value',
     'Deserialising the serialised form of a term, literal, identifier, triple, quad, graph or dataset gives the same value back, and borrowed representations serialise as the owned ones. Deserialisation rejects input that does not denote a valid value, and errors of the data format are always reported.',
     ['inputs'], 'every value and every serialised input', 'tests do not cover serialisation', ['src/blankid.rs', 'src/triple.rs', 'src/quad.rs', 'src/literal/mod.rs', 'src/literal/type/mod.rs', 'src/term/mod.rs', 'src/term/local/mod.rs'] + STORES,
     [('serde', 'Serialize/Deserialize implementations')], 'the data written over an abstract serialiser is read back over an abstract deserialiser')
prop('P22', 'Vocabulary constants denote the standard IRIs',
     'Every exported vocabulary constant is the IRI that the corresponding W3C vocabulary assigns to that name, and it is a valid IRI.',
     ['configurations'], 'every exported constant', 'no test reads them', ['src/schema.rs'], [('constants', 'schema constants')], 'constant evaluation by the compiler and comparison with the W3C names')

prop('P23', 'Statement macros build the statement that is written',
     'Every use of a statement macro expands to the statement written: each component is the term written in its place, of the kind its syntax denotes, and a quad without graph is in the default graph. Lists of statements keep every statement, in order. Text that is not a statement does not compile.',
     ['programs'], 'every combination of kinds of components in every position', 'tests use one macro with few kinds of components', ['src/macro.rs'], [('expansion', 'grdf_triple!/grdf_quad!/grdf_quad_pattern!/grdf_triples!/grdf_quads!')],
     'witness crate type-checked against the working tree, abstract interpretation of the MIR of every expansion; compile-fail witnesses')

if __name__ == '__main__':
    checks, na = [], []
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k not in ('note', 'na')}) + '\n')
            i = p['id']
            if os.path.exists(os.path.join(HERE, 'checks', i.lower() + '.py')):
                checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
                               'technique': 'static analysis: trace-partitioned abstract interpretation of the compiler\'s MIR; ' + p['note'], 'level': 'other',
                               'level_note': 'Sound for the traces the abstract transformers cover, assuming the library models listed in DESIGN.md; obligations outside the domain are reported as undecided in the evidence and claim nothing.'})
            else:
                na.append({'property': i, 'reason': p['na'] or 'not decided yet'})
    json.dump({'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': na}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    assert all(len(p['title']) <= 80 for p in P)
