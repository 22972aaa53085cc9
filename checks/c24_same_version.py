"""C24: preparing a document in its own version does not change it."""
import copy
from vlib import graph, grammar as g
from vlib.core import same, first_diff
from vlib.drive import World, underlying, jref, parser_of
from vlib.graph import explore
from vlib.view import view
from checks.c12_sources import int_codes

ID = 'C24'
TITLE = 'preparing in the same version'
BUDGET = {'quick': 3000, 'thorough': 60000}
NEED = {'roots': 2900, 'parts': 4000, 'references': 15000, 'number_codes': 800, 'found': 2900, 'found_parts': 4000,
        'twice': 600, 'merged_items': 2000}
RULE = ('random graphs of 1-4 documents (2.0, 3.0.0), references at every place allowed, response codes as strings and '
        'numbers; after preparing, the root and each part of another document reached compared with what was written, '
        'references as locations.')


def absolute(gr, kind, raw, url):
    """ a copy that holds absolute references """
    raw = copy.deepcopy(raw)
    for _, k, node in list(g.walk(gr.spec, kind, raw)):
        if k[0] == 'o' and isinstance(node.get('$ref'), str):
            node['$ref'] = jref(gr.target(url, node['$ref']))
    return raw


def judge(mon, gr, url, kind, raw, obj, what, **data):
    want = absolute(gr, kind, g.prune(gr.spec, kind, raw), url)
    got = absolute(gr, kind, view(gr.spec, kind, obj), url)
    mon.counts['oracle_decisions'] += 1
    if not same(got, want):
        mon.fail(what, diff=first_diff(got, want), **data)


def case(mon, rng, index, tier):
    version = ('2.0', '3.0.0')[index % 2]
    gr = graph.make(rng, version, size=rng.choice([6, 15, 40]), density=rng.choice([0.1, 0.3]))
    kind = ('o', gr.spec.root)
    docs = gr.docs
    if index % 3 == 0:
        docs = copy.deepcopy(docs)
        mon.count('number_codes', int_codes(gr, docs))
    mon.context = {'version': version, 'root': gr.root, 'docs': gr.docs}
    app = World(docs).load(gr.root)
    if docs is gr.docs:
        judge(mon, gr, gr.root, kind, docs[gr.root], app.raw, 'the loaded document says something else')
    app.root = app.migrate_obj(app.raw, gr.root, version)
    twice = rng.random() < 0.3
    if twice:
        # preparing what is prepared
        again = app.migrate_obj(app.root, gr.root, version)
        mon.check(underlying(again) is underlying(app.root), 'preparing once more makes another object')
        mon.count('twice')
    judge(mon, gr, gr.root, kind, gr.docs[gr.root], app.root, 'preparing changed the document', twice=twice)
    mon.count('roots')
    got, at = app.resolve_obj(gr.root + '#', from_spec_version=version)
    mon.check(underlying(got) is underlying(app.root), 'another object is found at the location of the document')
    mon.count('found')
    seen = set()
    for e in explore(gr, app.root):
        if e[0] == 'node':
            if e[2] == ('o', 'PathItem') and '$ref' in e[3]:
                mon.count('merged_items')
            continue
        _, here, name, obj, to, target = e
        mon.count('references')
        mon.check(target is not None, 'a reference was not resolved', at=here)
        if to in seen:
            continue
        seen.add(to)
        slot = gr.slot_kind(name)
        raw = gr.at(to)
        judge(mon, gr, to[0], slot, raw, target, 'preparing changed a part of another document', at=to)
        mon.count('parts')
        if len(seen) % 2:
            got, where = app.resolve_obj(jref(to), from_spec_version=version, parser=parser_of(version, name))
            mon.check(underlying(got) is underlying(target), 'another object is found at the location of a part', at=to)
            mon.equal(where.partition('#')[::2], jref(to).partition('#')[::2], 'a part is found somewhere else')
            mon.count('found_parts')
    mon.shape([gr.docs])
    if len(docs) > 1 and index % 50 == 0:
        mon.sample(mon.context)
