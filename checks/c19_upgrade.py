"""C19: a Swagger 1.2 listing says the same once it is a Swagger 2.0 document."""
from vlib import grammar as g
from vlib.drive import World, attrs, underlying
from vlib.graph import live
from vlib.listing import ListingGen, Upgraded
from vlib.view import view

ID = 'C19'
TITLE = '1.2 to 2.0'
BUDGET = {'quick': 8000, 'thorough': 150000}
NEED = {'operations': 20000, 'models': 10000, 'references': 10000, 'several_declarations': 3000, 'same_ids': 1000,
        'param_body': 1000, 'param_form': 1000, 'param_multiple': 1000, 'auth_inherited': 1000, 'auth_removed': 300,
        'mimes_inherited': 3000, 'sub_types': 1000, 'no_host': 500, 'host': 2000, 'several_hosts': 100, 'files': 200}
RULE = ('random 1.2 listings with 1-4 declarations that share model names, paths and hosts; the upgraded document compared '
        'with an independently written model of the upgrade, each reference with the definition it names.')


def plain(doc):
    """ what is off by default is as good as what is not there """
    doc = {k: v for k, v in doc.items() if not (k in ('host', 'basePath') and v == '')}
    for item in (doc.get('paths') or {}).values():
        for op in item.values():
            if isinstance(op, dict) and op.get('deprecated') is False:
                del op['deprecated']
    return doc


def tally(mon, docs, names, up):
    seen = set()
    for d in up.decls:
        scope = (d.get('resourcePath') or '')[1:]
        for m in d.get('models') or {}:
            mon.count('models')
            if any(s != scope and x == m for s, x in seen):
                mon.count('same_ids')
            seen.add((scope, m))
            if 'subTypes' in d['models'][m]:
                mon.count('sub_types')
        for api in d['apis']:
            for op in api['operations']:
                mon.count('operations')
                if d.get('authorizations'):
                    if 'authorizations' not in op:
                        mon.count('auth_inherited')
                    elif not op['authorizations']:
                        mon.count('auth_removed')
                if 'produces' in d and 'produces' not in op:
                    mon.count('mimes_inherited')
                for p in op['parameters']:
                    mon.count('param_' + p['paramType'])
                    if p.get('allowMultiple'):
                        mon.count('param_multiple')
                    if p.get('type') == 'File':
                        mon.count('files')
    if len(names) > 1:
        mon.count('several_declarations')


def case(mon, rng, index, tier):
    sep = '!##!' if rng.random() < 0.7 else rng.choice(['::', '_', '/', '.'])
    gen = ListingGen(rng, odd=0.25 if sep == '!##!' else 0)
    docs, names = gen.docs()
    mon.context = {'root': gen.root, 'docs': docs, 'sep': sep}
    up = Upgraded(docs, gen.root, names, gen.base, sep)
    want = up.document()
    app = World(docs).create(gen.root, '2.0', sep=sep)
    got = view(g.V2, ('o', 'Swagger'), app.root)
    mon.equal(plain(got), g.prune(g.V2, ('o', 'Swagger'), plain(want)), 'the upgraded document says something else')
    mon.count('host' if 'host' in want else 'several_hosts' if any('://' in p for p in want.get('paths', {}))
              else 'no_host')
    for tokens, k, o in live(g.V2, ('o', 'Swagger'), app.root):
        if k == ('o', 'Schema') and getattr(o, 'ref', None) is not None:
            name = o.ref.rpartition('/')[2].replace('~1', '/').replace('~0', '~')
            to = attrs(o).ref_obj
            mon.check(to is not None and underlying(to) is underlying(app.root.definitions[name]),
                      'a reference to a model leads to something else', ref=o.ref, at=list(tokens))
            mon.count('references')
    tally(mon, docs, names, up)
    mon.shape([docs])
    if len(names) > 1 and index % 50 == 0:
        mon.sample(mon.context)
