"""C28: what an app prepares, and what preparing gives, is what everybody gets."""
import gc
from vlib import graph, grammar as g
from vlib.drive import App, World, attrs, build, jref, parser_of, underlying
from vlib.graph import live
from vlib.listing import ListingGen
from vlib.swagger import SwaggerGen, variant
from checks.c12_sources import observe
from checks.c14_identity import places

ID = 'C28'
TITLE = 'preparation'
BUDGET = {'quick': 3000, 'thorough': 60000}
NEED = {'roots': 1000, 'prepared': 6000, 'reached': 10000, 'by_hand': 2000, 'refused': 600, 'healed': 600,
        'replaced_parts': 400, 'replaced_roots': 150, 'from_1.2': 100, 'far_units': 1000}
RULE = ('random graphs of documents and listings loaded by an app whose prepare_obj records, replaces or refuses what '
        'it is given; every object that is handed out or referred to has to be (part of) one that was prepared under '
        'the location it is found at; replacements have to be what is found; refusals have to undo the load.')

INTERNAL = 'x-pyopenapi_internal_request_body'


class Refused(Exception):
    pass


class Hooked(App):
    log = None
    act = None

    def prepare_obj(self, obj, at):
        self.log.append((obj, at, obj.__swagger_version__))
        return self.act(obj, at) if self.act else obj


def create(docs, root):
    app = Hooked(root, resolver=World(docs).resolver())
    app.log = []
    app.raw = app.load_obj(root)
    return app


def documents(rng, version):
    if version == '1.2':
        gen = ListingGen(rng)
        docs, _ = gen.docs()
        for d in docs.values():
            if 'basePath' in d:
                d['basePath'] = rng.choice(['http://h.io/v1', '/v1', 'http://h.io'])
        return None, docs, gen.root, rng.choice(['2.0', '3.0.0'])
    if version == '2.0' and rng.random() < 0.5:
        gr = graph.make(rng, '2.0', gencls=variant(payload=rng.choice([(), ('body',)])), targets=rng.choice(['home', 'inner']),
                        styles=('full', 'lib', 'single'), density=rng.choice([0.1, 0.25]), size=rng.choice([6, 15]))
        return gr, gr.docs, gr.root, '3.0.0'
    gr = graph.make(rng, version, size=rng.choice([6, 15]), density=rng.choice([0.2, 0.4]))
    return gr, gr.docs, gr.root, version


def kind_of(spec, obj):
    name = obj.__class__.__name__
    return ('o', name if name in spec.objects else 'Callback')


def inside(spec, obj):
    """ what belongs to one object, itself included """
    out = []
    for _, _, o in live(spec, kind_of(spec, obj), obj):
        if not hasattr(o, 'dump'):
            continue
        out.append(o)
        body = getattr(o, INTERNAL, None) if o.__class__.__name__ == 'PathItem' else None
        if body is not None:
            out.extend(inside(spec, body))
    return out


def prepared(app, version):
    """ id -> object of all that was prepared so far """
    out = {}
    for obj, _, v in app.log:
        if v == version:
            for o in inside(g.SPECS[v], obj):
                out[id(underlying(o))] = o
    return out


def watch(mon, rng, gr, docs, root, version, target):
    app = create(docs, root)
    app.root = app.migrate_obj(app.raw, root, target)
    for v in ('2.0', '3.0.0'):
        if not version <= v <= target:
            continue
        mine = [(o, at) for o, at, was in app.log if was == v and at == root + '#']
        mon.check(bool(mine), 'the root was not prepared', version=v)
        if v == target:
            mon.check(mine[-1][0] is app.root, 'the root is not the one that was prepared', version=v)
        if v == version:
            mon.check(mine[-1][0] is app.raw, 'prepared something else than what was loaded', version=v)
        mon.count('roots')
    reach(mon, app, target)
    found(mon, app)
    if gr is None:
        return
    some = places(gr)
    for loc, name in rng.sample(some, min(len(some), 6)):
        to = target if rng.random() < 0.7 else version
        got, at = app.resolve_obj(jref(loc), version, parser=parser_of(version, name), to_spec_version=to)
        mon.check(id(underlying(got)) in prepared(app, to), 'handed out, but never prepared', at=at)
        mon.count('by_hand')
    found(mon, app)
    mon.count('far_units', sum(not at.startswith(root) for _, at, _ in app.log))


def reach(mon, app, target):
    """ whatever a reference leads to """
    spec = g.SPECS[target]
    known = prepared(app, target)
    for o in list(known.values()):
        if o.__class__.__name__ not in ('Reference', 'PathItem', 'Schema') or getattr(o, 'ref', None) is None:
            continue
        to = attrs(o).ref_obj
        if to is None:
            continue
        mon.check(id(underlying(to)) in known, 'referred to, but never prepared', ref=o.ref)
        mon.count('reached')


def found(mon, app):
    """ the locations that were told """
    for obj, at, version in app.log:
        url, _, jp = at.partition('#')
        if version == '1.2':
            continue
        mon.check(app.spec_obj_store.get(url, '#' + jp, version) is obj,
                  'what was prepared is not found where it was said to be', at=at, version=version)
        mon.count('prepared')


def refuse(mon, rng, docs, root, version, target):
    clean = create(docs, root)
    clean.root = clean.migrate_obj(clean.raw, root, target)
    want = observe(g.SPECS[target], clean.root, 'http://nowhere/')
    app = create(docs, root)
    k = rng.randrange(len(clean.log))
    error = rng.choice([Refused, ValueError, KeyError])('no')

    def act(obj, at):
        if len(app.log) == k + 1:
            raise error
        return obj
    app.act = act
    try:
        app.migrate_obj(app.raw, root, target)
    except type(error) as e:
        mon.check(e is error, 'another error')
    else:
        mon.fail('an error of prepare_obj is lost', k=k)
    mon.equal([app.original_spec_version, app.current_spec_version], [version, None], 'versions after a refusal')
    if version != target:
        mon.equal(app.spec_obj_store.get(root, '#', target), None, 'what was refused is found')
    mon.count('refused')
    app.act = None
    del app.log[:]
    app.root = app.migrate_obj(app.raw, root, target)
    mon.equal(observe(g.SPECS[target], app.root, 'http://nowhere/'), want, 'a refusal left something behind', k=k)
    reach(mon, app, target)
    mon.count('healed')


def replace(mon, rng):
    version = rng.choice(['2.0', '3.0.0'])
    target = rng.choice(['2.0', '3.0.0']) if version == '2.0' else version
    root = 'http://h/root.json'
    doc = {'info': {'title': 'one', 'version': '1'}, 'paths': {}}
    doc['swagger' if version == '2.0' else 'openapi'] = version
    far = 'http://far/x/y.json'
    gen = SwaggerGen(rng, '2.0', [0], [], refs=0, size=5)
    gen.payload = ()
    kinds = ['Schema', 'Schema', 'Parameter', 'Response', 'PathItem'] if version == '2.0' else ['Schema', 'Response']
    kind = rng.choice(kinds)
    if kind == 'Schema':
        part = {'type': 'object', 'description': 'far', 'properties': {'p': {'type': 'string'}}}
    elif kind == 'Response':
        part = {'description': 'far'}
    elif kind == 'Parameter':
        part = {'name': 'a', 'in': 'query', 'type': 'string', 'description': 'far'}
    else:
        part = {'get': {'responses': {'200': {'description': 'r'}}, 'description': 'far'}}
    docs = {root: doc, far: {'defs': {'a': part}}}
    mon.context = {'docs': docs, 'kind': kind, 'target': target}
    app = create(docs, root)
    made = []

    def mark(raw):
        raw = raw['get'] if 'get' in raw else raw['info'] if 'info' in raw else raw
        raw['description'] = raw.get('description', '') + '+'

    def act(obj, at):
        raw = obj.dump()
        mark(raw)
        new = build(obj.__swagger_version__, obj.__class__.__name__, raw, obj.get_path())
        made.append((new, at))
        return new
    app.act = act
    obj = app.migrate_obj(app.raw, root, target)
    mon.check(obj is made[-1][0], 'what prepare_obj made of the root is lost')
    steps = 1 + (version != target)
    mon.equal(obj.info.description, '+' * steps, 'one of the versions was not prepared')
    mon.check(app.spec_obj_store.get(root, '#', target) is obj, 'the replaced root is found')
    got, _ = app.resolve_obj(root + '#', version if version == target else '2.0', to_spec_version=target)
    mon.check(underlying(got) is obj, 'the replaced root is found')
    mon.count('replaced_roots')

    del made[:]
    first, at = app.resolve_obj(far + '#/defs/a', version, parser=parser_of(version, kind), to_spec_version=target)
    gc.collect()
    mon.check(any(underlying(first) is m for m, _ in made), 'what prepare_obj made is lost')
    mon.equal(made[-1][1], at, 'location of what was prepared')
    text = first.get.description if kind == 'PathItem' else first.description
    mon.equal(text, 'far' + '+' * steps, 'one of the versions was not prepared')
    n = len(made)
    del made[:]
    gc.collect()
    again, at2 = app.resolve_obj(far + '#/defs/a', version, parser=parser_of(version, kind), to_spec_version=target)
    mon.check(underlying(again) is underlying(first) and at2 == at and not made, 'prepared once more', n=n)
    text = first.get.description if kind == 'PathItem' else first.description
    mon.equal(text, 'far' + '+' * steps, 'what was made is not what is found')
    if kind == 'Schema':
        inner, _ = app.resolve_obj(far + '#/defs/a/properties/p', version, parser=parser_of(version, kind),
                                   to_spec_version=target)
        mon.check(underlying(inner) is underlying(first.properties['p']), 'a part of what was replaced')
    mon.count('replaced_parts')


def case(mon, rng, index, tier):
    if index % 5 == 4:
        replace(mon, rng)
        return
    version = ('2.0', '3.0.0', '2.0', '1.2')[rng.randrange(4)] if index % 5 else '2.0'
    gr, docs, root, target = documents(rng, version)
    mon.context = {'version': version, 'root': root, 'docs': docs, 'target': target}
    mon.count('from_' + version)
    if index % 5 in (0, 1):
        watch(mon, rng, gr, docs, root, version, target)
    else:
        refuse(mon, rng, docs, root, version, target)
    mon.shape([docs, index % 5 > 1])
    if len(docs) > 1 and index % 40 == 0:
        mon.sample(mon.context)
