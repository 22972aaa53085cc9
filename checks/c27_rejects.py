"""C27: what cannot be represented is rejected, and nothing is made of it."""
import copy
from pyopenapi.errs import SchemaError
from pyopenapi.migration.getter import SimpleGetter, Getter
from pyopenapi.migration.resolve import Resolver
from pyopenapi.migration.scan import Dispatcher, scan
from pyopenapi.migration.store import SpecObjStore
from vlib import graph, grammar as g
from vlib.core import same
from vlib.drive import App, World, build, jref, parser_of
from vlib.listing import ListingGen
from vlib.swagger import SwaggerGen
from vlib.gen import word
from vlib.view import view

ID = 'C27'
TITLE = 'rejections'
BUDGET = {'quick': 12000, 'thorough': 200000}
NEED = {'shape_l': 250, 'shape_m': 500, 'shape_s': 120, 'far_shapes': 150, 'listing_shapes': 600, 'versions': 600,
        'two_bodies': 100, 'two_fields': 100, 'style_header': 100, 'style_path': 100, 'style_query': 100,
        'style_form': 100, 'style_response': 100, 'no_flow': 100, 'extension_path': 100, 'old_minimum': 150,
        'old_reference': 150, 'old_items': 150, 'misuse': 600, 'still_usable': 3000, 'far_meaning': 250}
RULE = ('valid documents of all versions (1-4 documents, 1.2 listings) in which one thing is put wrong: a container that is '
        'something else, a version, a payload or array format without equivalent, a 1.2 type; each has to be rejected '
        'with the app left as it was; calls that make no sense have to be rejected as well.')
WRONG = {'l': ['', 'x', 0, 7, 1.5, True, False, {}, {'a': 1}, {'0': {}}],
         'm': ['', 'x', 0, 7, 1.5, True, False, [], ['a'], [{}], [[]]],
         's': [0, 1, 2.5, True, False, [], {}, {'a': 'b'}, ['x']]}
VERSIONS = ['2.1', '2', '1.1', '1.0', '3.0', '3.0.1', '3.1.0', '3', '4.0.0', '', 'x', '2.0.0', ' 2.0', 'v2.0', '2.0 ', 2,
            2.0, 3, 3.0, True]


def rejected(mon, way, what, error=Exception, **data):
    try:
        got = way()
    except error as e:
        if isinstance(e, (RecursionError, MemoryError)):
            raise
        mon.count('oracle_decisions')
        return e
    mon.fail('%s is accepted' % what, got=repr(got)[:200], **data)


def put(doc, tokens, value):
    cur = doc
    for t in tokens[:-1]:
        cur = cur[int(t)] if isinstance(cur, list) else cur[t]
    cur[int(tokens[-1]) if isinstance(cur, list) else tokens[-1]] = value


def slots(spec, kind, raw):
    """ (tokens, what has to be there) """
    for tokens, k, node in g.walk(spec, kind, raw):
        if not tokens:
            continue
        if k[0] in 'lm':
            yield tokens, k[0]
            if k == ('l', g.S):
                for i in range(len(node)):
                    yield tokens + (str(i),), 's'


def shape(mon, rng):
    """ something else where a list or a map has to be """
    version = rng.choice(['2.0', '3.0.0'])
    gr = graph.make(rng, version, size=rng.choice([6, 20]), density=rng.choice([0.2, 0.4]))
    good = World(gr.docs).create(gr.root, version)
    reached = {(gr.root, ()): gr.spec.root}
    for e in graph.explore(gr, good.root):
        if e[0] != 'node':
            reached[e[4]] = e[2]
    far = [(loc, n) for loc, n in reached.items() if loc[0] != gr.root]
    loc, name = rng.choice(far) if far and rng.random() < 0.5 else ((gr.root, ()), gr.spec.root)
    kind = ('o', gr.spec.root) if not loc[1] and loc[0] == gr.root else gr.slot_kind(name)
    some = list(slots(gr.spec, kind, gr.at(loc)))
    if not some:
        return
    tokens, which = rng.choice(some)
    docs = copy.deepcopy(gr.docs)
    wrong = rng.choice(WRONG[which])
    put(docs[loc[0]], loc[1] + tokens, copy.deepcopy(wrong))
    mon.context = {'root': gr.root, 'docs': docs}
    what = dict(at=[loc[0], list(loc[1] + tokens)], value=wrong)
    world = World(docs)
    app = App(gr.root, resolver=world.resolver())
    if loc[0] == gr.root:
        rejected(mon, lambda: app.load_obj(gr.root), 'a %s that is none' % which, **what)
        mon.check(app.spec_obj_store.get(gr.root, '#', version) is None, 'what was rejected is found', **what)
        mon.check(not app.original_spec_version, 'what was rejected decides the version', **what)
    else:
        raw = app.load_obj(gr.root)
        rejected(mon, lambda: app.migrate_obj(raw, gr.root, version), 'a %s that is none' % which, **what)
        at = jref(loc)
        rejected(mon, lambda: app.resolve_obj(at, version, parser=parser_of(version, name)),
                 'a %s that is none' % which, **what)
        mon.equal(app.current_spec_version, None, 'version after a rejected migration')
        mon.count('far_shapes')
    mon.count('shape_' + which)
    usable(mon, app, world)


def usable(mon, app, world):
    """ something valid, afterwards """
    if not app.original_spec_version:
        url = 'http://later/root.json'
        world.docs[url] = {'swagger': '2.0', 'info': {'title': 'later', 'version': '1'}, 'paths': {}}
        mon.equal(app.load_obj(url).info.title, 'later', 'something else after a rejection')
        mon.count('still_usable')
    url = 'http://later/x.json'
    world.docs[url] = {'A': {'type': 'string', 'description': 'later'}}
    version = app.original_spec_version
    got, _ = app.resolve_obj(url + '#/A', version, parser=parser_of(version, 'Schema'))
    mon.equal([got.type, got.description], ['string', 'later'], 'something else after a rejection')
    mon.count('still_usable')


def listing_shape(mon, rng):
    gen = ListingGen(rng)
    docs, _ = gen.docs()
    docs = copy.deepcopy(docs)
    url = rng.choice(sorted(docs))
    kind = ('o', 'ResourceListing' if url == gen.root else 'ApiDeclaration')
    some = list(slots(g.V1, kind, docs[url]))
    if not some:
        return
    tokens, which = rng.choice(some)
    wrong = rng.choice(WRONG[which])
    put(docs[url], tokens, copy.deepcopy(wrong))
    mon.context = {'root': gen.root, 'docs': docs}
    app = App(gen.root, resolver=World(docs).resolver())
    rejected(mon, lambda: app.load_obj(gen.root), 'a %s that is none' % which, at=[url, list(tokens)], value=wrong)
    mon.check(not app.original_spec_version, 'what was rejected decides the version')
    mon.count('listing_shapes')


def version(mon, rng):
    url = 'http://h/%s.json' % word(rng, 0)
    good = rng.choice([('swagger', '2.0'), ('openapi', '3.0.0'), ('swaggerVersion', '1.2')])
    doc = {'info': {'title': 't', 'version': '1'}, 'paths': {}}
    if good[0] == 'swaggerVersion':
        doc = {'apis': [], 'apiVersion': '1'}
    bad = rng.choice(VERSIONS + ['none'])
    if bad != 'none':
        doc[good[0]] = bad
    docs = {url: doc}
    mon.context = {'docs': docs}
    world = World(docs, as_text=rng.random() < 0.5)
    app = App(url, resolver=world.resolver())
    rejected(mon, lambda: app.load_obj(url), 'a document of version %r' % (bad,))
    mon.check(not app.original_spec_version and app.current_spec_version is None,
              'what was rejected decides the version')
    mon.equal(app.spec_obj_store.get(url, '#', good[1]), None, 'what was rejected is found')
    # the very same app, with a document of a version it knows
    other = 'http://h/other/x.json'
    world.docs[other] = dict(doc, **{good[0]: good[1]})
    obj = app.load_obj(other)
    mon.equal([app.original_spec_version, obj.__swagger_version__], [good[1], good[1]], 'version of what is loaded later')
    mon.count('versions')


# what has no equivalent

def body(gen):
    return gen.parameter('body', 2)


def meaning(mon, rng):
    gen = SwaggerGen(rng, '2.0', [0], [], refs=0, size=6)
    gen.payload = ()
    root, ext = 'http://h/api.json', 'http://h/lib/ext.json'
    doc = {'swagger': '2.0', 'info': {'title': 't', 'version': '1'}, 'paths': {'/a': gen.obj('PathItem', 2)}}
    for m in ('consumes', 'produces'):
        if rng.random() < 0.4:
            doc[m] = ['application/json', 'application/x-www-form-urlencoded'][:rng.randint(1, 2)]
    lib = {}
    name = rng.choice(['/p', '/a/{b}', 'x'])
    if rng.random() < 0.3:
        item = lib['item'] = gen.obj('PathItem', 2)
        doc['paths'][name] = {'$ref': 'lib/ext.json#/item'}
        base = ext
    else:
        item = doc['paths'][name] = gen.obj('PathItem', 2)
        base = root
    method = rng.choice(sorted(k for k in item if k in ('get', 'put', 'post', 'delete', 'options', 'head', 'patch')))
    op = item[method]

    def to(key, param):
        """ written here, or there """
        if rng.random() < 0.6:
            return param
        home = rng.choice([root, ext])
        if home == root:
            doc.setdefault('parameters', {})[key] = param
            return {'$ref': root + '#/parameters/' + key}
        lib[key] = param
        return {'$ref': ext + '#/' + key}

    def mixed(params, extra):
        params = list(params)
        for e in extra:
            params.insert(rng.randint(0, len(params)), e)
        return params

    holder = rng.choice([item, op, op])
    what = rng.choice(['two_bodies', 'two_fields', 'style_header', 'style_path', 'style_query', 'style_form',
                       'style_response', 'no_flow', 'extension_path'])
    if what == 'two_bodies':
        extra = [to('b1', body(gen)), to('b2', body(gen))]
        if holder is item:
            # those of an operation would override them
            for m in list(item):
                if isinstance(item[m], dict) and 'responses' in item[m]:
                    item[m].pop('parameters', None)
        holder['parameters'] = mixed(holder.get('parameters', []), extra)
    elif what == 'two_fields':
        one, two = gen.parameter('formData', 0), gen.parameter('formData', 0)
        two['name'] = one['name']
        if holder is item:
            for m in list(item):
                if isinstance(item[m], dict) and 'responses' in item[m]:
                    item[m].pop('parameters', None)
        holder['parameters'] = mixed(holder.get('parameters', []), [one, two])
        op.pop('consumes', None)
    elif what.startswith('style'):
        where = what[6:]
        fmt = {'header': ['ssv', 'pipes', 'tsv'], 'path': ['ssv', 'pipes', 'tsv'], 'query': ['tsv'], 'form': ['tsv'],
               'response': ['ssv', 'pipes', 'tsv']}[where]
        bad = {'type': 'array', 'items': {'type': 'string'}, 'collectionFormat': rng.choice(fmt)}
        if where == 'query' and rng.random() < 0.4:
            bad = {'type': rng.choice(['string', 'integer']), 'collectionFormat': rng.choice(['ssv', 'pipes', 'tsv'])}
        if where == 'response':
            op['responses']['200'] = {'description': 'd', 'headers': {'X-a': bad}}
        else:
            bad.update({'name': 'n', 'in': 'formData' if where == 'form' else where})
            if where == 'path':
                bad['required'] = True
            if where != 'form':
                # no parameter is looked at if it is never reached
                bad = to('q', bad)
            elif holder is item:
                for m in list(item):
                    if isinstance(item[m], dict) and 'responses' in item[m]:
                        item[m].pop('parameters', None)
            holder['parameters'] = mixed(holder.get('parameters', []), [bad])
    elif what == 'no_flow':
        doc.setdefault('securityDefinitions', {})[word(rng)] = rng.choice([
            {'type': 'oauth2', 'scopes': {}, 'tokenUrl': 'http://t'}, {'type': 'oauth2', 'flow': ''},
            {'type': 'oauth2', 'authorizationUrl': 'http://a', 'flow': '', 'scopes': {'a': 'b'}}])
    else:
        doc['paths']['x-' + word(rng)] = gen.obj('PathItem', 2)
    if base == ext and what not in ('no_flow', 'extension_path'):
        mon.count('far_meaning')
    docs = {root: doc, ext: lib}
    mon.context = {'docs': docs, 'what': what}
    world = World(docs)
    app = world.load(root)
    was = view(g.V2, ('o', 'Swagger'), app.raw)
    stepwise = rng.random() < 0.3
    obj = app.raw
    if stepwise:
        # fine as what it is
        obj = app.migrate_obj(app.raw, root, '2.0')
    rejected(mon, lambda: app.migrate_obj(obj, root, '3.0.0'), what, SchemaError)
    mon.equal(app.current_spec_version, '2.0' if stepwise else None, 'version after a rejected migration')
    mon.equal(app.spec_obj_store.get(root, '#', '3.0.0'), None, 'what was rejected is found')
    if not stepwise:
        mon.check(same(view(g.V2, ('o', 'Swagger'), app.raw), was), 'a rejected migration changed the old objects')
        again = app.migrate_obj(app.raw, root, '2.0')
        mon.equal(again.__swagger_version__, '2.0', 'a document without equivalent is fine as what it is')
    rejected(mon, lambda: app.migrate_obj(obj, root, '3.0.0'), what, SchemaError)
    usable(mon, app, world)
    mon.count(what)


def old_meaning(mon, rng):
    """ types of Swagger 1.2 that make no sense """
    gen = ListingGen(rng)
    docs, _ = gen.docs()
    docs = copy.deepcopy(docs)
    urls = [u for u in docs if any(a['operations'] for a in docs[u].get('apis', []) if 'operations' in a)]
    if not urls:
        return
    d = docs[rng.choice(sorted(urls))]
    op = rng.choice([o for a in d['apis'] for o in a['operations']])
    what = rng.choice(['old_minimum', 'old_reference', 'old_items'])
    where = rng.choice(['query', 'header', 'path', 'form'])
    bad = {'paramType': where, 'name': 'bad', 'required': True}
    if what == 'old_minimum':
        bad.update({'type': rng.choice(['string', 'boolean']), rng.choice(['minimum', 'maximum']): rng.choice(['1', '0', 'a'])})
        if rng.random() < 0.3:
            bad['allowMultiple'] = True
        if rng.random() < 0.4 and d.get('models'):
            model = d['models'][rng.choice(sorted(d['models']))]
            bad.pop('allowMultiple', None)
            model['properties']['bad'] = {k: bad[k] for k in bad if k not in ('paramType', 'name', 'required')}
            bad = None
    elif what == 'old_reference':
        bad['$ref'] = rng.choice(['Some', 'string'])
        if rng.random() < 0.5:
            # whatever else is told
            bad.update(rng.choice([{'type': 'string'}, {'type': 'array', 'items': {'type': 'string'}}, {'format': 'int32'}]))
        if rng.random() < 0.5:
            bad['allowMultiple'] = rng.random() < 0.7
    else:
        bad.update({'type': 'array', 'items': rng.choice([{'$ref': 'Some'}, {'type': 'Some'}, {'type': 'Some', 'format': 'x'}])})
        if rng.random() < 0.3:
            bad = dict(bad, type='Some', allowMultiple=True)
            del bad['items']
    if bad:
        op['parameters'].insert(rng.randint(0, len(op['parameters'])), bad)
    mon.context = {'docs': docs, 'what': what}
    app = World(docs).load(gen.root)
    for to in rng.sample(['2.0', '3.0.0'], 2):
        rejected(mon, lambda: app.migrate_obj(app.raw, gen.root, to), what, SchemaError)  # noqa
        mon.equal(app.current_spec_version, None, 'version after a rejected migration')
        mon.equal(app.spec_obj_store.get(gen.root, '#', '2.0'), None, 'what was rejected is found')
    mon.count(what)


# calls that make no sense

def misuse(mon, rng):
    url = 'http://h/a.json'
    docs = {url: {'swagger': '2.0', 'info': {'title': 't', 'version': '1'}, 'paths': {}, 'definitions': {'A': {'type': 'string'}}}}
    world = World(docs)
    app = world.create(url, rng.choice(['2.0', '3.0.0']))
    store = SpecObjStore()
    thing = build('2.0', 'Schema', {'type': 'string'})
    store.set(thing, url, '#/x', '2.0')
    store.update_routes(url, '3.0.0', {'#/x': '#/y'})
    mon.context = None
    which = rng.randrange(10)
    if which == 0:
        for none in ('', None):
            rejected(mon, lambda: app.resolve_obj(none, '2.0'), 'an empty reference')  # noqa
    elif which == 1:
        # an unloaded thing of a version the app was not loaded from
        world.docs['http://h/b.json'] = {'B': {'type': 'string'}}
        rejected(mon, lambda: app.resolve_obj('http://h/b.json#/B', '3.0.0', parser=parser_of('3.0.0', 'Schema')),
                 'a part in another version')
    elif which == 2:
        junk = rng.choice([{}, [], 'x', 1, object(), None])
        rejected(mon, lambda: store.set(junk, url, '#/junk', '2.0'), 'storing junk')
        mon.equal(store.get(url, '#/junk', '2.0'), None, 'junk is found')
    elif which == 3:
        rejected(mon, lambda: store.get_under(url, '', '2.0'), 'removing everything')
        mon.check(store.get(url, '#/x', '2.0') is thing, 'a rejected removal removed something')
    elif which == 4:
        v = rng.choice(['2.1', '3.0', 'x', ''])
        rejected(mon, lambda: store.update_routes(url, v, {'#/x': '#/z'}), 'a rule of an unknown version')
        mon.equal(store.relocate(url, '#/x', '2.0', '3.0.0'), '#/y', 'a rejected rule is applied')
    elif which == 5:
        v = rng.choice(['2.1', '3.0', 'x', '3.0.1'])
        rejected(mon, lambda: store.relocate(url, '#/x', '2.0', v), 'relocating to an unknown version')
    elif which == 6:
        disp = type('Disp', (Dispatcher,), {})
        junk = rng.choice([object, dict, Exception, str])
        rejected(mon, lambda: disp.register([junk])(lambda *a: None), 'a handler of another class')
    elif which == 7:
        rejected(mon, lambda: scan(root=None, route=[]), 'scanning nothing')
    elif which == 8:
        rejected(mon, lambda: App(url, url_load_hook=lambda u: u, resolver=world.resolver()), 'a hook beside a resolver',
                 ValueError)
    else:
        one = type('G', (rng.choice([SimpleGetter, Getter]),), {})
        broken = Resolver(default_getter=one)
        rejected(mon, lambda: broken.resolve(url), 'a getter that gets nothing')
    got, _ = app.resolve_obj(url + '#/definitions/A', '2.0', to_spec_version=app.current_spec_version)
    mon.equal(got.type, 'string', 'something else after a rejection')
    mon.count('misuse')


def case(mon, rng, index, tier):
    (shape, shape, meaning, meaning, old_meaning, listing_shape, version, misuse)[index % 8](mon, rng)
    if mon.context:
        mon.shape([mon.context])
        if index % 400 < 2:
            mon.sample(mon.context)
