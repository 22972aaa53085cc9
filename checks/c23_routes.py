"""C23: migration is deterministic, pure, and independent of the route taken."""
import copy
import json
import os
import subprocess
import sys
from pyopenapi.utils import get_swagger_version
from vlib import graph, grammar as g
from vlib.core import same, first_diff
from vlib.drive import World, jref, parser_of
from vlib.listing import ListingGen
from vlib.swagger import variant
from vlib.view import view, has_true, prune_quirk
from checks.c12_sources import observe
from checks.c14_identity import places
from checks.c21_payloads import Payload

ID = 'C23'
TITLE = 'routes of migration'
BUDGET = {'quick': 3000, 'thorough': 60000}
NEED = {'again': 2500, 'stepwise': 1500, 'warm': 2500, 'text': 600, 'sources_untouched': 2500,
        'old_objects': 1500, 'reloaded': 500, 'rejected': 4000, 'from_1.2': 600, 'from_2.0': 1000, 'from_3.0.0': 400,
        'dumped': 300, 'processes': 150, 'processes_relocated': 1000, 'parts': 500, 'fresh_parts': 900, 'parts_before': 350}
RULE = ('random documents (1.2 listings, graphs of 2.0 and 3.0.0 documents) migrated several times: afresh, '
        'version by version, with a shared resolver, from text, after parts were asked for; everything observable compared, and sources and '
        'old objects compared with how they were.')
ROUTES = {'1.2': ('2.0', '3.0.0'), '2.0': ('3.0.0',), '3.0.0': ('3.0.0',)}


class Shared(World):
    """ hands out the documents themselves, as loaders of dictionaries do """

    def fetch(self, url):
        self.loads.append(url)
        return self.docs[url]


def documents(rng, version):
    """ (docs, root) """
    if version == '1.2':
        gen = ListingGen(rng)
        docs, _ = gen.docs()
        for url, d in docs.items():
            # paths have to start with a slash to be migrated once more
            if 'basePath' in d:
                d['basePath'] = rng.choice(['http://h.io/v1', '/v1', 'http://h.io'])
        return None, docs, gen.root
    if version == '2.0':
        gencls = rng.choice([Payload, variant(payload=()), variant(payload=('body',))])
        gr = graph.make(rng, '2.0', gencls=gencls, targets=rng.choice(['home', 'inner']), styles=('full', 'lib', 'single'),
                        density=rng.choice([0.1, 0.25]), size=rng.choice([6, 15]))
    else:
        gr = graph.make(rng, '3.0.0', size=rng.choice([6, 15]))
    return gr, gr.docs, gr.root


def look(version, root, paths=True):
    return observe(g.SPECS[version], root, 'http://nowhere/', paths=paths)


def listing(app):
    """ 1.2 objects """
    return [view(g.V1, ('o', 'ResourceListing'), app.raw)] + [
        view(g.V1, ('o', 'ApiDeclaration'), app.raw.cached_apis[n]) for n in sorted(app.raw.cached_apis)]


def case(mon, rng, index, tier):
    version = ('2.0', '1.2', '2.0', '3.0.0')[index % 4]
    if index % 150 == 75:
        processes(mon, rng)
    gr, docs, root = documents(rng, version)
    mon.context = {'version': version, 'root': root, 'docs': docs}
    mon.count('from_' + version)
    final = rng.choice(ROUTES[version])
    world = World(dict(docs))
    app = world.load(root)
    app.world = world
    mon.equal([app.original_spec_version, app.current_spec_version], [version, None], 'versions after loading')
    first = listing(app) if version == '1.2' else None
    app.root = app.migrate_obj(app.raw, root, final)
    mon.equal([app.original_spec_version, app.current_spec_version], [version, final], 'versions after migrating')
    mon.equal(app.root.__swagger_version__, final, 'version of the migrated root')
    want = look(final, app.root)
    mon.equal([get_swagger_version(x) for x in (docs[root], app.raw, app.root)], [version, version, final],
              'versions told of the document, of its object and of the migrated one')
    if version == '1.2':
        mon.equal(listing(app), first, 'migrating changed the old objects')
        mon.count('old_objects')

    def compare(got, how):
        mon.equal(got, want, 'the result of migrating depends on the route: %s' % how)
        mon.count(how)

    again = World(docs).create(root, final)
    compare(look(final, again.root), 'again')
    parts(mon, rng, app, gr, version, final)
    rejected(mon, rng, app, version, root, final)
    compare(look(final, app.root), 'after_rejected')

    # one step at a time
    steps = [v for v in ('2.0', '3.0.0') if version < v <= final or v == version]
    if len(steps) > 1:
        slow = World(docs).load(root)
        obj, seen = slow.raw, []
        for v in steps:
            old = obj
            obj = slow.migrate_obj(obj, root, v)
            mon.equal([slow.original_spec_version, slow.current_spec_version], [version, v], 'versions on the way')
            for at, was, o in seen:
                mon.equal(look(at, o), was, 'migrating changed the old objects')
                mon.count('old_objects')
            seen.append((v, look(v, obj), obj))
        compare(look(final, obj), 'stepwise')

    # with a resolver that is used already, and dictionaries that are not copied
    mine = copy.deepcopy(docs)
    shared = Shared(mine)
    resolver = shared.resolver()
    for _ in range(2):
        warm = shared.create(root, final, resolver=resolver)
        compare(look(final, warm.root), 'warm')
        mon.check(same(mine, docs), 'migrating modified the source documents')
        mon.count('sources_untouched')
    if gr is not None and rng.random() < 0.4:
        early = beforehand(mon, rng, gr, version, root, docs)
        early.root = early.migrate_obj(early.raw, root, final)
        mon.equal([early.original_spec_version, early.current_spec_version], [version, final], 'versions in the end')
        compare(look(final, early.root), 'parts_before')
    if rng.random() < 0.4:
        again = World(docs, as_text=True).create(root, final)
        compare(look(final, again.root), 'text')
    compare(look(final, app.root), 'in_the_end')

    if final == '3.0.0' and (gr is None or len(docs) == 1):
        reload(mon, app.root, root)
    mon.shape([docs])
    if len(docs) > 1 and index % 40 == 0:
        mon.sample(mon.context)


def processes(mon, rng):
    """ the same in another process, where sets and dictionaries are hashed in another way """
    jobs = []
    for n in range(24):
        version = ('2.0', '2.0', '1.2', '3.0.0')[n % 4]
        gr, docs, root = documents(rng, version)
        old = []
        if version == '2.0':
            old = [(root, g.pointer(t)) for t, k, _ in g.walk(gr.spec, ('o', gr.spec.root), docs[root]) if k[0] == 'o']
        jobs.append({'docs': docs, 'root': root, 'final': '3.0.0', 'old': old})
    seen = []
    for seed in rng.sample(range(1, 1000), 3):
        run = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'vlib.rehash'], input=json.dumps(jobs),
                             capture_output=True, text=True, env=dict(os.environ, PYTHONHASHSEED=str(seed)), timeout=300)
        if run.returncode:
            raise RuntimeError('other process: ' + run.stderr[-2000:])
        seen.append(json.loads(run.stdout))
    for job, one, two, three in zip(jobs, *seen):
        mon.context = {'job': job}
        for k in one:
            # as text, for the order of entries
            texts = [json.dumps(x[k]) for x in (one, two, three)]
            mon.check(len(set(texts)) == 1, 'what a process gets depends on how it hashes: %s' % k,
                      diff=[first_diff(one[k], x[k]) for x in (two, three)])
        mon.count('processes')
        mon.count('processes_relocated', len(job['old']))


def beforehand(mon, rng, gr, version, root, docs):
    """ some parts are asked for, in their own version, when the root is loaded only """
    app = World(docs).load(root)
    some = places(gr)
    for loc, kind in rng.sample(some, min(len(some), rng.randint(1, 4))):
        app.resolve_obj(jref(loc), from_spec_version=version, parser=parser_of(version, kind))
        mon.equal([app.original_spec_version, app.current_spec_version], [version, None],
                  'versions after resolving a part', asked=loc)
    return app


def parts(mon, rng, app, gr, version, final):
    """ whatever gets resolved later on, the versions are those of the root """
    for at in () if version == '1.2' else (version,):
        # a part of a document nothing refers to
        to = rng.choice([v for v in ('2.0', '3.0.0') if at <= v <= final])
        url = 'http://fresh/%s/%d.json' % (at, rng.randrange(3))
        app.world.docs[url] = {'x': {'type': 'object', 'properties': {'p': {'type': 'string'}}}}
        got, _ = app.resolve_obj(url + '#/x', from_spec_version=at, parser=parser_of(at, 'Schema'), to_spec_version=to)
        mon.equal(got.__swagger_version__, to, 'version of a resolved part', at=at)
        mon.equal([app.original_spec_version, app.current_spec_version], [version, final],
                  'versions after resolving a part of another document', at=at, to=to)
        mon.count('fresh_parts')
    if gr is None or final == version == '2.0' or rng.random() < 0.5:
        return
    some = places(gr)
    for loc, kind in rng.sample(some, min(len(some), 3)):
        if loc[0] == gr.root and version != final:
            to = final
        else:
            to = rng.choice([version, final])
        try:
            app.resolve_obj(jref(loc), from_spec_version=version, parser=parser_of(version, kind), to_spec_version=to)
        except Exception:  # pylint: disable=broad-except
            if to == version:
                raise
            continue                # not every old location has a counterpart, see C22
        mon.equal([app.original_spec_version, app.current_spec_version], [version, final],
                  'versions after resolving something', asked=loc, to=to)
        mon.count('parts')


def rejected(mon, rng, app, version, root, final):
    """ versions that are not supported, or older """
    bad = ['2.1', '3.0', '3.0.1', '', '4.0.0', 'x', '1.1'] + (['1.2'] if version != '1.2' else [])
    for v in rng.sample(bad, 2):
        was = [app.original_spec_version, app.current_spec_version]
        try:
            app.migrate_obj(app.raw, root, v)
        except ValueError:
            mon.count('oracle_decisions')
        else:
            mon.fail('migrated to an unsupported version', version=v)
        mon.equal([app.original_spec_version, app.current_spec_version], was, 'versions after a rejected migration')
        mon.count('rejected')
    if final != '2.0':
        try:
            app.migrate_obj(app.root, root, '2.0')
        except ValueError:
            mon.count('oracle_decisions')
        else:
            mon.fail('migrated to an older version')
        mon.equal([app.original_spec_version, app.current_spec_version], was, 'versions after a rejected migration')
        mon.count('rejected')


SHARED_BODY = 'x-pyopenapi_internal_request_body'


def reload(mon, obj, root):
    """ what is dumped is a document of the new version """
    kind = ('o', 'OpenApi')
    doc = view(g.V3, kind, obj)
    again = copy.deepcopy(doc)
    for p, item in again.get('paths', {}).items():
        # references may lead to payload parameters declared for a whole path item
        body = getattr(obj.paths[p], SHARED_BODY, None)
        if body is not None:
            item[SHARED_BODY] = view(g.V3, ('o', 'RequestBody'), body)
    app = World({root: again}).create(root, '3.0.0')
    mon.equal(look('3.0.0', app.root, paths=False), look('3.0.0', obj, paths=False), 'the migrated document is another one once loaded again')
    mon.count('reloaded')
    if not has_true(g.V3, kind, doc):
        # (apart from what C01 lists)
        got = g.prune(g.V3, kind, obj.dump())
        mon.check(same(got, doc) or same(got, prune_quirk(g.V3, kind, doc)),
                  'the dump of the migrated document says something else', diff=first_diff(got, doc))
        mon.count('dumped')
