"""C14: one object per location, alive as long as the app."""
import gc
import weakref
from collections import defaultdict
from vlib import graph, grammar as g
from vlib.graph import explore
from vlib.swagger import variant
from vlib.drive import App, World, underlying, parser_of, jref

ID = 'C14'
TITLE = 'object identity'
BUDGET = {'quick': 4000, 'thorough': 60000}
NEED = {'locations': 60000, 'several_routes': 10000, 'by_hand': 15000, 'before_root': 3000, 'nested_loads': 1500,
        'dropped_apps': 500, 'survivors': 5000, 'whole_later': 15, 'migrated_proxies': 3000,
        'loaded_again': 5000, 'asked_again': 4000, 'without_url': 8000, 'root_later': 400}
RULE = ('random graphs of documents; parts are resolved by hand in random order before and after the root is prepared '
        '(inner parts before outer ones included); identities of the objects reached by references, by navigation and '
        'by hand are collected for every location; garbage collection observed with and without the app.')

ELSEWHERE = 'http://elsewhere/api.json'


def minimal(version):
    doc = {'info': {'title': 't', 'version': '1'}, 'paths': {}}
    doc['swagger' if version == '2.0' else 'openapi'] = version
    return doc


def places(gr):
    """ every location of an object that can be asked for: (location, kind name) """
    out, queue, seen = [], [((gr.root, ()), ('o', gr.spec.root))], set()
    while queue:
        loc, kind = queue.pop()
        if loc in seen:
            continue
        seen.add(loc)
        for tokens, k, raw in g.walk(gr.spec, kind, gr.at(loc)):
            if k[0] != 'o':
                continue
            here = (loc[0], loc[1] + tokens)
            name = k[1]
            if isinstance(raw.get('$ref'), str):
                if name == 'Reference':
                    name = graph.referenced_name(graph.raw_kind(gr.spec, kind, tokens, gr.at(loc)))
                to = gr.target(loc[0], raw['$ref'])
                queue.append((to, gr.slot_kind(name)))
                out.append((to, name))
            if name in graph.REFERABLE[gr.version]:
                out.append((here, name))
    return sorted(set(out))


def survive(mon, gr, app, kept):
    """ with the app alive everything is usable, without it nothing is kept alive """
    gc.collect()
    for loc, proxy in kept:
        mon.check(bool(proxy.get_field_names is not None), 'an object is gone')
        mon.count('survivors')
    watch = [weakref.ref(underlying(app.root)), weakref.ref(app)]
    watch += [weakref.ref(underlying(p)) for _, p in kept]
    return watch


def drop(mon, rng, gr, version, target):
    app = World(gr.docs).create(gr.root, target)
    kept = []
    for loc, kind in places(gr)[:40]:
        if target != version and loc[0] != gr.root:
            continue
        try:
            got, where = app.resolve_obj(jref(loc), from_spec_version=version, parser=parser_of(version, kind),
                                         to_spec_version=target)
        except Exception:  # pylint: disable=broad-except
            if target == version:
                raise
            continue                # not every old location has a counterpart, see C22
        mon.check(type(got) in (weakref.ProxyType, weakref.CallableProxyType), 'resolving hands out %s' % type(got),
                  at=loc)
        kept.append((loc, got))
        if target != version:
            mon.count('migrated_proxies')
    watch = survive(mon, gr, app, kept)
    refs = [e[5] for e in (explore(gr, app.root) if target == version else ()) if e[0] == 'ref']
    for r in refs:
        mon.check(type(r) in (weakref.ProxyType, weakref.CallableProxyType), 'a reference holds %s' % type(r))
    del app
    return watch, kept


def stable(mon, rng):
    """ what was handed out once in a newer version is what is handed out again """
    gr = graph.make(rng, '2.0', targets=rng.choice(['home', 'inner', 'any']), gencls=variant(payload=rng.choice([(), ('body',)])))
    mon.context = {'root': gr.root, 'docs': gr.docs}
    app = World(gr.docs).create(gr.root, rng.choice(['2.0', '3.0.0']))
    where = places(gr)
    some = rng.sample(where, min(len(where), 10))
    for loc, kind in list(some):
        # and some that are above
        some += [p for p in where if p[0][0] == loc[0] and p[0][1] == loc[1][:len(p[0][1])] and p not in some][:2]
    rng.shuffle(some)
    if rng.random() < 0.5:
        some.sort(key=lambda p: -len(p[0][1]))
    first = {}
    for again in (False, True):
        for loc, kind in some:
            if again and (loc, kind) not in first:
                continue
            try:
                got, at = app.resolve_obj(jref(loc), from_spec_version='2.0', parser=parser_of('2.0', kind),
                                          to_spec_version='3.0.0')
            except Exception:  # pylint: disable=broad-except
                if again:
                    mon.fail('what was handed out is not found again', at=loc)
                continue            # not every old location has a counterpart, see C22
            got = underlying(got)
            if again:
                mon.check(first[loc, kind] == (got, at), 'another object is handed out when asked again', at=loc,
                          where=[first[loc, kind][1], at])
                mon.count('asked_again')
            else:
                first[loc, kind] = (got, at)


def case(mon, rng, index, tier):
    if index % 4 == 2:
        stable(mon, rng)
    version = ('2.0', '3.0.0')[index % 2]
    gr = graph.make(rng, version)
    where = places(gr)
    mon.context = {'version': version, 'root': gr.root, 'docs': gr.docs}
    late = rng.random() < 0.25
    if late:
        # the root is loaded after some of its parts
        world = World(dict(gr.docs, **{ELSEWHERE: minimal(version)}))
        app = App(gr.root, resolver=world.resolver())
        app.load_obj(ELSEWHERE)
    else:
        app = World(gr.docs).load(gr.root)
    seen = defaultdict(list)            # location -> [(identity, how)]
    alive = []

    def note(loc, obj, how):
        obj = underlying(obj)
        alive.append(obj)
        seen[loc].append((id(obj), how))

    def by_hand(n, how):
        some = rng.sample(where, min(len(where), n))
        if rng.random() < 0.3:
            some = list(dict.fromkeys(some + [p for p in where if not p[0][1]]))
            some.sort(key=lambda p: -len(p[0][1]))                  # inner ones first
        asked = set()
        for loc, kind in some:
            if any(a[0] == loc[0] and len(a[1]) > len(loc[1]) and a[1][:len(loc[1])] == loc[1] for a in asked):
                mon.count('nested_loads')
                if not loc[1]:
                    mon.count('whole_later')
            asked.add(loc)
            asking = jref(loc)
            if loc[0] == gr.root and loc[1] and rng.random() < 0.5:
                # without an url it's a place in the document of the app
                asking = g.pointer(loc[1])
                mon.count('without_url')
            got, at = app.resolve_obj(asking, from_spec_version=version, parser=parser_of(version, kind))
            mon.equal(at.partition('#')[::2], (loc[0], g.pointer(loc[1])[1:]), 'location of what is resolved', asked=loc)
            note(loc, got, how)
            mon.count('by_hand')
            mon.count(how)
    if rng.random() < 0.6:
        by_hand(rng.randint(1, 6), 'before_root')
    if late:
        app.raw = app.load_obj(gr.root)
        mon.count('root_later')
    app.root = app.migrate_obj(app.raw, gr.root, version)
    mon.check(underlying(app.root) is underlying(app.raw) or version == '1.2', 'preparing makes another object')
    if rng.random() < 0.6:
        by_hand(rng.randint(1, 6), 'after_root')
    for e in explore(gr, app.root):
        if e[0] == 'node' and e[2][0] != 'p':
            note(e[1], e[4], 'walk')
        elif e[0] == 'ref':
            note(e[4], e[5], 'reference')
    if rng.random() < 0.5:
        # another document as a whole, parts of it are known already
        for url in gr.docs:
            if url != gr.root and gr.roots[url] == [((), ('o', gr.spec.root))]:
                parts = [loc for loc in seen if loc[0] == url]
                doc = app.load_obj(url)
                whole = app.migrate_obj(doc, url, version)
                mon.check(underlying(whole) is underlying(doc), 'preparing makes another object')
                for e in explore(gr, doc, start=(url, ()), kind=('o', gr.spec.root)):
                    if e[0] == 'node' and e[2][0] != 'p':
                        note(e[1], e[4], 'document')
                    elif e[0] == 'ref':
                        note(e[4], e[5], 'reference')
                mon.count('documents')
                if parts:
                    mon.count('documents_after_parts')
    by_hand(8, 'at_the_end')
    mon.check(app.load_obj(gr.root) is app.raw, 'loading the root again makes another object')
    for loc, kind in rng.sample(where, min(len(where), 6)):
        if loc in seen:
            note(loc, app.load_obj(jref(loc), parser=parser_of(version, kind)), 'load')
            mon.count('loaded_again')
    for loc, routes in seen.items():
        mon.count('locations')
        if len({h for _, h in routes}) > 1:
            mon.count('several_routes')
        mon.check(len({i for i, _ in routes}) == 1, 'several objects for one location', at=loc,
                  routes=sorted({'%s %s' % (h, i) for i, h in routes}))
    mon.shape([gr.docs])
    if len(where) > 5:
        mon.sample(mon.context)
    if index % 6 == 0:
        del app, alive[:]
        seen.clear()
        target = '3.0.0'
        if version == '2.0' and rng.random() < 0.7:
            gr = graph.make(rng, '2.0', targets=rng.choice(['home', 'inner']), gencls=variant(payload=rng.choice([(), ('body',)])))
            mon.context = {'version': version, 'root': gr.root, 'docs': gr.docs}
        elif version == '2.0':
            target = '2.0'
        watch, kept = drop(mon, rng, gr, version, target)
        gc.collect()
        left = [w() for w in watch if w() is not None]
        mon.check(not left, 'a dropped app is kept alive by what was resolved', left=len(left))
        mon.count('dropped_apps')
        for loc, proxy in kept[:3]:
            try:
                proxy.get_path()
            except ReferenceError:
                mon.count('oracle_decisions')
            else:
                mon.fail('an object outlives its app')
