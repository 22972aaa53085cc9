"""C11: each document is fetched exactly once, through the hook, keyed by its url."""
import copy
import json
import os
import re
from collections import Counter
from pyopenapi.migration.resolve import Resolver
from pyopenapi.migration.getter import DictGetter, SimpleGetter
from vlib import graph, grammar as g
from vlib.graph import explore
from vlib.swagger import variant
from vlib.drive import World, App, attrs, parser_of, jref
from vlib.gen import DocGen, word
from vlib.web import Web
from checks.c14_identity import places

ID = 'C11'
TITLE = 'fetching'
BUDGET = {'quick': 6000, 'thorough': 120000}
NEED = {'fetches': 8000, 'several_documents': 1500, 'hooked': 1500, 'rotated': 300, 'by_hand': 5000, 'by_hand_new': 300, 'shared': 800,
        'listings': 400, 'declarations': 800, 'getter_requests': 400, 'migrated': 500, 'pointers': 4000,
        'bad_pointers': 500, 'sourced': 1500}
RULE = ('random graphs of 1-4 documents, 1.2 listings and plain resolvers; the log of all fetches and all calls of the '
        'hook compared with what is reachable on the raw documents, after each request.')


def reachable(gr, starts):
    """ urls of all documents needed, starts: [(location, kind)] """
    urls, queue, seen = set(), list(starts), set()
    while queue:
        loc, kind = queue.pop()
        urls.add(loc[0])
        if (loc, kind) in seen:
            continue
        seen.add((loc, kind))
        for at, name, to in gr.refs_below(loc, kind):
            if name == gr.spec.refname:
                name = graph.referenced_name(graph.raw_kind(gr.spec, kind, at[1][len(loc[1]):], gr.at(loc)))
            queue.append((to, gr.slot_kind(name)))
    return urls


class Hook(object):
    """ redirects what is asked, and writes it down """

    def __init__(self, rng, urls):
        self.asked = []
        self.style = rng.choice(['prefix', 'flat', 'some', 'rotate'])
        self.map = {}
        for i, u in enumerate(sorted(urls)):
            if self.style == 'prefix':
                self.map[u] = u.replace('://', '://mirror.net/', 1)
            elif self.style == 'flat':
                self.map[u] = 'http://cache/%d' % i
            else:
                self.map[u] = 'http://cache/x%d.json' % i if rng.random() < 0.5 else u

    def __call__(self, url):
        self.asked.append(url)
        if self.style == 'rotate' and url in self.map:
            # another mirror each time
            return '%s&n=%d' % (self.map[url], len(self.asked)) if '?' in self.map[url] else '%s?n=%d' % (
                self.map[url], len(self.asked))
        return self.map.get(url, url)

    def world(self, docs):
        return Mirrors({self.map[u]: d for u, d in docs.items()})


class Mirrors(World):
    """ all mirrors of a document hold the same """

    def fetch(self, url):
        return super(Mirrors, self).fetch(re.sub(r'[?&]n=[0-9]+$', '', url))


def judge(mon, world, hook, expected, what):
    fetched = Counter(world.loads)
    want = {hook.map[u] if hook else u for u in expected}
    mon.check(not [u for u in fetched if fetched[u] > 1], 'fetched more than once', log=world.loads, **what)
    mon.check(not set(fetched) - want, 'fetched without need', extra=sorted(set(fetched) - want), **what)
    mon.check(not want - set(fetched), 'not fetched', missing=sorted(want - set(fetched)), **what)
    if hook:
        mon.check(not set(hook.asked) - set(expected), 'the hook is asked for something else',
                  extra=sorted(set(hook.asked) - set(expected)), **what)
        mon.check(not set(expected) - set(hook.asked), 'the hook is not asked', **what)


def by_graph(mon, rng, index, tier):
    version = rng.choice(['2.0', '3.0.0'])
    migrate = version == '2.0' and rng.random() < 0.3
    if migrate:
        gr = graph.make(rng, '2.0', targets=rng.choice(['home', 'inner']), gencls=variant(payload=rng.choice([(), ('body',)])),
                        styles=('full', 'lib', 'single'))
    else:
        gr = graph.make(rng, version)
    hook = Hook(rng, gr.docs) if rng.random() < 0.5 else None
    world = hook.world(gr.docs) if hook else World(gr.docs)
    world.as_text = rng.random() < 0.2
    mon.context = {'version': version, 'root': gr.root, 'docs': gr.docs, 'hook': hook and hook.map, 'migrate': migrate}
    resolver = world.resolver(hook)
    starts = [((gr.root, ()), ('o', gr.spec.root))]
    app = App(gr.root, resolver=resolver)
    app.raw = app.load_obj(gr.root)
    judge(mon, world, hook, {gr.root}, {'after': 'load'})
    app.root = app.migrate_obj(app.raw, gr.root, '3.0.0' if migrate else version)
    needed = reachable(gr, starts)
    judge(mon, world, hook, needed, {'after': 'prepare'})
    mon.count('fetches', len(needed))
    if len(needed) > 1:
        mon.count('several_documents')
    if hook:
        mon.count('hooked')
        if hook.style == 'rotate':
            mon.count('rotated')
    if migrate:
        mon.count('migrated')
    if not migrate and rng.random() < 0.7:
        # everything is known by its own url
        for e in explore(gr, app.root):
            if e[0] == 'ref':
                mon.equal(attrs(e[3]).normalized_ref.partition('#')[0], e[4][0], 'a reference reports another url',
                          at=e[1])
    # asked by hand
    some = places(gr)
    for url in gr.docs:
        if url not in needed:
            some += spots(gr, url)
    for loc, kind in rng.sample(some, min(len(some), 6)):
        if migrate and loc[0] == gr.root and rng.random() < 0.8:
            continue
        starts.append((loc, gr.slot_kind(kind)))
        now = reachable(gr, starts)
        got, at = app.resolve_obj(jref(loc), from_spec_version=version, parser=parser_of(version, kind))
        judge(mon, world, hook, now, {'after': loc})
        mon.equal(at.partition('#')[0], loc[0], 'another url is reported', asked=loc)
        mon.count('by_hand')
        if now - needed:
            mon.count('by_hand_new')
        needed = now
    # another app, same resolver
    if rng.random() < 0.4:
        other = App(gr.root, resolver=resolver)
        other.raw = other.load_obj(gr.root)
        other.root = other.migrate_obj(other.raw, gr.root, version)
        judge(mon, world, hook, needed, {'after': 'another app'})
        mon.count('shared')
    mon.shape([gr.docs])
    if len(needed) > 2:
        mon.sample(mon.context)


def spots(gr, url):
    """ places of documents the root does not lead to """
    out = []
    for base, kind in gr.roots[url]:
        for tokens, k, node in g.walk(gr.spec, kind, gr.at((url, base))):
            if k[0] == 'o' and k[1] in graph.REFERABLE[gr.version] and not isinstance(node.get('$ref'), str):
                out.append(((url, base + tokens), k[1]))
    return out


def listing(rng, base, n):
    docs, paths = {}, []
    names = []
    while len(names) < n:
        w = word(rng) + str(len(names))
        w = w.replace('~', 't').replace('/', 's').replace('{', '').replace('}', '').replace(' ', '').replace(
            '%', '').replace('#', '').replace('?', '') or 'x'
        if w not in names:
            names.append(w)
    for w in names:
        path = '/' + w
        paths.append(path)
        doc = DocGen(rng, '1.2', size=rng.choice([3, 8])).obj('ApiDeclaration', 0)
        doc['swaggerVersion'] = '1.2'
        docs[base + path[1:]] = doc
    return docs, paths


def by_listing(mon, rng):
    host = rng.choice(['http://h/', 'http://h/api/', 'https://x.io:8080/a/b/'])
    root = host + rng.choice(['api-docs.json', 'resources.json', 'swagger.json'])
    docs, paths = listing(rng, host, rng.randint(0, 4))
    doc = {'swaggerVersion': '1.2', 'apis': [{'path': p} for p in paths]}
    docs[root] = doc
    hook = Hook(rng, docs) if rng.random() < 0.5 else None
    how = rng.choice(['default', 'class', 'dict'])
    if how == 'dict' and hook:
        hook.style = 'fixed'                    # keyed by where things are
    world = hook.world(docs) if hook else World(docs)
    mon.context = {'root': root, 'docs': docs, 'hook': hook and hook.map}
    if how == 'default':
        app = App(root, resolver=world.resolver(hook))
        app.raw = app.load_obj(root)
    elif how == 'class':
        app = App(root, url_load_hook=hook)
        app.raw = app.load_obj(root, getter=world.getter())
        mon.count('getter_requests')
    else:
        # an instance, it knows in which order things are asked
        order = [root] + [host + p[1:] for p in paths]
        if hook:
            order = [hook.map[u] for u in order]
        log = world.loads

        class Getter(DictGetter):
            def load(self, path):
                log.append(path)
                return super(Getter, self).load(path)

        app = App(root, url_load_hook=hook)
        app.raw = app.load_obj(root, getter=Getter(list(order), copy.deepcopy(world.docs)))
        mon.count('getter_requests')
    judge(mon, world, hook, docs, {'after': 'listing'})
    mon.count('listings')
    mon.count('fetches', len(docs))
    mon.count('declarations', len(paths))
    mon.equal(sorted(app.raw.cached_apis), sorted(p[1:] for p in paths), 'declarations')
    for p in paths:
        mon.equal(app.raw.cached_apis[p[1:]].resourcePath, docs[host + p[1:]].get('resourcePath'),
                  'a declaration comes from another document', path=p)
    again = app.load_obj(root)
    mon.check(again is app.raw, 'loading again gives another object')
    judge(mon, world, hook, docs, {'after': 'asking again'})
    mon.shape([docs])


def by_resolver(mon, rng):
    """ a resolver of its own """
    docs = {}
    for i in range(rng.randint(1, 4)):
        url = rng.choice(['http://h/', 'https://h/', 'http://h/a/', 'file:///nowhere/']) + rng.choice(
            ['x.json', 'x.yaml', 'x', 'y.json?v=1', 'y.json?v=2', 'X.json'])
        docs[url] = DocGen(rng, rng.choice(['2.0', '3.0.0']), size=10).doc()
    hook = Hook(rng, docs) if rng.random() < 0.6 or any(u.startswith('file') for u in docs) else None
    if hook:
        hook.map = {u: v.replace('file://', 'http://file') for u, v in hook.map.items()}
    world = hook.world(docs) if hook else World(docs)
    other = World(world.docs)
    world.as_text = rng.random() < 0.3
    mon.context = {'docs': docs, 'hook': hook and hook.map}
    resolver = world.resolver(hook)
    needed = set()
    for _ in range(12):
        url = rng.choice(sorted(docs))
        tokens, node = (), docs[url]
        while isinstance(node, (dict, list)) and node and rng.random() < 0.8:
            if isinstance(node, list):
                t = rng.randrange(len(node))
            else:
                t = rng.choice(sorted(node))
            node, tokens = node[t], tokens + (str(t),)
        bad = rng.random() < 0.15
        getter = None
        if url not in needed and rng.random() < 0.3:
            getter = rng.choice(['class', 'instance'])
        asked = tokens
        if bad:
            asked = tokens + ('missing token',)
        name = jref((url, asked)) if asked else url + rng.choice(['', '#', ''])
        if getter == 'class':
            given = world.getter()
        elif getter == 'instance':
            given = world.getter()(hook.map[url] if hook else url)
        elif url in needed and rng.random() < 0.3:
            given = other.getter()              # nothing to get
        else:
            given = None
        try:
            got = resolver.resolve(name, given)
        except Exception:  # pylint: disable=broad-except
            mon.check(bad, 'what exists is not resolved', asked=name)
            mon.count('bad_pointers')
        else:
            mon.check(not bad, 'what does not exist is resolved', asked=name)
            mon.equal(got, node, 'another part of the document', asked=name)
            mon.count('pointers')
        if getter:
            mon.count('getter_requests')
        needed.add(url)
        judge(mon, world, hook, needed, {'after': name})
        mon.check(not other.loads, 'fetched again by the getter given', asked=name)
    mon.count('fetches', len(needed))
    mon.shape([docs])


web = None


def setup_worker(mon, seed, tier):
    global web
    web = Web('c11-')


def teardown_worker():
    web.close()


def by_sources(mon, rng, index):
    """ what a url is fetched from: the getter given for that request, or files for file urls, or the default getter
    of the resolver, or the net; whatever was used for other urls """
    home = os.path.join(web.scratch, 's%d' % index)
    os.makedirs(home)
    names = ['a.json', 'b.json', 'c.yaml', 'd']
    urls = ['%s/s%d/%s' % (web.base, index, n) for n in names] + ['file://%s/%s' % (home, n) for n in names[:3]]
    log = []
    del web.requests[:]

    def page(url, source):
        return {'swagger': '2.0', 'info': {'title': url, 'version': source}, 'paths': {}}
    for n in names:
        web.pages['/s%d/%s' % (index, n)] = json.dumps(page('%s/s%d/%s' % (web.base, index, n), 'net')).encode()
        with open(os.path.join(home, n), 'w') as fh:
            json.dump(page('file://%s/%s' % (home, n), 'file'), fh)

    def getter(source):
        class Mine(SimpleGetter):
            __simple_getter_callback__ = lambda url: (log.append((source, url)), page(url, source))[1]
        return Mine
    default = rng.random() < 0.4
    resolver = Resolver(default_getter=getter('default')) if default else Resolver()
    used, expected, web_expected, history = {}, [], [], []
    apps = [App(urls[0], resolver=resolver) for _ in range(2)]
    mon.context = {'sources': True, 'default': default, 'history': history}
    try:
        for n in range(rng.randint(3, 12)):
            url = rng.choice(urls)
            given, source = None, None
            if rng.random() < 0.4:
                source = 'given%d' % n
                given = getter(source)
                if rng.random() < 0.5:
                    given = given(url)
            history.append([url, source])
            if url not in used:
                if source is None:
                    source = 'file' if url.startswith('file') else 'default' if default else 'net'
                used[url] = source
                if source == 'net':
                    web_expected.append(url[len(web.base):])
                elif source != 'file':
                    expected.append((source, url))
            if rng.random() < 0.6:
                got = resolver.resolve(url + rng.choice(['', '#', '#/info']), given)
                got = got.get('info', got)
            else:
                info = rng.choice(apps).load_obj(url, getter=given).info
                got = {'title': info.title, 'version': info.version}
            mon.equal(got, {'title': url, 'version': used[url]}, 'fetched from somewhere else')
            mon.equal(log, expected, 'getters asked')
            mon.equal(web.requests, web_expected, 'pages asked')
            mon.count('sourced')
        mon.shape([default, history])
    finally:
        for n in names:
            web.pages.pop('/s%d/%s' % (index, n), None)


def case(mon, rng, index, tier):
    if index % 10 == 4:
        by_sources(mon, rng, index)
    elif index % 5 == 3:
        by_listing(mon, rng)
    elif index % 5 == 4:
        by_resolver(mon, rng)
    else:
        by_graph(mon, rng, index, tier)
