"""C25: apps are isolated from each other."""
import copy
import json
import os
import shutil
import sys
import threading
import yaml
from pyopenapi import utils
from pyopenapi.migration.resolve import Resolver
from vlib import graph, grammar as g
from vlib.core import same, first_diff
from vlib.drive import World, App, OBJECTS, jref, parser_of, attrs
from vlib.graph import live
from vlib.listing import ListingGen
from vlib.swagger import variant
from vlib.view import view
from vlib.web import Web
from checks.c12_sources import observe
from checks.c14_identity import places
from checks.c21_payloads import Payload

ID = 'C25'
TITLE = 'isolation of apps'
BUDGET = {'quick': 1600, 'thorough': 40000}
NEED = {'solo_steps': 10000, 'steps': 10000, 'switches': 5000, 'same_documents': 300, 'same_dictionaries': 300,
        'same_resolver': 300, 'other_documents': 200, 'rewritten': 1500, 'threads': 200, 'resolved': 3000, 'migrated': 2000,
        'errors': 200, 'changing': 120, 'source_changed': 500, 'fetched_again': 200, 'kept': 200}
RULE = ('two or three apps, each with its own random sequence of loading, resolving, migrating and rewriting, run one by one '
        'and then interleaved (or in threads), over the same documents, the same dictionaries, the same resolver, or '
        'different documents at the same urls; everything each app shows after each step compared with the solo run. Files, '
        'pages and hooks that change while apps read them: each app has what the source held when that app asked first. '
        'Distinct shapes are schedules with documents.')


web = None


def setup_worker(mon, seed, tier):
    global web
    web = Web('c25-')


def teardown_worker():
    web.close()


class Plain(World):
    """ hands out the documents themselves """

    def fetch(self, url):
        self.loads.append(url)
        if url not in self.docs:
            raise IOError('404 ' + url)
        return self.docs[url]


class Session(object):
    """ one app, and what it is asked to do """

    def __init__(self, root, version, steps, resolver, sep):
        self.root, self.version, self.steps = root, version, steps
        self.app = App(root, resolver=resolver, sep=sep)
        self.trace = []

    def step(self, n):
        op = self.steps[n]
        try:
            got = getattr(self, op[0])(*op[1:])
        except Exception as e:  # pylint: disable=broad-except
            got = ['error', type(e).__name__, str(e)]
        self.trace.append([op[0], got, self.look()])

    def look(self):
        app = self.app
        return [app.original_spec_version, app.current_spec_version, app.url, app.sep,
                observe(g.SPECS[app.root.__swagger_version__], app.root, 'http://nowhere/') if app.root is not None and
                app.root.__swagger_version__ != '1.2' else None,
                view(g.SPECS[self.version], ('o', g.SPECS[self.version].root), app.raw) if app.raw is not None else None]

    # what can be done

    def load(self):
        self.app.raw = self.app.load_obj(self.root)
        return self.app.raw.__class__.__name__

    def migrate(self, version):
        self.app.root = self.app.migrate_obj(self.app.raw, self.root, version)
        return self.app.root.__class__.__name__

    def resolve(self, loc, kind, to):
        got, where = self.app.resolve_obj(jref(loc), from_spec_version=self.version,
                                          parser=parser_of(self.version, kind), to_spec_version=to)
        name = got.__class__.__name__
        spec = g.SPECS[got.__swagger_version__]
        return [where, name, view(spec, ('r' if name == spec.refname else 'o', name if name in spec.objects else 'Callback'),
                                  got)]

    def rewrite(self, what, value):
        """ own objects in place of those loaded """
        root = self.app.root
        if root is None:
            return None
        mod = OBJECTS[root.__swagger_version__]
        if what == 'info':
            root.attach_child('info', mod.Info({'title': value, 'version': value}, '#/info'))
        elif what == 'path':
            root.paths['/' + value] = mod.PathItem({'get': {'operationId': value, 'responses': {
                '200': {'description': ''}}}}, '#/paths/~1' + value)
        elif what == 'tag':
            if root.tags is None:
                return None
            root.tags.append(mod.Tag({'name': value}, '#/tags/%d' % len(root.tags)))
        elif what == 'ref':
            for _, k, o in live(g.SPECS[root.__swagger_version__], ('o', root.__class__.__name__), root):
                if k[0] == 'o' and k[1] in ('Reference', 'Schema') and getattr(o, 'ref', None) is not None:
                    o.ref = '#/rewritten/' + value
                    return 'ref'
        elif what == 'attr':
            for _, k, o in live(g.SPECS[root.__swagger_version__], ('o', root.__class__.__name__), root):
                if k[0] == 'o' and getattr(o, 'ref', None) is not None and attrs(o) is not None:
                    attrs(o).normalized_ref = value
                    return 'attr'
        return what


def steps_of(rng, version, gr):
    finals = [v for v in ('2.0', '3.0.0') if v >= version or version == '1.2']
    out = [('load',)]
    spots = places(gr) if gr else []

    def more(n, early=False):
        for _ in range(n):
            r = rng.random()
            if r < 0.55 and spots:
                loc, kind = rng.choice(spots)
                out.append(('resolve', loc, kind, version if early else rng.choice([version] * 3 + finals)))
            elif r < 0.6 and spots:
                loc, kind = rng.choice(spots)
                out.append(('resolve', (loc[0], loc[1] + ('nowhere',)), kind, version))
            else:
                out.append(('rewrite', rng.choice(['info', 'path', 'tag', 'ref', 'attr']), 'n%d' % rng.randrange(1000)))
    if rng.random() < 0.3:
        more(rng.randint(1, 2), early=True)
    out.append(('migrate', rng.choice(finals)))
    more(rng.randint(1, 4))
    return out


def documents(rng):
    r = rng.random()
    if r < 0.2:
        gen = ListingGen(rng)
        return '1.2', None, gen.docs()[0], gen.root
    if r < 0.6:
        gr = graph.make(rng, '2.0', gencls=rng.choice([Payload, variant(payload=())]), targets=rng.choice(['home', 'inner']),
                        styles=('full', 'lib', 'single'), density=0.1, size=rng.choice([6, 12]),
                        hosts=['http://h/api/'], root_names=('root.json',))
        return '2.0', gr, gr.docs, gr.root
    gr = graph.make(rng, '3.0.0', density=0.1, size=rng.choice([6, 12]), hosts=['http://h/api/'], root_names=('root.json',))
    return '3.0.0', gr, gr.docs, gr.root


def edition(name, n, version):
    """ the n-th edition of a document, every part of it tells which one it is """
    tag = '%s/%d' % (name, n)
    schemas = {'S%d' % i: {'type': 'object', 'description': tag} for i in range(3)}
    doc = {'info': {'title': tag, 'version': '1'}, 'paths': {}}
    if version == '2.0':
        doc.update(swagger='2.0', definitions=schemas)
    else:
        doc.update(openapi='3.0.0', components={'schemas': schemas})
    return doc


def changing(mon, rng, index):
    """ sources that hold something else whenever an app comes by """
    where = rng.choice(['file', 'file', 'http', 'hook'])
    version = rng.choice(['2.0', '3.0.0'])
    fmt = rng.choice(['json', 'yaml'])
    names = ['root.' + fmt, 'a.' + fmt, 'sub/a.' + fmt][:rng.choice([2, 3])]
    home = os.path.join(web.scratch, 'x%d' % index)
    base = {'file': 'file://' + home, 'http': '%s/x%d' % (web.base, index)}.get(where, 'http://h')
    held, counter, apps = {}, [0], []

    def write(name):
        counter[0] += 1
        held[name] = edition(name, counter[0], version)
        mon.count('source_changed')
        if where in ('file', 'http'):
            text = (json.dumps(held[name]) if fmt == 'json' else yaml.safe_dump(held[name])).encode()
            if where == 'http':
                web.pages['/x%d/%s' % (index, name)] = text
            else:
                path = os.path.join(home, name)
                os.makedirs(os.path.dirname(path), exist_ok=True)
                with open(path, 'wb') as fh:
                    fh.write(text)

    def hook(url, *_):
        return copy.deepcopy(held[url[len(base) + 1:]])

    shared = World({})

    def fetch(url):
        return hook(url)
    shared.fetch = fetch
    history, cache = [], {}
    mon.context = {'changing': where, 'version': version, 'format': fmt, 'history': history}
    try:
        for name in names:
            write(name)
        common = rng.random() < 0.3 and (shared.resolver() if where == 'hook' else Resolver())
        for _ in range(rng.randint(8, 20)):
            r = rng.random()
            if r < 0.3:
                name = rng.choice(names)
                history.append(['write', name])
                write(name)
                continue
            if r < 0.45 or not apps:
                url = base + '/' + names[0]
                history.append(['app'])
                apps.append([App(url, resolver=common or (shared.resolver() if where == 'hook' else Resolver())), {}])
                continue
            i = rng.randrange(len(apps))
            app, known = apps[i]
            name = rng.choice(names)
            if names[0] not in known:
                name = names[0]
            url = base + '/' + name
            if name in known:
                mon.count('kept')
            else:
                if any(name in other[1] for other in apps):
                    mon.count('fetched_again')
                # a resolver keeps what it loaded, for all apps it is given to
                known[name] = cache.setdefault(name, held[name]['info']['title']) if common else held[name]['info']['title']
            history.append(['use', i, name])
            if app.raw is None:
                app.raw = app.load_obj(url)
                got = app.raw.info.title
            elif rng.random() < 0.4 and name == names[0]:
                got = app.raw.info.title
            else:
                group = '#/definitions/' if version == '2.0' else '#/components/schemas/'
                got = app.resolve_obj(url + group + 'S%d' % rng.randrange(3), from_spec_version=version,
                                      parser=parser_of(version, 'Schema'), to_spec_version=version)[0].description
            mon.equal(got, known[name], 'an app does not have what the source held when it asked first', app=i, name=name,
                      holds=held[name]['info']['title'])
        mon.shape([where, version, history])
    finally:
        shutil.rmtree(home, ignore_errors=True)
        for k in [k for k in web.pages if k.startswith('/x%d/' % index)]:
            del web.pages[k]


def case(mon, rng, index, tier):
    if index % 6 == 2:
        mon.count('changing')
        changing(mon, rng, index)
        return
    n = rng.choice([2, 2, 3])
    mode = rng.choice(['same_documents', 'same_dictionaries', 'same_resolver', 'other_documents'])
    sources = [documents(rng)]
    for _ in range(n - 1):
        sources.append(documents(rng) if mode == 'other_documents' else sources[0])
    plans = [(src, steps_of(rng, src[0], src[1]), rng.choice(['!##!', '::'])) for src in sources]
    mon.context = {'mode': mode, 'sources': [[s[0], s[3], s[2]] for s in sources[:1 if mode != 'other_documents' else n]],
                   'steps': [p[1] for p in plans]}
    mon.count(mode)

    solo = []
    for (version, gr, docs, root), steps, sep in plans:
        one = Session(root, version, steps, World(docs).resolver(), sep)
        for i in range(len(steps)):
            one.step(i)
            mon.count('solo_steps')
        solo.append(one.trace)
        for op, got, _ in one.trace:
            mon.count({'resolve': 'resolved', 'migrate': 'migrated', 'rewrite': 'rewritten'}.get(op, 'others'))
            if isinstance(got, list) and got and got[0] == 'error':
                mon.count('errors')

    mine = copy.deepcopy([s[2] for s in sources])
    resolver = Plain(mine[0]).resolver()
    sessions = []
    for i, ((version, gr, docs, root), steps, sep) in enumerate(plans):
        if mode == 'same_resolver':
            use = resolver
        elif mode == 'same_dictionaries':
            use = Plain(mine[0]).resolver()
        else:
            use = World(docs).resolver()
        sessions.append(Session(root, version, steps, use, sep))
    if index % 5 == 0:
        in_threads(mon, rng, sessions)
    else:
        todo = [i for i, s in enumerate(sessions) for _ in s.steps]
        rng.shuffle(todo)
        at = [0] * n
        last = None
        for i in todo:
            sessions[i].step(at[i])
            at[i] += 1
            mon.count('steps')
            if last not in (None, i):
                mon.count('switches')
            last = i
            judge(mon, sessions[i].trace, solo[i], at[i] - 1, todo)
            # the others do not notice
            for j, other in enumerate(sessions):
                if j != i and other.trace:
                    mon.check(same(other.look(), other.trace[-1][2]), 'what one app does is visible in another one',
                              step=sessions[i].steps[at[i] - 1], schedule=todo,
                              diff=first_diff(other.look(), other.trace[-1][2]))
        mon.shape([todo, [s[2] for s in sources]])
    for i, s in enumerate(sessions):
        mon.equal(len(s.trace), len(solo[i]), 'steps are missing')
        for k in range(len(s.trace)):
            judge(mon, s.trace, solo[i], k, None)
    mon.check(same(mine, [s[2] for s in sources]), 'the documents were modified')
    if index % 40 == 1:
        mon.sample(mon.context)


def judge(mon, trace, solo, k, schedule):
    mon.counts['oracle_decisions'] += 1
    if not same(trace[k], solo[k]):
        mon.fail('an app behaves otherwise with others around', step=k, op=trace[k][0], schedule=schedule,
                 diff=first_diff(trace[k], solo[k]))


def in_threads(mon, rng, sessions):
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    gate = threading.Barrier(len(sessions))

    def run(s):
        gate.wait()
        for i in range(len(s.steps)):
            s.step(i)
    try:
        threads = [threading.Thread(target=run, args=(s,)) for s in sessions]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    finally:
        sys.setswitchinterval(old)
    mon.count('threads')
