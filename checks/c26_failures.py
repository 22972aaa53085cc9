"""C26: a failed load leaves the app as if it never happened."""
import http.client
import json
import os
import shutil
import tempfile
import threading
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer
from pyopenapi.migration.resolve import Resolver
from vlib import graph, grammar as g
from vlib.core import same, first_diff
from vlib.drive import World, App, jref, parser_of
from vlib.listing import ListingGen
from vlib.swagger import variant
from vlib.view import view
from checks.c12_sources import observe
from checks.c14_identity import places
from checks.c21_payloads import Payload

ID = 'C26'
TITLE = 'failed loads'
BUDGET = {'quick': 2400, 'thorough': 60000}
NEED = {'runs': 1200, 'faults': 2000, 'fault_raised': 300, 'fault_garbage': 400, 'fault_hook': 100, 'fault_prepare': 300,
        'fault_parser': 25, 'at_load': 300, 'at_migrate': 500, 'at_resolve': 150, 'retries': 1000, 'others': 300,
        'files': 150, 'http': 150, 'listings': 150, 'twice': 200, 'dangling': 300, 'migrated_3': 300,
        'relocated': 10000, 'caught_inside': 100, 'interrupted': 150}
RULE = ('random histories (load, resolve by hand, migrate) over random graphs of 2.0, 3.0.0 and 1.2 documents in memory, in '
        'files and behind loopback HTTP, first run without faults; then each document of the run fails in turn once or '
        'twice (errors of transport, broken texts, wrong types), or the hook, the preparing of the n-th object or a parser '
        'fails; other requests come in between, then the request is repeated: everything shown after each step compared '
        'with a run of the same requests without the faults. Distinct shapes are documents with faults.')
ASSUMPTIONS = ['a fault which gives a well-formed but other document can not be told from a document']


class Injected(Exception):
    pass


class Interrupted(BaseException):
    """ like KeyboardInterrupt, a timeout, a cancelled task """


def raising(e):
    def fault(world, url):
        raise e
    fault.error = e
    return fault


def giving(content):
    def fault(world, url):
        return content
    fault.content = content
    return fault


GARBAGE = ['', ' ', '{', '[', '{"swagger": "2.0"', 'a: [', 'a: b: c', '<html>', 'hello', '%', '12', 'null', '"x"', '@x', '[]',
           '{}', '{"a": 1}}', '\t{', b'\xff{}', b'\xff\xfe\x00', b'', b'{', '<html><body>502 Bad Gateway</body></html>',
           'Not Found', 'true', '1.5', '2019-01-01', '!!python/none', 'a: *b']
OBJECTS = [None, 12, [], {}, True, 1.5, object, [1], ()]
ERRORS = [IOError, ValueError, KeyError, Injected, RuntimeError, AttributeError, TypeError, StopIteration, IndexError,
          NotImplementedError, RecursionError, MemoryError, AssertionError, UnicodeError, OSError, Interrupted, Interrupted, KeyboardInterrupt]
BROKEN_HTTP = ['404', '500', 'drop', 'short', 'garbage']
server, scratch, site = None, None, {}


class Handler(BaseHTTPRequestHandler):
    def do_GET(self):
        world, names = site['world'], site['names']
        url = names.get(self.path)
        world.loads.append(url)
        pending = world.faults.get(url)
        fault = pending.pop(0) if pending else None
        body = world.docs[url].encode('utf-8') if url in world.docs else None
        if fault == 'garbage':
            body = b'<html>\xc3\xbc</html>'
        elif fault in ('404', '500') or body is None:
            self.send_error(int(fault or 404))
            return
        elif fault == 'drop':
            self.close_connection = True
            self.connection.close()
            return
        self.send_response(200)
        self.send_header('Content-Length', str(len(body) + (100 if fault == 'short' else 0)))
        self.end_headers()
        self.wfile.write(body)
        if fault == 'short':
            self.close_connection = True

    def log_message(self, *args):
        pass

    def finish(self):
        try:
            super(Handler, self).finish()
        except (ValueError, OSError):
            pass


class Quiet(ThreadingHTTPServer):
    daemon_threads = True

    def handle_error(self, request, address):
        pass


def setup_worker(mon, seed, tier):
    global server, scratch
    for k in list(os.environ):
        if k.lower().endswith('_proxy'):
            del os.environ[k]
    server = Quiet(('127.0.0.1', 0), Handler)
    threading.Thread(target=server.serve_forever, daemon=True).start()
    scratch = tempfile.mkdtemp(prefix='c26-')


def teardown_worker():
    server.shutdown()
    server.server_close()
    shutil.rmtree(scratch, ignore_errors=True)


class Trap(object):
    """ fails at the n-th call """

    def __init__(self):
        self.calls, self.at, self.error = 0, None, Injected

    def __call__(self):
        self.calls += 1
        if self.at is not None and self.calls == self.at:
            self.at = None
            raise self.error('trap')


class Preparing(App):
    trap = None

    def prepare_obj(self, obj, jref_):
        self.trap()
        return obj


class Session(object):
    def __init__(self, root, version, resolver):
        self.root, self.version = root, version
        self.app = Preparing(root, resolver=resolver)
        self.app.trap = Trap()
        self.parsing = Trap()
        self.keep = []
        self.old = []           # locations in the documents

    def run(self, op):
        return getattr(self, op[0])(*op[1:])

    def load(self):
        self.app.raw = self.app.load_obj(self.root)
        return self.app.raw.__class__.__name__

    def migrate(self, version):
        self.app.root = self.app.migrate_obj(self.app.raw, self.root, version)
        return self.app.root.__class__.__name__

    def resolve(self, loc, kind, to):
        parser = parser_of(self.version, kind)

        def trapped(*args, **kw):
            self.parsing()
            return parser(*args, **kw)
        got, where = self.app.resolve_obj(jref(loc), from_spec_version=self.version, parser=trapped, to_spec_version=to)
        self.keep.append(got)
        name = got.__class__.__name__
        spec = g.SPECS[got.__swagger_version__]
        return [where, name, view(spec, ('r' if name == spec.refname else 'o', name if name in spec.objects else 'Callback'),
                                  got)]

    def look(self):
        """ references of what was loaded get normalised in place while migrating, this
        is not undone when it fails (and they still mean the same) """
        out = self.full_look()
        return out[:4] + [unreferenced(out[4])] + out[5:]

    def full_look(self):
        app = self.app
        version = app.root.__swagger_version__ if app.root is not None else None
        raw = None
        if app.raw is not None:
            raw = [view(g.SPECS[self.version], ('o', g.SPECS[self.version].root), app.raw)]
            if self.version == '1.2':
                raw += [view(g.SPECS['1.2'], ('o', 'ApiDeclaration'), d) for _, d in sorted(app.raw.cached_apis.items())]
        return [app.original_spec_version, app.current_spec_version, app.url,
                observe(g.SPECS[version], app.root, 'http://nowhere/') if version else None, raw,
                [app.spec_obj_store.relocate(url, jp, '2.0', '3.0.0') for url, jp in self.old]]


def unreferenced(node):
    if isinstance(node, dict):
        return {k: unreferenced(v) for k, v in node.items() if not (k == '$ref' and isinstance(v, str))}
    if isinstance(node, list):
        return [unreferenced(v) for v in node]
    return node


def documents(rng):
    r = rng.random()
    if r < 0.2:
        gen = ListingGen(rng)
        return '1.2', None, gen.docs()[0], gen.root
    if r < 0.6:
        gr = graph.make(rng, '2.0', gencls=rng.choice([Payload, variant(payload=())]), targets=rng.choice(['home', 'inner']),
                        styles=('full', 'lib', 'single'), density=0.1, size=rng.choice([6, 12]), ndocs=rng.choice([1, 2, 3, 4]))
        return '2.0', gr, gr.docs, gr.root
    gr = graph.make(rng, '3.0.0', density=0.1, size=rng.choice([6, 12]), ndocs=rng.choice([1, 2, 3, 4]))
    return '3.0.0', gr, gr.docs, gr.root


def steps_of(rng, version, gr):
    finals = [v for v in ('2.0', '3.0.0') if v >= version or version == '1.2']
    out = [('load',)]
    spots = places(gr) if gr else []
    if gr and rng.random() < 0.5:
        from checks.c11_fetch import spots as unreached
        for url in gr.docs:
            if url != gr.root:
                spots += unreached(gr, url)

    def more(n, versions):
        for _ in range(n):
            if spots:
                loc, kind = rng.choice(spots)
                if rng.random() < 0.1:
                    loc = (loc[0], loc[1] + ('nowhere',))
                out.append(('resolve', loc, kind, rng.choice(versions)))
    if rng.random() < 0.5:
        more(rng.randint(1, 3), [version])
    final = rng.choice(finals)
    out.append(('migrate', final))
    more(rng.randint(0, 4), [version, final] if version != '1.2' else [final])
    return out, spots


def choose(rng, calls):
    """ which call of which step """
    step = rng.choice([i for i, (a, b) in enumerate(calls) if b > a])
    return rng.randint(1, calls[step][1] - calls[step][0]), step


def attempt(session, op):
    try:
        return session.run(op), None
    except (Exception, Interrupted, KeyboardInterrupt) as e:  # pylint: disable=broad-except
        return ['error', type(e).__name__, str(e)], e


class Curious(App):
    """ tries to resolve something else while preparing, and gets along without it """
    wanted, failed = (), 0

    def prepare_obj(self, obj, jref_):
        if self.wanted:
            where, version, to = self.wanted.pop()
            try:
                self.resolve_obj(where, from_spec_version=version, parser=parser_of(version, 'Schema'), to_spec_version=to)
            except Injected:
                self.failed += 1
        return obj


def caught_inside(mon, rng):
    version = rng.choice(['2.0', '3.0.0'])
    to = rng.choice([v for v in ('2.0', '3.0.0') if v >= version])
    gr = graph.make(rng, version, size=6, ndocs=rng.choice([1, 2]))
    if version != to:
        gr = graph.make(rng, '2.0', gencls=variant(payload=()), targets='home', size=6, ndocs=rng.choice([1, 2]))
    n = rng.randint(2, 6)
    chain = ['http://chain/%d.json' % i for i in range(n)]
    docs = dict(gr.docs)
    for i, url in enumerate(chain):
        props = {'title%d' % i: {'$ref': '#/defs/b'}}
        if i + 1 < n:
            props['next'] = {'$ref': chain[i + 1] + '#/defs/a'}
        docs[url] = {'defs': {'a': {'type': 'object', 'title': 'a%d' % i, 'properties': props},
                              'b': {'type': 'string', 'title': 'b%d' % i}}}
    tries = rng.randint(1, 2)
    wanted = [(chain[rng.choice([0, 0, 1])] + '#/defs/a', version, to) for _ in range(tries)]
    bad = chain[rng.randint(1, n - 1)]
    mon.context = {'docs': docs, 'root': gr.root, 'wanted': wanted, 'bad': bad, 'to': to}
    world = World(docs)
    world.faults[bad] = [raising(Injected('injected'))] * tries
    app = Curious(gr.root, resolver=world.resolver())
    app.wanted = list(wanted)
    app.raw = app.load_obj(gr.root)
    app.root = app.migrate_obj(app.raw, gr.root, to)
    if app.wanted:
        return
    # starting behind the bad one does not fail
    mon.check(app.failed or bad == chain[1], 'the error does not reach the caller')
    calm = World(docs).create(gr.root, to)
    spec = g.SPECS[to]
    mon.check(same(observe(spec, app.root, 'http://nowhere/'), observe(spec, calm.root, 'http://nowhere/')),
              'the app looks different after a fault')
    mon.equal((app.original_spec_version, app.current_spec_version), (calm.original_spec_version, calm.current_spec_version),
              'the app looks different after a fault')
    world.faults.clear()
    got, _ = app.resolve_obj(chain[0] + '#/defs/a', from_spec_version=version, parser=parser_of(version, 'Schema'),
                             to_spec_version=to)
    for i in range(n):
        mon.equal(got.title, 'a%d' % i, 'something is kept of what failed')
        mon.count('oracle_decisions')
        end = got.properties['title%d' % i].get_attrs('migration').ref_obj
        mon.equal(end.title if end is not None else None, 'b%d' % i, 'something is kept of what failed')
        if i + 1 < n:
            got = got.properties['next'].get_attrs('migration').ref_obj
            if got is None:
                mon.fail('something is kept of what failed', at=chain[i])
    mon.count('caught_inside', app.failed)


def case(mon, rng, index, tier):
    if index % 8 == 3:
        caught_inside(mon, rng)
    version, gr, docs, root = documents(rng)
    steps, spots = steps_of(rng, version, gr)
    mon.context = {'root': root, 'docs': docs, 'steps': steps}

    # without faults: what is fetched, prepared and parsed by which step
    world = World(docs)
    calm = Session(root, version, world.resolver())
    fetched, prepared, parsed, wrong = [], [], [], []
    for op in steps:
        at, n, p = len(world.loads), calm.app.trap.calls, calm.parsing.calls
        _, e = attempt(calm, op)
        wrong.append(e is not None)
        fetched.append(world.loads[at:])
        prepared.append((n, calm.app.trap.calls))
        parsed.append((p, calm.parsing.calls))
        if e is not None:
            mon.check(op[0] == 'resolve', 'fails without a fault', op=op, error=repr(e))
            mon.count('dangling')

    old = []
    if version == '2.0':
        for loc, _ in spots:
            url, _, jp = jref(loc).partition('#')
            old.append((url, '#' + jp))
    mon.count('relocated', len(old))

    # plan of the faults
    urls = [(i, u) for i, step in enumerate(fetched) for u in step]
    way = rng.choice(['memory', 'memory', 'files', 'http', 'hook', 'prepare', 'prepare', 'parser'])
    if way == 'prepare' and not calm.app.trap.calls or way == 'parser' and not calm.parsing.calls:
        way = 'memory'
    plan = {i: [] for i in range(len(steps))}       # step -> faults in order
    hit = None
    if way == 'prepare':
        hit, step = choose(rng, prepared)
        plan[step].append('prepare')
    elif way == 'parser':
        hit, step = choose(rng, parsed)
        plan[step].append('parser')
    else:
        chosen = rng.sample(urls, min(len(urls), rng.choice([1, 1, 2, 3])))
        for i, u in urls:
            if (i, u) in chosen:
                plan[i] += [u] * rng.choice([1, 1, 2])
    # what is asked after a failure of each step
    between = []
    for i, op in enumerate(steps):
        asked = []
        if i and spots and version != '1.2' and rng.random() < 0.7:
            bad = {u for us in plan.values() for u in us}
            from checks.c11_fetch import reachable
            for loc, kind in rng.sample(spots, min(3, len(spots))):
                if not reachable(gr, [(loc, gr.slot_kind(kind))]) & bad:
                    asked.append(('resolve', loc, kind, version))
        between.append(asked)

    mon.context.update(way=way, plan=plan, hit=hit)

    # the same requests without the faults
    twin = Session(root, version, World(docs).resolver())
    twin.old = old
    expected = []
    for i, op in enumerate(steps):
        if plan[i]:
            before = twin.look()
            others = [(attempt(twin, o)[0], twin.look()) for o in between[i]]
        else:
            before, others = None, None
        expected.append((before, others, attempt(twin, op)[0], twin.full_look()))

    top = tempfile.mkdtemp(dir=scratch)
    try:
        faulty(mon, rng, (version, docs, root, steps), way, plan, hit, between, expected, fetched, top, old)
    finally:
        shutil.rmtree(top, ignore_errors=True)
    mon.count('runs')
    if version == '1.2':
        mon.count('listings')
    if version != '3.0.0' and ('migrate', '3.0.0') in steps:
        mon.count('migrated_3')
    mon.shape([docs, steps, plan, way])
    if index % 40 == 1:
        mon.sample(mon.context)


def faulty(mon, rng, source, way, plan, hit, between, expected, fetched, top, old):
    version, docs, root, steps = source
    world = World(docs)
    errors = {}
    every = [u for i in plan for u in plan[i]]
    mirror = {u: '%s/%d.json' % (top, i) for i, u in enumerate(sorted(docs))}
    if way == 'memory':
        for u in every:
            r = rng.random()
            if r < 0.4:
                fault = raising(rng.choice(ERRORS)('injected'))
                mon.count('fault_raised')
            else:
                fault = giving(rng.choice(GARBAGE) if r < 0.8 else rng.choice(OBJECTS))
                mon.count('fault_garbage')
            world.faults.setdefault(u, []).append(fault)
        mon.context['faults'] = {u: [repr(getattr(f, 'error', getattr(f, 'content', None))) for f in fs]
                                 for u, fs in world.faults.items()}
        resolver = world.resolver()
    elif way == 'hook':
        left = list(every)

        def hook(u):
            if u in left and u not in world.loads:
                left.remove(u)
                raise rng.choice([Injected, Injected, Interrupted])('hook')
            return u
        resolver = world.resolver(hook)
        mon.count('fault_hook', len(every))
    elif way == 'files':
        for u in docs:
            with open(mirror[u], 'w', encoding='utf-8') as fh:
                json.dump(docs[u], fh)
        for u in every:
            spoil(rng, mirror[u])
        resolver = Resolver(url_load_hook=lambda u: 'file://' + mirror.get(u, top + '/none.json'))
        mon.count('files')
    elif way == 'http':
        names = {'/%d.json' % i: u for i, u in enumerate(sorted(docs))}
        world.docs = {u: json.dumps(d) for u, d in docs.items()}
        for u in every:
            world.faults.setdefault(u, []).append(rng.choice(BROKEN_HTTP))
        mon.context['faults'] = dict((u, list(f)) for u, f in world.faults.items())
        site.update(world=world, names=names)
        back = {u: n for n, u in names.items()}
        resolver = Resolver(url_load_hook=lambda u: 'http://127.0.0.1:%d%s' % (
            server.server_port, back.get(u, '/none.json')))
        mon.count('http')
    else:
        resolver = world.resolver()
    session = Session(root, version, resolver)
    session.old = old
    for i, op in enumerate(steps):
        before, others, result, after = expected[i]
        for n, fault in enumerate(plan[i]):
            log = len(world.loads)
            want = world.faults[fault][0] if way == 'memory' else None
            if fault in ('prepare', 'parser'):
                trap = session.app.trap if fault == 'prepare' else session.parsing
                trap.at = trap.calls + hit
                trap.error = rng.choice([Injected, Injected, Interrupted])
                mon.count('fault_' + fault)
            got, e = attempt(session, op)
            mon.count('faults')
            mon.count('at_' + op[0])
            mon.count('interrupted', not isinstance(e, Exception))
            mon.check(e is not None, 'the error does not reach the caller', op=op, fault=fault, got=got)
            if way in ('memory', 'http'):
                mon.check(fault in world.loads[log:], 'another document failed', op=op, fault=fault, got=got)
            if hasattr(want, 'error'):
                seen, chain = e, []
                while seen is not None and seen is not want.error:
                    chain.append(seen)
                    seen = seen.__cause__ or seen.__context__
                mon.check(seen is not None, 'another error reaches the caller', op=op, got=got, want=repr(want.error))
            elif way in ('hook', 'prepare', 'parser'):
                mon.check(isinstance(e, (Injected, Interrupted)), 'another error reaches the caller', op=op, got=got)
            if n == 0:
                same_look(mon, session, before, 'something is kept of what failed', op=op)
                for other, (o_result, o_look) in zip(between[i], others):
                    o_got, _ = attempt(session, other)
                    mon.count('others')
                    mon.equal(unreferenced(o_got), unreferenced(o_result), 'other requests fail after an error', op=op, other=other)
                    same_look(mon, session, o_look, 'other requests give something else after an error', op=op, other=other)
            else:
                mon.count('twice')
            if way == 'files':
                later = plan[i][n + 1:]
                if fault in later:
                    spoil(rng, mirror[fault])
                else:
                    if os.path.isdir(mirror[fault]):
                        os.rmdir(mirror[fault])
                    with open(mirror[fault], 'w', encoding='utf-8') as fh:
                        json.dump(docs[fault], fh)
        got, e = attempt(session, op)
        if plan[i]:
            mon.count('retries')
        mon.equal(got, result, 'not the same after a fault' if any(plan[k] for k in range(i + 1)) else 'not the same at all',
                  op=op, step=i)
        same_look(mon, session, after, 'the app looks different after a fault', full=True, op=op)
    if way in ('memory', 'http'):
        # what has been fetched well is not fetched again
        for u in set(world.loads):
            mon.equal(world.loads.count(u), 1 + every.count(u), 'fetched too often', url=u)


def same_look(mon, session, want, msg, full=False, **kw):
    got = session.full_look() if full else session.look()
    mon.counts['oracle_decisions'] += 1
    if not same(got, want):
        mon.fail(msg, diff=first_diff(got, want), **kw)


def spoil(rng, path):
    if os.path.isdir(path):
        os.rmdir(path)
    elif os.path.exists(path):
        os.remove(path)
    how = rng.choice(['missing', 'folder', 'garbage', 'empty', 'binary'])
    if how == 'folder':
        os.mkdir(path)
    elif how != 'missing':
        with open(path, 'wb') as fh:
            fh.write({'garbage': b'{"swagger": "2.0"', 'empty': b'', 'binary': b'\xff\xfe'}[how])
