"""C04: traversal visits every object exactly once, with its path."""
from collections import Counter
from pyopenapi.migration.scan import Scanner, scan, Dispatcher
from vlib import grammar as g
from vlib.core import same
from vlib.gen import BlankGen
from vlib.drive import OBJECTS, build, World, App
from vlib.view import quirk_pointer

ID = 'C04'
TITLE = 'traversal'
BUDGET = {'quick': 15000, 'thorough': 200000}
NEED = {'events': 50000, 'results': 20000, 'odd_results': 5000, 'leaf_cuts': 300, 'scanner': 500, 'function': 500}
RULE = ('random documents with hostile keys scanned by 1-3 routes with random handlers, with and without leaves and '
        'result collectors, through both entry points; the log of (handler, path, type, object) is compared as a '
        'multiset with a walk of the raw document by the grammar.')

# the scanner bound to an app also calls handlers of the types an object derives from
INHERITS = {'3.0.0': {('Parameter', 'Header')},
            '2.0': {('BaseSchema', t) for t in ('Items', 'Schema', 'Parameter', 'Header')},
            '1.2': {('DataTypeObj', t) for t in ('Parameter', 'Operation', 'Property')}}


def unpoint(pointer):
    return [t.replace('~1', '/').replace('~0', '~') for t in pointer.split('/')[1:]]


# what handlers hand over to the collector, anything counts
ODD = (None, 0, False, '', (), 1)


def make_route(log, tag, handlers, with_app, with_result, odd=False):
    """ handlers: list of lists of classes, one function each """

    class Disp(Dispatcher):
        pass

    spc = {'Disp': Disp}

    def add(i, classes):
        if with_app:
            def fn(self, path, obj, app):
                log.append((tag, i, path, obj, app))
                return ODD[len(log) % len(ODD)] if odd else (tag, i, path)
        else:
            def fn(self, path, obj):
                log.append((tag, i, path, obj, None))
                return ODD[len(log) % len(ODD)] if odd else (tag, i, path)
        Disp.register(classes)(fn)
        spc['fn%d' % i] = fn

    for i, classes in enumerate(handlers):
        add(i, classes)

    if with_result:
        def result(self, ret):
            self.results.append(ret)
        spc['result'] = Disp.result(result)

    def init(self):
        self.results = []
    spc['__init__'] = init
    return type('Route', (object,), spc)()


def case(mon, rng, index, tier):
    version = ('2.0', '3.0.0', '1.2')[index % 3]
    spec = g.SPECS[version]
    gen = BlankGen(rng, version, size=rng.choice([3, 20, 60]), density=rng.choice([0.2, 0.4, 0.8]),
                 empties=rng.choice([0, 0.2]), refs=0.25)
    name = spec.root if version != '1.2' else rng.choice(['ApiDeclaration', 'ResourceListing'])
    if rng.random() < 0.25:
        name = rng.choice(sorted(spec.objects))
    raw = gen.obj(name, 0)
    mon.context = {'version': version, 'type': name, 'raw': raw}
    if version != '1.2' and name == spec.root and rng.random() < 0.3:
        root = App('http://h/a.json', resolver=World({'http://h/a.json': raw}).resolver()).load_obj('http://h/a.json')
    else:
        root = build(version, name, raw)
    loaded = root.get_path() != '#'
    mod = OBJECTS[version]
    names = sorted(spec.objects)
    leaves = rng.sample(names, rng.randint(1, 4)) if rng.random() < 0.4 else []
    if spec.refname in names and rng.random() < 0.5 and 'Schema' in names and leaves:
        leaves.append('Schema')

    # expected visits
    visits, cut, quirk = [], [], {}
    located = {t for t, k, _ in g.walk(spec, ('o', name), raw) if k[0] == 'o'}
    for tokens, kind, _ in g.walk(spec, ('o', name), raw):
        if kind[0] != 'o':
            continue
        if any(tokens[:len(c)] == c and len(tokens) > len(c) for c in cut):
            mon.count('leaf_cuts')
            continue
        visits.append((g.pointer(tokens), kind[1]))
        if quirk_pointer(tokens, located) != g.pointer(tokens):
            quirk[quirk_pointer(tokens, located)] = g.pointer(tokens)
        if kind[1] in leaves:
            cut.append(tokens)

    with_app = rng.random() < 0.5
    log, routes, plans = [], [], []
    odd = rng.random() < 0.3
    for tag in range(rng.randint(1, 3)):
        plan = [names] if rng.random() < 0.5 else []
        for _ in range(rng.randint(0 if plan else 1, 3)):
            plan.append(rng.sample(names, rng.randint(1, len(names))))
            if rng.random() < 0.3 and version != '3.0.0':
                plan[-1].append({'2.0': 'BaseSchema', '1.2': 'DataTypeObj'}[version])
        rng.shuffle(plan)
        plans.append(plan)
        routes.append(make_route(log, tag, [[getattr(mod, n) for n in p] for p in plan], with_app,
                                 rng.random() < 0.7, odd))
    app = object()
    kw = {}
    if leaves or rng.random() < 0.2:
        kw['leaves'] = [getattr(mod, n) for n in leaves]
    if with_app:
        mon.count('scanner')
        Scanner(app).scan(route=routes, root=root, **kw)
    else:
        mon.count('function')
        scan(route=routes, root=root, **kw)

    expected = Counter()
    for path, typ in visits:
        for tag, plan in enumerate(plans):
            for i, types in enumerate(plan):
                for t in types:
                    if t == typ or with_app and (t, typ) in INHERITS[version]:
                        expected[(tag, i, path, typ)] += 1
    right = {p for p, _ in visits}
    known = {x[2] for x in log} & set(quirk) - right
    if known:
        # paths below nested containers are known to be escaped wrongly
        mon.known_finding('path-below-nested-containers')
        log[:] = [(tag, i, quirk[p] if p in known else p, obj, a) for tag, i, p, obj, a in log]
        for route in routes if not odd else ():
            route.results[:] = [(t, i, quirk[p] if p in known else p) for t, i, p in route.results]
    got = Counter((tag, i, path, obj.__class__.__name__) for tag, i, path, obj, _ in log)
    mon.count('events', sum(got.values()))
    mon.check(not expected - got, 'objects that were not visited', missing=list((expected - got).items())[:3])
    mon.check(not got - expected, 'visits that should not be', extra=list((got - expected).items())[:3])
    for tag, i, path, obj, a in log:
        mon.check(a is (app if with_app else None), 'handlers got another app')
        mon.check(loaded or obj.get_path() == path,
                  'object visited at %s is the one at %s' % (path, obj.get_path()))
    # in every object, handlers are called in the order of routes
    for tag, route in enumerate(routes):
        calls = [ODD[n % len(ODD)] if odd else (x[0], x[1], x[2]) for n, x in enumerate(log, 1) if x[0] == tag]
        if getattr(route, 'result', None):
            mon.check(same(route.results, calls), 'results are not delivered in step with calls', route=tag)
            mon.count('results', len(calls))
            if odd:
                mon.count('odd_results', len(calls))
        else:
            mon.check(not route.results, 'results delivered out of nowhere')
    ids = {}
    for tag, i, path, obj, _ in log:
        mon.check(ids.setdefault(path, obj) is obj, 'two objects visited at one path')
    # another traversal decides what is visited, and in which order
    if visits and rng.random() < 0.3:
        order = [(p, root.resolve([t for t in unpoint(p)])) for p, _ in visits]
        rng.shuffle(order)
        order = order[:rng.randint(1, len(order))]
        asked = []

        def nexter(r, l):
            asked.append((r, list(l)))
            return iter(order)

        del log[:]
        (scan if not with_app else Scanner(app).scan)(route=routes, root=root, nexter=nexter, **kw)
        mon.check(asked == [(root, kw.get('leaves', []))], 'a traversal is not given the root and leaves')
        mon.check([p for i, p in enumerate(x[2] for x in log) if i == 0 or log[i - 1][2] != p] ==
                  [p for p, o in order if any(
                      o.__class__.__name__ == t or with_app and (t, o.__class__.__name__) in INHERITS[version]
                      for plan in plans for types in plan for t in types)],
                  'handlers do not follow the traversal that is given')
        mon.count('custom_traversals')
    try:
        (scan if not with_app else Scanner(app).scan)(route=routes, root=None)
    except ValueError:
        mon.count('oracle_decisions')
    else:
        mon.fail('scanning nothing passes silently')
    if len(visits) > 3:
        mon.shape([version, raw, leaves])
        if len(visits) < 8:
            mon.sample(mon.context)
