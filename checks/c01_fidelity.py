"""C01: load -> dump loses nothing, invents nothing."""
import copy
from vlib import grammar as g
from vlib.core import same
from vlib.gen import BlankGen, text, word
from vlib.drive import World, build, App
from vlib.view import view, judge_dump

ID = 'C01'
TITLE = 'load/dump fidelity'
BUDGET = {'quick': 6000, 'thorough': 120000}
NEED = {'documents': 500, 'objects': 5000, 'v1.2': 100, 'v2.0': 100, 'v3.0.0': 100}
RULE = ('random documents of the three specification versions drawn from grammars written from the published '
        'specifications (odd keys, empty containers, falsy values, nulls, vendor extensions), loaded through the app '
        'and dumped; compared type-strictly with what the grammar says must survive. Distinct by document content; '
        'non-trivial when it has at least 5 objects.')


def unknown_keys(spec, kind, dumped, path=''):
    """ keys in a dump that no specification field explains """
    kind = g.resolve_kind(spec, kind, dumped)
    if kind[0] == 'o':
        for k, v in dumped.items():
            sub = spec.objects[kind[1]].get(k)
            if sub is None:
                yield path + '/' + k
            elif v is not None:
                for x in unknown_keys(spec, sub, v, path + '/' + k):
                    yield x
    elif kind[0] == 'l':
        for i, v in enumerate(dumped):
            for x in unknown_keys(spec, kind[1], v, '%s/%d' % (path, i)):
                yield x
    elif kind[0] == 'm':
        for k, v in dumped.items():
            for x in unknown_keys(spec, kind[1], v, path + '/' + str(k)):
                yield x


def judge(mon, spec, name, raw, obj):
    kind = ('o', name)
    mon.equal(view(spec, kind, obj), g.prune(spec, kind, raw),
              'what a loaded %s %s reads differs from the document' % (spec.version, name))
    dumped = judge_dump(mon, spec, kind, raw, obj,
                        'dump of a loaded %s %s differs from the document' % (spec.version, name))
    if dumped is None:
        return None
    mon.count('dumps')
    unknown = list(unknown_keys(spec, ('o', name), dumped))
    mon.check(not unknown, 'dump of %s %s has keys out of nowhere: %s' % (spec.version, name, unknown[:3]))
    again = obj.dump()
    mon.equal(again, dumped, 'dumping twice gives two results')
    return dumped


def case(mon, rng, index, tier):
    version = ('1.2', '2.0', '3.0.0')[index % 3]
    spec = g.SPECS[version]
    size = rng.choice([5, 15, 40, 80] if tier == 'quick' else [5, 15, 40, 80, 200])
    gen = BlankGen(rng, version, size=size, density=rng.choice([0.15, 0.3, 0.5, 0.9]),
                 empties=rng.choice([0, 0.1, 0.4]), nulls=rng.choice([0, 0, 0.1]),
                 extensions=rng.choice([0, 0.2]), refs=rng.choice([0, 0.15, 0.4]),
                 bools=rng.choice([0, 0, 0.4]))
    mon.count('v' + version)
    if version == '1.2':
        # a listing and its declarations
        listing = gen.doc()
        n = rng.randint(0, 3)
        listing['apis'] = [{'path': '/res%d' % i, 'description': text(rng)} for i in range(n)]
        docs = {'http://h/d/resource_list.json': listing}
        for i in range(n):
            docs['http://h/d/res%d' % i] = gen.obj('ApiDeclaration', 0)
        mon.context = docs
        world = World(docs)
        app = App('http://h/d/resource_list.json', resolver=world.resolver())
        root = app.load_obj('http://h/d/resource_list.json')
        judge(mon, spec, 'ResourceListing', listing, root)
        mon.equal(sorted(root.cached_apis.keys()), ['res%d' % i for i in range(n)], 'declarations that were loaded')
        for i in range(n):
            judge(mon, spec, 'ApiDeclaration', docs['http://h/d/res%d' % i], root.cached_apis['res%d' % i])
            mon.count('documents')
        nodes = sum(1 for u, d in docs.items() for x in g.walk(
            spec, ('o', 'ResourceListing' if u.endswith('.json') else 'ApiDeclaration'), d) if x[1][0] == 'o')
    else:
        raw = gen.doc()
        mon.context = raw
        url = 'http://h/d/a.json'
        world = World({url: raw})
        app = App(url, resolver=world.resolver())
        before = copy.deepcopy(raw)
        root = app.load_obj(url)
        dumped = judge(mon, spec, spec.root, raw, root)
        mon.equal(raw, before, 'loading changed the document it was given')
        # what was dumped is a document: loading it gives the same again
        if dumped is not None and same(g.prune(spec, ('o', spec.root), dumped), g.prune(spec, ('o', spec.root), raw)):
            second = World({url: dumped})
            mon.equal(App(url, resolver=second.resolver()).load_obj(url).dump(), dumped,
                      'load(dump) differs from dump')
        nodes = sum(1 for x in g.walk(spec, ('o', spec.root), raw) if x[1][0] == 'o')
        # any object of this document on its own is as faithful as the whole
        inner = [x for x in g.walk(spec, ('o', spec.root), raw) if x[1][0] == 'o']
        for tokens, kind, sub in rng.sample(inner, min(3, len(inner))):
            judge(mon, spec, kind[1], sub, build(version, kind[1], sub, g.pointer(tokens)))
    mon.count('documents')
    mon.count('objects', nodes)
    if nodes >= 5:
        mon.shape(mon.context)
        if nodes < 12:
            mon.sample(mon.context)
