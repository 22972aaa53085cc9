"""C15: path items that refer to others are merged completely and locally."""
from pyopenapi import utils
from vlib import graph, grammar as g
from vlib.graph import explore, MarkedGen, Hole
from vlib.swagger import SwaggerGen
from vlib.drive import App, World, attrs, underlying, jref, parser_of
from vlib.gen import DocGen
from vlib.view import view

ID = 'C15'
TITLE = 'merged path items'
BUDGET = {'quick': 6000, 'thorough': 120000}
NEED = {'merged': 10000, 'chains': 3000, 'cycles': 1500, 'cross_document': 2500, 'filled': 10000, 'filled_far': 2000,
        'plain': 8000, 'migrated': 3000, 'migrated_filled': 2000, 'by_hand': 1500, 'early': 1000}
RULE = ('random graphs of 1-4 documents dense in path items that refer to each other (chains, cycles, self references, '
        'pure references); the merged form of each reachable one compared with what the first path item on its chain '
        'that defines an operation or list says, natively (also asked for before the root is prepared) and after migrating.')
SLOTS = {'2.0': ('get', 'put', 'post', 'delete', 'options', 'head', 'patch', 'parameters'),
         '3.0.0': ('get', 'put', 'post', 'delete', 'options', 'head', 'patch', 'trace', 'parameters', 'servers')}


def path_item(self, base, depth):
    """ few operations here and there, often a reference """
    rng = self.rng
    ret = base.obj(self, 'PathItem', depth)
    ret.pop('$ref', None)
    for m in SLOTS[self.spec.version]:
        if m in ret and m != 'get' and (not ret[m] or rng.random() < 0.3):
            del ret[m]
        elif m not in ret and rng.random() < 0.15:
            if m == 'parameters':
                ret[m] = [self.obj('Parameter', 99) for _ in range(rng.randint(1, 2))]
            elif m == 'servers':
                ret[m] = [{'url': 'http://%s/' % self.marker()}]
            else:
                ret[m] = self.obj('Operation', 99)
    if self.refs and rng.random() < 0.65:
        ret['$ref'] = Hole('PathItem')
    return ret


class Native(MarkedGen):
    def obj(self, name, depth):
        if name == 'PathItem':
            return path_item(self, MarkedGen, depth)
        return super(Native, self).obj(name, depth)


class ToMigrate(SwaggerGen):
    payload = ()

    def obj(self, name, depth):
        if name == 'PathItem':
            return path_item(self, SwaggerGen, depth)
        return super(ToMigrate, self).obj(name, depth)


def thin(rng, gr):
    """ not every path item has to start with 'get' """
    items, targets = [], []
    for url in gr.docs:
        for base, kind in gr.roots[url]:
            for tokens, k, raw in g.walk(gr.spec, kind, gr.at((url, base))):
                if k[0] != 'o':
                    continue
                loc = (url, base + tokens)
                if k[1] == 'PathItem':
                    items.append((loc, raw))
                if isinstance(raw.get('$ref'), str):
                    targets.append(gr.target(url, raw['$ref']))
    for loc, raw in items:
        here = (loc[0], loc[1] + ('get',))
        if '$ref' in raw and rng.random() < 0.6 and not any(
                t[0] == here[0] and t[1][:len(here[1])] == here[1] for t in targets):
            raw.pop('get', None)


def chain(gr, loc):
    """ locations of path items merged into the first one """
    out = []
    while loc not in out:
        out.append(loc)
        raw = gr.at(loc)
        if '$ref' not in raw:
            return out, False
        loc = gr.target(loc[0], raw['$ref'])
    return out, True


def definer(gr, locs, slot):
    for n, loc in enumerate(locs):
        if gr.at(loc).get(slot):
            return n, (loc[0], loc[1] + (slot,))
    return None, None


def native(mon, rng, version):
    gr = graph.make(rng, version, gencls=Native, kinds=rng.choice([('PathItem', 'Parameter'), ('PathItem',), None]),
                    density=0.1, size=rng.choice([6, 15]))
    thin(rng, gr)
    mon.context = {'version': version, 'root': gr.root, 'docs': gr.docs}
    early = []
    if rng.random() < 0.4:
        app, early = beforehand(mon, rng, gr, version)
    else:
        app = World(gr.docs).create(gr.root, version)
    nodes, items = {}, []
    for e in explore(gr, app.root):
        if e[0] == 'node':
            nodes[e[1]] = (e[2], e[4])
            if e[2] == ('o', 'PathItem'):
                items.append((e[1], e[4]))
    for loc, obj in items:
        judge(mon, gr, nodes, version, loc, obj)
    for loc, obj, slots in early:
        if all(where is None or where in nodes for where in (definer(gr, chain(gr, loc)[0], s)[1] for s in SLOTS[version])):
            judge(mon, gr, nodes, version, loc, obj)
        got = [s for s in SLOTS[version] if definer(gr, chain(gr, loc)[0], s)[1]]
        mon.equal(slots, got, 'the merged form lacks something while the root is not prepared', at=loc)
    for loc, _ in rng.sample(items, min(3, len(items))):
        got, _ = app.resolve_obj(jref(loc), from_spec_version=version, parser=parser_of(version, 'PathItem'))
        judge(mon, gr, nodes, version, loc, got)
        mon.count('by_hand')
    mon.shape([gr.docs])
    if len(items) > 2:
        mon.sample(mon.context)


def beforehand(mon, rng, gr, version):
    """ some path items are asked for when the root is loaded, but not prepared yet """
    app = App(gr.root, resolver=World(gr.docs).resolver())
    app.raw = app.load_obj(gr.root)
    found, early = [], []
    for url in gr.docs:
        for base, kind in gr.roots[url]:
            for tokens, k, _ in g.walk(gr.spec, kind, gr.at((url, base))):
                if k == ('o', 'PathItem'):
                    found.append((url, base + tokens))
    far = [loc for loc in found if loc[0] != gr.root]
    for loc in rng.sample(far, min(3, len(far))):
        got, _ = app.resolve_obj(jref(loc), from_spec_version=version, parser=parser_of(version, 'PathItem'))
        final = utils.final(got)
        early.append((loc, got, [s for s in SLOTS[version] if getattr(final, s)]))
        mon.count('early')
    app.root = app.migrate_obj(app.raw, gr.root, version)
    return app, early


def judge(mon, gr, nodes, version, loc, obj):
    raw = gr.at(loc)
    locs, cyclic = chain(gr, loc)
    final = utils.final(obj)
    if '$ref' not in raw:
        mon.check(underlying(final) is underlying(obj), 'a path item without reference is not its own merged form', at=loc)
        mon.count('plain')
    else:
        mon.check(underlying(final) is not underlying(obj), 'no merged form', at=loc)
        mon.count('merged')
        if len(locs) > 2:
            mon.count('chains')
        if cyclic:
            mon.count('cycles')
        if len({i[0] for i in locs}) > 1:
            mon.count('cross_document')
    for slot in SLOTS[version]:
        n, where = definer(gr, locs, slot)
        got = getattr(final, slot)
        own = getattr(obj, slot)
        what = dict(at=loc, slot=slot, chain=locs)
        if where is None:
            mon.check(not got, 'the merged form has what no path item has', **what)
        else:
            kind, at = nodes[where]
            mon.check(got is not None, 'the merged form lacks something', **what)
            mon.equal(view(gr.spec, kind, got), view(gr.spec, kind, at), 'the merged form took something else', **what)
            if n:
                mon.count('filled')
            if n and n > 1:
                mon.count('filled_far')
        # the path item itself is left alone
        if raw.get(slot):
            kind, at = nodes[(loc[0], loc[1] + (slot,))]
            mon.check(underlying(own) is underlying(at), 'a path item holds something else', **what)
        else:
            mon.check(not own, 'a path item got something by merging', **what)


def mark(raw_or_obj, obj):
    if isinstance(raw_or_obj, (list,)) or hasattr(raw_or_obj, 'append') and obj:
        out = []
        for x in raw_or_obj:
            if obj:
                x = utils.deref(x) if x.__class__.__name__ == 'Reference' else x
                out.append(x.description)
        return out
    return raw_or_obj.operationId if obj else raw_or_obj['operationId']


def migrated(mon, rng):
    gr = graph.make(rng, '2.0', gencls=ToMigrate, targets=rng.choice(['home', 'inner']), kinds=rng.choice([('PathItem', 'Parameter'), ('PathItem',)]),
                    styles=('full', 'lib', 'single'), density=0.1, size=rng.choice([6, 15]))
    thin(rng, gr)
    mon.context = {'version': '2.0 to 3.0.0', 'root': gr.root, 'docs': gr.docs}
    app = World(gr.docs).create(gr.root, '3.0.0')
    queue = [((gr.root, ('paths', k)), app.root.paths[k]) for k in gr.docs[gr.root].get('paths', {})]
    seen = set()
    while queue:
        loc, obj = queue.pop()
        if loc in seen:
            continue
        seen.add(loc)
        raw = gr.at(loc)
        locs, cyclic = chain(gr, loc)
        final = utils.final(obj)
        mon.count('migrated')
        if '$ref' in raw:
            to = attrs(obj).ref_obj
            mon.check(to is not None, 'a migrated path item leads nowhere', at=loc)
            queue.append((gr.target(loc[0], raw['$ref']), to))
            mon.check(underlying(final) is not underlying(obj), 'no merged form', at=loc)
        else:
            mon.check(underlying(final) is underlying(obj), 'a path item without reference is not its own merged form',
                      at=loc)
        for slot in SLOTS['2.0']:
            n, where = definer(gr, locs, slot)
            got, own = getattr(final, slot), getattr(obj, slot)
            what = dict(at=loc, slot=slot, chain=locs)
            if where is None:
                mon.check(not got, 'the merged form has what no path item has', **what)
                continue
            mon.check(got is not None, 'the merged form lacks something', **what)
            mon.equal(mark(got, True), raw_mark(gr, where), 'the merged form took something else', **what)
            if n:
                mon.count('migrated_filled')
            if n:
                mon.check(not own, 'a path item got something by merging', **what)
            else:
                mon.equal(mark(own, True), raw_mark(gr, where), 'a path item holds something else', **what)
    mon.shape([gr.docs])


def raw_mark(gr, where):
    raw = gr.at(where)
    if isinstance(raw, list):
        return [gr.at(gr.follow((where[0], where[1] + (str(i),))))['description'] for i in range(len(raw))]
    return raw['operationId']


def case(mon, rng, index, tier):
    if index % 3 == 2:
        migrated(mon, rng)
    else:
        native(mon, rng, ('2.0', '3.0.0')[index % 3])
