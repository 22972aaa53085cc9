"""C16: cyclic and dangling references never hang or pass silently."""
import copy
from pyopenapi.errs import CycleDetectionError
from pyopenapi.utils import deref, CycleGuard
from vlib import graph, grammar as g
from vlib.graph import explore, live, HOME, REFERABLE
from vlib.swagger import variant
from vlib.drive import World, App, attrs, underlying, jref, parser_of
from vlib.gen import word

ID = 'C16'
TITLE = 'cycles and dangling references'
BUDGET = {'quick': 6000, 'thorough': 120000}
CPU_S = 30
NEED = {'rings': 1500, 'ring_refs': 15000, 'pure_rings': 600, 'cycles_reported': 2500, 'long': 300, 'several_documents': 700,
        'migrated': 300, 'dangling': 1500, 'dangling_cross': 400, 'by_hand': 300, 'dangling_migrated': 150}
RULE = ('rings of 1-60 references of every kind over 1-8 documents, with tails leading into them, and random graphs with '
        'one reference broken in one of many ways; CPU budget of %d s for what takes milliseconds.' % CPU_S)

WRAP = {
    'properties': lambda r: {'type': 'object', 'properties': {'a': r}},
    'items': lambda r: {'type': 'array', 'items': r},
    'allOf': lambda r: {'allOf': [r]},
    'additionalProperties': lambda r: {'additionalProperties': r},
    'deep': lambda r: {'properties': {'x': {'items': {'allOf': [{}, {'additionalProperties': r}]}}}},
}
WRAP3 = {
    'oneOf': lambda r: {'oneOf': [r]},
    'anyOf': lambda r: {'anyOf': [{'type': 'string'}, r]},
    'not': lambda r: {'not': r},
}


def content(kind, version):
    return {
        'Schema': {'type': 'object'}, 'Parameter': {'name': 'x', 'in': 'query', 'type': 'string'} if version == '2.0'
        else {'name': 'x', 'in': 'query', 'schema': {'type': 'string'}},
        'Response': {'description': 'r'}, 'Example': {'value': 1}, 'RequestBody': {'content': {'a/b': {}}},
        'Header': {'schema': {}}, 'SecurityScheme': {'type': 'http', 'scheme': 'basic'}, 'Link': {'operationId': 'x'},
        'Callback': {'{x}': {'description': 'cb'}}, 'PathItem': {'get': {'responses': {'200': {'description': 'x'}}}},
    }[kind]


def ring(mon, rng, version, migrate=False):
    """ -> docs, root, kind, [locations of the ring], pure?, [locations of the tail] """
    kind = rng.choice(['Schema', 'Schema', 'Schema'] + list(REFERABLE[version]))
    n = rng.choice([1, 1, 2, 2, 3, 4, 7, 12, 60])
    ndocs = rng.choice([1, 1, 2, 3, min(8, n)])
    ndocs = max(1, min(n, ndocs))
    base = 'http://h/a/'
    urls = [base + 'root.json'] + [base + rng.choice(['x%d.json', 'sub/x%d.yaml', 'x%d']) % i for i in range(1, ndocs)]
    # parameters and responses of a Swagger 2.0 object are no place for references
    apart = version == '2.0' and kind in ('Parameter', 'Response')
    if apart and ndocs == 1:
        ndocs = 2
        urls.append(base + 'x.json')
    locs = []
    tail = rng.choice([0, 0, 1, 3])
    for i in range(n + tail):
        url = rng.choice(urls) if i >= ndocs else urls[i]
        if apart and url == urls[0]:
            url = urls[-1]
        w = word(rng, 0.1) + str(i)
        home = HOME[version][kind]
        if url != urls[0] and rng.random() < 0.5:
            home = rng.choice([(), ('g',), ('g', 'h')])
        locs.append((url, home + (('/' if kind == 'PathItem' else '') + w,)))
    root = {'swagger': '2.0', 'info': {'title': 't', 'version': '1'}, 'paths': {}} if version == '2.0' else \
        {'openapi': '3.0.0', 'info': {'title': 't', 'version': '1'}, 'paths': {}}
    docs = {u: {} for u in urls}
    docs[urls[0]] = root
    pure = kind != 'PathItem' and rng.random() < (0.4 if kind == 'Schema' else 0.7)
    if kind in ('Schema', 'PathItem'):
        solid = n if not pure else 0
    else:
        solid = 0
    pure = solid == 0
    wraps = dict(WRAP)
    if version == '3.0.0':
        wraps.update(WRAP3)
    some = rng.random() < 0.5
    real = 0
    for i, loc in enumerate(locs):
        to = locs[(i + 1) % n] if i < n else locs[rng.randrange(i)]
        ref = {'$ref': graph.spell(rng, loc[0], to[0], g.pointer(to[1]), 0.8)}
        if pure or (some and kind == 'Schema' and rng.random() < 0.5 and not (i == n - 1 and not real)):
            node = ref
        elif kind == 'Schema':
            real += i < n
            node = wraps[rng.choice(sorted(wraps))](ref)
        else:
            node = dict(content(kind, version))
            node.update(ref)
        at = docs[loc[0]]
        for t in loc[1][:-1]:
            at = at.setdefault(t, {})
        at[loc[1][-1]] = node
    # the root uses it
    first = rng.choice(locs)
    use = {'$ref': graph.spell(rng, urls[0], first[0], g.pointer(first[1]), 0.8)}
    op = {'responses': {'200': {'description': 'ok'}}}
    item = {'get': op}
    if kind == 'Schema':
        if version == '2.0':
            op['responses']['200']['schema'] = use
        else:
            op['responses']['200']['content'] = {'a/b': {'schema': use}}
    elif kind == 'Parameter':
        op['parameters'] = [use]
    elif kind == 'Response':
        op['responses']['200'] = use
    elif kind == 'RequestBody':
        op['requestBody'] = use
    elif kind == 'Callback':
        op['callbacks'] = {'c': use}
    elif kind == 'PathItem':
        item.update(use)
    elif kind == 'Example':
        op['parameters'] = [{'name': 'q', 'in': 'query', 'examples': {'e': use}}]
    elif kind == 'Header':
        op['responses']['200']['headers'] = {'e': use}
    elif kind == 'Link':
        op['responses']['200']['links'] = {'e': use}
    elif kind == 'SecurityScheme':
        root.setdefault('components', {}).setdefault('securitySchemes', {})['use'] = use
    root['paths']['/use'] = item
    return docs, urls[0], kind, locs[:n], pure, locs[n:]


def rings(mon, rng, version):
    docs, root, kind, locs, pure, tail = ring(mon, rng, version)
    gr = graph.Graph(version, docs, root)
    mon.context = {'version': version, 'root': root, 'docs': docs, 'kind': kind, 'pure': pure}
    migrate = version == '2.0' and rng.random() < 0.4
    mon.count('rings')
    if len(locs) > 10:
        mon.count('long')
    if len(docs) > 1:
        mon.count('several_documents')
    if pure:
        mon.count('pure_rings')
    app = World(docs).create(root, version)
    for e in explore(gr, app.root):
        if e[0] != 'ref':
            continue
        _, loc, name, obj, to, got = e
        mon.count('ring_refs')
        mon.check(got is not None, 'a reference on a cycle is not resolved', at=loc)
        raw = gr.at(to)
        if set(raw) == {'$ref'} and not (version == '2.0' and name == 'Schema') and name != 'PathItem':
            mon.check(got.__class__.__name__ == 'Reference', 'a reference leads to something else', at=loc)
        if name == 'PathItem':
            continue
        start = gr.at(loc)
        if set(start) != {'$ref'}:
            continue
        end = gr.follow(loc)
        try:
            last = deref(obj)
        except CycleDetectionError:
            mon.check(end is None, 'a cycle is reported where there is none', at=loc)
            mon.count('cycles_reported')
        else:
            mon.check(end is not None, 'dereferencing a pure cycle ends somewhere', at=loc, got=repr(last))
            mon.check(getattr(last, 'ref', None) is None, 'dereferencing ends at a reference', at=loc)
    # by hand
    loc = rng.choice(locs + tail)
    got, _ = app.resolve_obj(jref(loc), from_spec_version=version, parser=parser_of(version, kind))
    mon.check(got is not None, 'not resolved by hand', at=loc)
    mon.count('by_hand')
    if migrate:
        mon.count('migrated')
        try:
            app = World(docs).create(root, '3.0.0')
        except CycleDetectionError:
            mon.check(pure, 'a cycle is reported for something else than a pure one')
            mon.count('cycles_reported')
            return
        every(mon, app.root)
    mon.shape([docs])
    if len(docs) > 1:
        mon.sample(mon.context)


def every(mon, root):
    """ every migrated reference leads somewhere """
    spec = g.SPECS['3.0.0']
    queue, seen = [('OpenApi', root)], set()
    while queue:
        name, obj = queue.pop()
        if id(underlying(obj)) in seen:
            continue
        seen.add(id(underlying(obj)))
        for tokens, k, o in live(spec, ('r', 'Schema') if name == 'Reference' else ('o', name), obj):
            if k[0] != 'o' or getattr(o, 'ref', None) is None or k[1] not in ('Reference', 'PathItem'):
                continue
            to = attrs(o).ref_obj
            mon.check(to is not None, 'a migrated reference is not resolved', at=tokens)
            mon.count('ring_refs')
            queue.append((to.__class__.__name__, to))


def graphs(mon, rng, version):
    """ cycles as they come """
    gr = graph.make(rng, version, refs=0.7)
    mon.context = {'version': version, 'root': gr.root, 'docs': gr.docs}
    app = World(gr.docs).create(gr.root, version)
    mon.count('rings')
    for e in explore(gr, app.root):
        if e[0] == 'ref':
            mon.count('ring_refs')
            mon.check(e[5] is not None, 'a reference is not resolved', at=e[1])


def needed(gr):
    """ references that have to be followed from the root: (location, kind, target) """
    out, queue, seen = [], [((gr.root, ()), ('o', gr.spec.root))], set()
    while queue:
        loc, kind = queue.pop()
        if loc in seen:
            continue
        seen.add(loc)
        for at, name, to in gr.refs_below(loc, kind):
            if name == gr.spec.refname:
                name = graph.referenced_name(graph.raw_kind(gr.spec, kind, at[1][len(loc[1]):], gr.at(loc)))
            out.append((at, name, to))
            queue.append((to, gr.slot_kind(name)))
    return out


ATTRIBUTES = ('dump', 'resolve', '__class__', 'spec', 'children', 'get_path')


def missing(rng, gr, to):
    """ a location that does not exist, alike one that does """
    how = rng.choice(['last', 'longer', 'prefix', 'middle', 'document', 'below', 'index', 'case', 'slash'])
    url, tokens = to
    if how == 'document' or not tokens:
        return (url + '.not' if '?' not in url else url.replace('?', '-not?'), tokens), 'document'
    node = gr.at((url, tokens[:-1]))
    last = tokens[-1]
    if isinstance(node, list):
        return (url, tokens[:-1] + (str(len(node) + rng.choice([0, 1, 7])),)), 'index'
    if how == 'longer':
        new = last + rng.choice(['x', 's', '0'])
    elif how == 'prefix' and len(last) > 1:
        new = last[:-1]
    elif how == 'case' and last.swapcase() != last:
        new = last.swapcase()
    elif how == 'slash':
        new = ''
    elif how == 'middle' and len(tokens) > 1:
        i = rng.randrange(len(tokens) - 1)
        return (url, tokens[:i] + ('absent' + tokens[i],) + tokens[i + 1:]), 'middle'
    elif how == 'below':
        return (url, tokens + ('absent',)), 'below'
    else:
        new = 'no such thing'
    if how == 'slash':
        return (url, tokens + (new,)), 'slash'
    return (url, tokens[:-1] + (new,)), how


def exists(gr, loc):
    try:
        gr.at(loc)
    except (KeyError, IndexError, ValueError, TypeError):
        return False
    return True


def dangling(mon, rng, version):
    migrate = version == '2.0' and rng.random() < 0.3
    if migrate:
        gr = graph.make(rng, '2.0', targets=rng.choice(['home', 'inner']), gencls=variant(payload=rng.choice([(), ('body',)])), refs=0.5)
    else:
        gr = graph.make(rng, version, refs=0.5)
    refs = needed(gr)
    if not refs:
        mon.count('no_reference')
        return
    at, name, to = rng.choice(refs)
    new, how = missing(rng, gr, to)
    if exists(gr, new):
        return
    if any(t in ATTRIBUTES or t in ('ref', 'path', 'not_', 'in_') or t.startswith('_') for t in new[1][len(to[1]) - 1:]):
        return                      # see below
    gr.at(at)['$ref'] = graph.spell(rng, at[0], new[0], g.pointer(new[1]) if new[1] else '')
    mon.context = {'version': version, 'root': gr.root, 'docs': gr.docs, 'broken': at, 'names': new, 'how': how}
    world = World(gr.docs)
    app = App(gr.root, resolver=world.resolver())
    app.raw = app.load_obj(gr.root)
    try:
        app.migrate_obj(app.raw, gr.root, '3.0.0' if migrate else version)
    except Exception as e:  # pylint: disable=broad-except
        mon.check(not isinstance(e, RecursionError), 'a dangling reference is reported by recursing too deep')
        mon.count('dangling')
        if migrate:
            mon.count('dangling_migrated')
        if at[0] != new[0]:
            mon.count('dangling_cross')
    else:
        mon.fail('a reference to nothing passes silently', at=at, names=new, how=how)
    # and by hand, from a fresh app which is fine
    mon.shape([gr.docs])
    if rng.random() < 0.3:
        for bad in (new,):
            app = App(gr.root, resolver=World(gr.docs).resolver())
            app.raw = app.load_obj(gr.root)
            try:
                got = app.resolve_obj(jref(bad), from_spec_version=version, parser=parser_of(version, name))
            except Exception:  # pylint: disable=broad-except
                mon.count('by_hand')
            else:
                mon.fail('nothing is resolved by hand to something', names=bad, got=repr(got))


def known(mon, rng):
    """ listed findings: what resolve() of objects takes for a location """
    for tokens, what in (('definitions/Pet/dump', 'dangling-python-attribute'),
                         ('definitions/Pet/type/x', 'dangling-below-value'),
                         ('definitions/Pet/allOf/-1', 'dangling-index')):
        docs = {'http://h/r.json': {'swagger': '2.0', 'definitions': {
            'Pet': {'type': 'object', 'allOf': [{'type': 'string'}]}, 'Use': {'$ref': '#/' + tokens}}}}
        try:
            World(docs).create('http://h/r.json', '2.0')
        except Exception:  # pylint: disable=broad-except
            pass
        else:
            mon.known_finding(what)
    for n in (1, 2, 5):
        guard = CycleGuard()
        objs = [World({'http://h/u': {'swagger': '2.0'}}).load('http://h/u').raw for _ in range(n)]
        for o in objs:
            guard.update(o)
        for o in objs:
            try:
                guard.update(o)
            except CycleDetectionError:
                mon.count('cycles_reported')
            else:
                mon.fail('a cycle is not reported')


def case(mon, rng, index, tier):
    version = ('2.0', '3.0.0')[index % 2]
    if index % 400 == 0:
        known(mon, rng)
    elif index % 5 < 2:
        rings(mon, rng, version)
    elif index % 5 == 2:
        graphs(mon, rng, version)
    else:
        dangling(mon, rng, version)
