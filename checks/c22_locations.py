"""C22: locations of the old document lead to their migrated counterparts."""
from vlib import graph, grammar as g, model3
from vlib.graph import live, marker_of_raw, marker_of_obj
from vlib.swagger import SwaggerGen, variant
from vlib.drive import OBJECTS, App, World, attrs, underlying, jref, parser_of
from vlib.view import view
from checks.c14_identity import places
from checks.c21_payloads import Payload

ID = 'C22'
TITLE = 'old locations'
BUDGET = {'quick': 4000, 'thorough': 80000}
NEED = {'moved': 20000, 'stayed': 40000, 'resolved': 10000, 'far': 3000, 'far_unreached': 1000, 'references': 20000,
        'payload_parameters': 2000, 'inner_schemas': 5000, 'odd_names': 3000, 'distinct': 80000,
        'shared_payload': 200, 'shared_odd_names': 20, 'loose_references': 2000, 'loose_Info': 600, 'inner_first': 150, 'loose_License': 600,
        'paths': 150000, 'parts_first': 10, 'values': 1500,
        'items': 3000, 'payload_schemas': 3000, 'shifted_parameters': 4000, 'inside': 8000, 'inside_moved': 2500}
RULE = ('random graphs of 1-4 Swagger 2.0 documents with unique markers; once migrated, the pointer of each old object is '
        'relocated and resolved, and what it leads to compared by marker, content and identity; each reference of the '
        'new document is looked up by walking down the new document; parts nothing refers to are migrated on their own.')
PLAIN = {'Tag': ('name', 'description'), 'Info': ('title', 'version', 'description', 'termsOfService'),
         'Contact': ('name', 'url', 'email'), 'License': ('name', 'url'),
         'ExternalDocumentation': ('url', 'description'),
         'XMLObject': ('name', 'namespace', 'prefix', 'attribute', 'wrapped'), 'SecurityScheme': ('description',),
         'Header': ('description',)}


def unescape(frag):
    return tuple(t.replace('~1', '/').replace('~0', '~') for t in frag.split('/')[1:])


def counterparts(gr):
    """ old objects that have a counterpart which keeps its shape: (tokens, kind name, raw) """
    old = Old(gr, gr.root)
    root = gr.docs[gr.root]
    for k in root.get('definitions', {}):
        for one in old.schema(('definitions', k)):
            yield one
    for k in root.get('parameters', {}):
        for one in old.parameter(('parameters', k)):
            yield one
    for k, raw in root.get('securityDefinitions', {}).items():
        yield ('securityDefinitions', k), 'SecurityScheme', raw
    for i, raw in enumerate(root.get('tags') or []):
        yield ('tags', str(i)), 'Tag', raw
        if 'externalDocs' in raw:
            yield ('tags', str(i), 'externalDocs'), 'ExternalDocumentation', raw['externalDocs']
    for tokens, kk, raw in old.walk(('info',), 'Info'):
        yield tokens, kk, raw
    if 'externalDocs' in root:
        yield ('externalDocs',), 'ExternalDocumentation', root['externalDocs']
    for k in root.get('responses', {}):
        for one in old.response(('responses', k)):
            yield one
    for p in root.get('paths', {}):
        for one in old.path_item(('paths', p)):
            yield one


class Split(Payload):
    """ form fields that are kept under different media types """
    split = True


class Old(object):
    """ old objects of a document """

    def __init__(self, gr, url):
        self.gr, self.url = gr, url

    def at(self, tokens):
        return self.gr.at((self.url, tokens))

    def below(self, name, tokens):
        return {'Schema': self.schema, 'Response': self.response, 'Parameter': self.parameter,
                'PathItem': self.path_item}.get(name, lambda tokens: self.walk(tokens, name))(tokens)

    def walk(self, tokens, name):
        beside = []
        for at, kk, raw in g.walk(self.gr.spec, ('o', name), self.at(tokens), tokens):
            if kk[0] == 'o' and not any(at[:len(b)] == b for b in beside):
                yield at, kk[1], raw
                if kk[1] == 'Schema' and isinstance(raw.get('$ref'), str):
                    beside.append(at)                               # what is beside a reference does not count

    def schema(self, tokens):
        return self.walk(tokens, 'Schema')

    def payload(self, tokens):
        if '$ref' in self.at(tokens) or self.at(tokens).get('type') != 'file':
            for at, name, raw in self.schema(tokens):
                if name == 'Schema':
                    yield at, name, raw

    def items(self, tokens):
        raw = self.at(tokens)
        while isinstance(raw.get('items'), dict):
            raw, tokens = raw['items'], tokens + ('items',)
            yield tokens, 'Items', raw

    def parameter(self, tokens):
        raw = self.at(tokens)
        if '$ref' in raw:
            return
        yield tokens, 'Parameter', raw
        for one in self.payload(tokens + ('schema',)) if raw['in'] == 'body' else self.items(tokens):
            yield one

    def parameters(self, tokens):
        for i in range(len(self.at(tokens).get('parameters') or [])):
            for one in self.parameter(tokens + ('parameters', str(i))):
                yield one

    def response(self, tokens):
        raw = self.at(tokens)
        if '$ref' in raw:
            return
        yield tokens, 'Response', raw
        for h in raw.get('headers') or {}:
            yield tokens + ('headers', h), 'Header', raw['headers'][h]
            for one in self.items(tokens + ('headers', h)):
                yield one
        if 'schema' in raw:
            for one in self.payload(tokens + ('schema',)):
                yield one

    def path_item(self, tokens):
        item = self.at(tokens)
        yield tokens, 'PathItem', item
        for one in self.parameters(tokens):
            yield one
        for m in model3.METHODS:
            if m not in item:
                continue
            at = tokens + (m,)
            yield at, 'Operation', item[m]
            for one in self.parameters(at):
                yield one
            if 'externalDocs' in item[m]:
                yield at + ('externalDocs',), 'ExternalDocumentation', item[m]['externalDocs']
            for c in item[m].get('responses') or {}:
                for one in self.response(at + ('responses', c)):
                    yield one


def judge(mon, model, url, name, raw, obj, what):
    """ is this the migrated form of something old """
    if name == 'Schema' and isinstance(raw.get('$ref'), str):
        ref = getattr(obj, 'ref', None)
        mon.check(ref is not None, 'an old reference leads to something else', **what)
        full = url + ref if ref.startswith('#') else ref
        want = model3.pinned(model.ref(url, raw['$ref']), {'$ref': full})
        mon.equal(full, want['$ref'], 'an old reference leads to another reference', **what)
        return
    if name in PLAIN:
        for f in PLAIN[name]:
            mon.equal(getattr(obj, f, None), raw.get(f), 'an old location leads to something else', field=f, **what)
        return
    if name == 'Parameter' and raw.get('in') in ('body', 'formData'):
        mon.equal(obj.__class__.__name__, 'RequestBody', 'a payload parameter leads to something else', **what)
        mon.count('payload_parameters')
        if raw['in'] == 'body':
            mon.equal(obj.description, raw.get('description'), 'a payload parameter leads to another one', **what)
        else:
            mon.check(any(raw['name'] in m.schema.properties for m in (obj.content[k] for k in obj.content.keys())),
                      'a form field leads to a body without it', **what)
        return
    if name == 'Items':
        mon.equal(obj.__class__.__name__, 'Schema', 'an old location leads to another kind of object', **what)
        model3.judge(mon, ('o', 'Schema'), model.typed(raw), view(g.V3, ('o', 'Schema'), obj), url,
                     'an old location leads to another object', **what)
        mon.count('items')
        return
    mon.equal(obj.__class__.__name__, name, 'an old location leads to another kind of object', **what)
    if name == 'Schema' and graph.MARK['Schema'] not in raw:
        return
    mon.equal(marker_of_obj(obj), marker_of_raw(name, raw), 'an old location leads to another object', **what)


def parts_first(mon, rng):
    """ a listed finding: a part is asked for in the new version before its document is migrated """
    a, b = 'A%d' % rng.randrange(100), 'B%d' % rng.randrange(100)
    root = 'http://h/root.json'
    docs = {root: {'swagger': '2.0', 'info': {'title': 't', 'version': '1'}, 'paths': {}, 'definitions': {
        a: {'type': 'object', 'properties': {'p': {'$ref': '#/definitions/' + b}}}, b: {'type': 'string', 'description': 'end'}}}}
    mon.context = {'docs': docs, 'first': a}
    app = App(root, resolver=World(docs).resolver())
    raw = app.load_obj(root)
    app.resolve_obj(root + '#/definitions/' + a, from_spec_version='2.0', to_spec_version='3.0.0')
    app.root = app.migrate_obj(raw, root, '3.0.0')
    ref = app.root.components.schemas[a].properties['p']
    mon.equal(attrs(ref).ref_obj.description, 'end', 'a reference leads to something else')
    mon.count('parts_first')
    if ref.ref == '#/definitions/' + b:
        mon.known_finding('part-before-document')
        return
    mon.equal(ref.ref, '#/components/schemas/' + b, 'a reference names no place of the migrated document')


def case(mon, rng, index, tier):
    if index % 200 == 199:
        parts_first(mon, rng)
    payload = index % 3 == 2
    gr = graph.make(rng, '2.0', siblings=0.15,
                    gencls=rng.choice([Payload, Payload, Split]) if payload else variant(payload=rng.choice([(), ('body',)])),
                    targets=rng.choice(['home', 'inner']), styles=('full', 'lib', 'single'), density=rng.choice([0.1, 0.2]),
                    size=rng.choice([6, 15, 30]))
    mon.context = {'root': gr.root, 'docs': gr.docs}
    app = World(gr.docs).create(gr.root, '3.0.0')
    model = model3.Model(gr)
    store = app.spec_obj_store
    new = {tokens: (k, o) for tokens, k, o in live(g.V3, ('o', 'OpenApi'), app.root)}
    for p in gr.docs[gr.root].get('paths', {}):
        # a place of its own for payload parameters declared for a whole path item
        at = ('paths', p, 'x-pyopenapi_internal_request_body')
        body = getattr(app.root.paths[p], at[-1], None)
        if body is not None:
            new.update((tokens, (k, o)) for tokens, k, o in live(g.V3, ('o', 'RequestBody'), body, at))
    judge_root(mon, rng, gr, app, model, store, new)
    judge_paths(mon, ('o', 'OpenApi'), app.root)
    judge_far(mon, rng, gr, app, model)
    judge_references(mon, gr, app, new)
    judge_values(mon, rng, gr, app)
    judge_loose(mon, rng, gr, app, model)
    mon.shape([gr.docs])
    if len(gr.docs) > 1 and index % 50 == 0:
        mon.sample(mon.context)


def judge_root(mon, rng, gr, app, model, store, new):
    ends = {}
    some = list(counterparts(gr))
    for tokens, name, raw in some:
        old = g.pointer(tokens)
        at = store.relocate(gr.root, old, '2.0', '3.0.0')
        what = dict(old=old, new=at)
        mon.equal(store.relocate(gr.root, old, '2.0', '2.0'), old, 'relocated within one version')
        # form fields are in one body
        mon.check(name == 'Parameter' and raw['in'] == 'formData' or ends.setdefault(at, old) == old,
                  'two old locations end at one new location', other=ends.get(at), **what)
        mon.count('distinct')
        mon.count('stayed' if at == old else 'moved')
        if any(c in t for t in tokens[1:] for c in '/~'):
            mon.count('odd_names')
        if name == 'Schema' and len(tokens) > 2:
            mon.count('inner_schemas' if tokens[0] == 'definitions' else 'payload_schemas')
        if name == 'Parameter' and at != old and tokens[0] == 'paths':
            mon.count('shifted_parameters')
        there = unescape(at)
        mon.check(there in new, 'an old location leads nowhere', **what)
        judge(mon, model, gr.root, name, raw, new[there][1], what)
    judge_shared(mon, gr, app, store)
    for tokens, name, raw in rng.sample(some, min(len(some), 12)):
        old = g.pointer(tokens)
        parser = parser_of('2.0', name) if name in graph.REFERABLE['2.0'] and rng.random() < 0.5 else None
        got, where = app.resolve_obj(gr.root + old, from_spec_version='2.0', parser=parser, to_spec_version='3.0.0')
        what = dict(old=old, new=where)
        mon.count('resolved')
        url, _, frag = where.partition('#')
        mon.equal(url, gr.root, 'resolved to another document', **what)
        there = unescape('#' + frag)
        mon.check(there in new and underlying(new[there][1]) is underlying(got),
                  'an old reference is resolved to what is not at its new location', **what)
        judge(mon, model, gr.root, name, raw, got, what)


def judge_shared(mon, gr, app, store):
    """ payload parameters declared for a whole path item become one body """
    for p, item in gr.docs[gr.root].get('paths', {}).items():
        for i, raw in enumerate(item.get('parameters') or []):
            if raw.get('in') not in ('body', 'formData'):
                continue
            old = g.pointer(('paths', p, 'parameters', str(i)))
            at = store.relocate(gr.root, old, '2.0', '3.0.0')
            what = dict(old=old, new=at)
            mon.check(at.startswith(g.pointer(('paths', p)) + '/'), 'a parameter of a path item leads elsewhere', **what)
            got = store.get(gr.root, at, '3.0.0')
            mon.equal(got.__class__.__name__, 'RequestBody', 'a payload parameter leads to something else', **what)
            mon.count('shared_payload')
            if raw['in'] == 'body':
                mon.equal(got.description, raw.get('description'), 'a payload parameter leads to another one', **what)
            else:
                mon.check(any(raw['name'] in m.schema.properties for m in (got.content[k] for k in got.content.keys())),
                          'a form field leads to a body without it', **what)
            if any(c in p[1:] for c in '/~'):
                mon.count('shared_odd_names')


def judge_far(mon, rng, gr, app, model):
    """ parts of other documents stay where they are """
    reached = {}
    queue, seen = [app.root], set()
    while queue:
        top = queue.pop()
        for tokens, k, o in live(g.V3, ('o', top.__class__.__name__), top):
            if k[0] == 'o' and k[1] in ('Reference', 'PathItem') and getattr(o, 'ref', None) is not None:
                to = attrs(o).ref_obj
                a = attrs(o).normalized_ref
                at, _, frag = a.partition('#')
                loc = (at, unescape('#' + frag))
                if loc[0] != gr.root:
                    reached[loc] = to
                    if loc not in seen:
                        seen.add(loc)
                        queue.append(to)
    far = []
    for url in gr.docs:
        if url != gr.root:
            far += [((url, base), kind[1]) for base, kind in gr.roots[url] if kind[1] in graph.REFERABLE['2.0']]
    for loc, name in rng.sample(far, min(len(far), 4)):
        raw = gr.at(loc)
        if '$ref' in raw and name != 'PathItem':
            continue
        got, where = app.resolve_obj(jref(loc), from_spec_version='2.0', parser=parser_of('2.0', name),
                                     to_spec_version='3.0.0')
        what = dict(old=jref(loc), new=where)
        mon.equal(where.rstrip('#'), jref(loc).rstrip('#'), 'an object of another document moved', **what)
        judge(mon, model, loc[0], name, raw, got, what)
        mon.count('far')
        if loc in reached:
            mon.check(underlying(reached[loc]) is underlying(got), 'another object than the one references lead to', **what)
        else:
            mon.count('far_unreached')


def judge_paths(mon, kind, top, base=()):
    """ objects know where they are """
    for tokens, k, o in live(g.V3, kind, top, base):
        mon.equal(o.get_path(), g.pointer(tokens), 'an object reports another path than the one it is at')
        mon.count('paths')


def judge_values(mon, rng, gr, app):
    """ plain values of schemas, by their old location """
    for k, raw in gr.docs[gr.root].get('definitions', {}).items():
        some = sorted(f for f in model3.SCHEMA if isinstance(raw.get(f), (str, int, float, bool, list)))
        if '$ref' in raw or not some or rng.random() < 0.5:
            continue
        f = rng.choice(some)
        old = g.pointer(('definitions', k, f))
        got = app.resolve_obj(gr.root + old, from_spec_version='2.0', to_spec_version='3.0.0')[0]
        mon.equal(list(got) if isinstance(raw[f], list) else got, raw[f], 'an old location leads to another value', old=old)
        mon.count('values')


def back(rng, gr, home):
    """ a reference to something of the root """
    some = gr.docs[gr.root].get(home)
    if some:
        key = rng.choice(sorted(some))
        if home != 'parameters' or gr.at(gr.follow((gr.root, (home, key))))['in'] not in ('body', 'formData'):
            return {'$ref': jref((gr.root, (home, key)))}
    return {'definitions': {'type': 'string'}, 'responses': {'description': 'x'}, 'parameters': None}[home]


def judge_loose(mon, rng, gr, app, model):
    """ parts nothing refers to, migrated on their own """
    gen = SwaggerGen(rng, '2.0', [10 ** 6], [], prefix='z', refs=0, size=6)
    url = 'http://loose/%s.json' % rng.choice(['a', 'b'])
    doc = gr.docs[url] = {}
    parts = []
    for i in range(3):
        name = rng.choice(['Info', 'License', 'Schema', 'Response', 'Parameter', 'PathItem'])
        key = rng.choice(['x', 'a/b', 'm~n', 'p q', '0']) + str(i)
        raw = doc[key] = gen.obj(name, 2)
        # with a reference to what is in the root, where it may have moved
        if name == 'Schema':
            raw.setdefault('properties', {})['back'] = back(rng, gr, 'definitions')
        elif name == 'Response':
            raw['schema'] = back(rng, gr, 'definitions')
        elif name == 'PathItem':
            raw['get']['responses']['201'] = back(rng, gr, 'responses')
            raw['get'].setdefault('parameters', []).append(back(rng, gr, 'parameters'))
            raw['get']['parameters'] = [p for p in raw['get']['parameters'] if p]
        parts.append((name, key))
    for name, key in parts:
        loc = (url, (key,))
        parser = getattr(OBJECTS['2.0'], name) if name in ('Info', 'License') else parser_of('2.0', name)
        first = None
        inner = 'license' if name == 'Info' else rng.choice(sorted(doc[key]['properties'])) if name == 'Schema' else None
        if inner and rng.random() < 0.5:
            # what is inside of it is migrated before
            steps = (inner,) if name == 'Info' else ('properties', inner)
            one = doc[key].get(inner) if name == 'Info' else doc[key]['properties'][inner]
            if one and '$ref' not in one:
                p = getattr(OBJECTS['2.0'], 'License') if name == 'Info' else parser_of('2.0', 'Schema')
                first = steps, app.resolve_obj(jref((url, (key,) + steps)), from_spec_version='2.0', parser=p,
                                               to_spec_version='3.0.0')[0]
        # migrated to its own version first, or not
        if rng.random() < 0.3:
            app.resolve_obj(jref(loc), from_spec_version='2.0', parser=parser)
        got, where = app.resolve_obj(jref(loc), from_spec_version='2.0', parser=parser, to_spec_version='3.0.0')
        what = dict(old=jref(loc), new=where, part=doc[key])
        mon.equal(where, jref(loc), 'an object of another document moved', **what)
        if first:
            mon.check(underlying(got.resolve(list(first[0]))) is underlying(first[1]),
                      'a part inside of another one is another object than the one given before', inner=first[0], **what)
            mon.count('inner_first')
        mon.equal(got.__swagger_version__, '3.0.0', 'a part was not migrated', **what)
        raw = doc[key]
        mon.check(name != 'Parameter' or (got.__class__.__name__ == 'RequestBody') == (raw['in'] == 'body'),
                  'a parameter becomes something else', **what)
        want = model.info(raw) if name == 'Info' else raw if name == 'License' else model.request_body(
            [loc], None) if raw.get('in') == 'body' else model.external(name, loc)
        kind = ('o', got.__class__.__name__)
        model3.judge(mon, kind, want, view(g.V3, kind, got), url, 'a part says something else', **what)
        judge_paths(mon, kind, got, (key,))
        for _, k, o in live(g.V3, kind, got):
            if k == ('o', 'Reference'):
                to = attrs(o).ref_obj
                mon.check(to is not None and to.__swagger_version__ == '3.0.0', 'a reference leads to an old object', **what)
                mon.count('loose_references')
        mon.count('loose_' + name)
        judge_inside(mon, rng, gr, app, model, name, loc, got)


def judge_inside(mon, rng, gr, app, model, name, loc, top):
    """ what is inside of a part of another document """
    kind = ('o', top.__class__.__name__)
    new = {tokens: o for tokens, _, o in live(g.V3, kind, top, loc[1])}
    at = loc[1] + ('x-pyopenapi_internal_request_body',)
    body = getattr(top, at[-1], None) if name == 'PathItem' else None
    if body is not None:
        new.update((tokens, o) for tokens, _, o in live(g.V3, ('o', 'RequestBody'), body, at))
    some = [one for one in Old(gr, loc[0]).below(name, loc[1]) if one[0] != loc[1]]
    for tokens, name, raw in rng.sample(some, min(len(some), 8)):
        got, where = app.resolve_obj(jref((loc[0], tokens)), from_spec_version='2.0', to_spec_version='3.0.0')
        what = dict(old=jref((loc[0], tokens)), new=where)
        url, _, frag = where.partition('#')
        mon.equal(url, loc[0], 'resolved to another document', **what)
        there = unescape('#' + frag)
        mon.check(there in new and underlying(new[there]) is underlying(got),
                  'an old reference is resolved to what is not at its new location', **what)
        judge(mon, model, loc[0], name, raw, got, what)
        mon.count('inside')
        mon.count('inside_stayed' if there == tokens else 'inside_moved')


def judge_references(mon, gr, app, new):
    raw = None
    for tokens, (k, o) in new.items():
        if k[0] != 'o' or k[1] not in ('Reference', 'PathItem') or getattr(o, 'ref', None) is None:
            continue
        ref = o.ref
        at, _, frag = ref.partition('#')
        if at and at != gr.root:
            continue
        there = unescape('#' + frag)
        what = dict(ref=ref, at=list(tokens))
        mon.check(there in new, 'a reference of the new document leads nowhere', **what)
        kind, to = new[there]
        mon.check(underlying(attrs(o).ref_obj) is underlying(to), 'a reference is resolved to another object', **what)
        want = 'PathItem'
        if k[1] == 'Reference' and tokens[2:3] == ('x-pyopenapi_internal_request_body',):
            want = 'Schema'
        elif k[1] == 'Reference':
            raw = raw or view(g.V3, ('o', 'OpenApi'), app.root)
            want = graph.referenced_name(graph.raw_kind(g.V3, ('o', 'OpenApi'), tokens, raw))
        if kind[1] != 'Reference':
            mon.equal(kind[1], want, 'a reference leads to the wrong kind of object', **what)
        mon.count('references')
