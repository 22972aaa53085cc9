"""Graphs of documents referring to each other, and an independent way to follow
their references on the raw documents.

Every object something can refer to carries a unique marker in one of its fields,
so that what a reference leads to can be recognised, wherever it ended up.
"""
import posixpath
from . import grammar as g
from .gen import DocGen, word

REFERABLE = {
    '2.0': ('Schema', 'Parameter', 'Response', 'PathItem'),
    '3.0.0': ('Schema', 'Parameter', 'Response', 'PathItem', 'Example', 'RequestBody', 'Header', 'SecurityScheme',
              'Link', 'Callback'),
}
# where components of each kind are kept in a full document
HOME = {
    '2.0': {'Schema': ('definitions',), 'Parameter': ('parameters',), 'Response': ('responses',),
            'PathItem': ('paths',)},
    '3.0.0': {'Schema': ('components', 'schemas'), 'Parameter': ('components', 'parameters'),
              'Response': ('components', 'responses'), 'Example': ('components', 'examples'),
              'RequestBody': ('components', 'requestBodies'), 'Header': ('components', 'headers'),
              'SecurityScheme': ('components', 'securitySchemes'), 'Link': ('components', 'links'),
              'Callback': ('components', 'callbacks'), 'PathItem': ('paths',)},
}
MARK = {'Schema': 'description', 'Parameter': 'description', 'Response': 'description', 'Header': 'description',
        'RequestBody': 'description', 'Example': 'summary', 'Link': 'description', 'SecurityScheme': 'description',
        'Operation': 'operationId'}


class Hole(object):
    """ a reference whose target is decided once everything is laid out """

    def __init__(self, kind, tag=None):
        self.kind = kind
        self.tag = tag              # what else the target has to be, see tag_of


class MarkedGen(DocGen):
    def __init__(self, rng, version, counter, holes, prefix='m', **kw):
        kw.setdefault('empties', 0.0)
        kw.setdefault('bools', 0.2)
        super(MarkedGen, self).__init__(rng, version, **kw)
        self.counter = counter
        self.holes = holes
        self.prefix = prefix

    def marker(self):
        self.counter[0] += 1
        return '%s%d' % (self.prefix, self.counter[0])

    def hole(self, kind, tag=None):
        return {'$ref': Hole(kind, tag)}

    def kind(self, kind, depth, hint=''):
        rng = self.rng
        if kind[0] == 'r':
            if rng.random() < self.refs:
                return self.hole(kind[1])
            return self.kind(('o', kind[1]), depth, hint)
        if kind == ('o', 'Schema') and self.spec.version == '2.0' and rng.random() < self.refs and hint != 'definition':
            return self.hole('Schema')
        if kind[0] == 'o' and kind[1] == 'Callback':
            return self.obj('Callback', depth)
        return super(MarkedGen, self).kind(kind, depth, hint)

    def obj(self, name, depth):
        rng, version = self.rng, self.spec.version
        if name == 'Callback':
            n = rng.choice([1, 1, 2])
            return {'{$request.body#/%s}' % word(rng): self.obj('PathItem', depth + 1) for _ in range(n)}
        ret = super(MarkedGen, self).obj(name, depth)
        ret.pop('$ref', None)
        if name in MARK:
            ret[MARK[name]] = self.marker()
        if name == 'PathItem':
            if version == '2.0':
                if 'get' not in ret:
                    ret['get'] = super(MarkedGen, self).obj('Operation', 99)
                    ret['get'].pop('$ref', None)
                ret['get']['operationId'] = self.marker()
            else:
                ret['summary'] = self.marker()
            if rng.random() < self.refs * 0.7:
                ret['$ref'] = Hole('PathItem')
        if name == 'Schema' and version == '2.0' and ret.get('type') == 'file':
            ret['type'] = 'object'
        return ret


def marker_of_raw(kind, raw):
    if kind == 'Callback':
        return '+'.join(sorted(marker_of_raw('PathItem', p) for p in raw.values()))
    if kind == 'PathItem':
        return raw['summary'] if 'summary' in raw else raw['get']['operationId']
    return raw[MARK[kind]]


def _class(obj):
    return obj.__class__.__name__


def marker_of_obj(obj):
    """ marker of a loaded (or migrated) object, None for references """
    name = _class(obj)
    if name == 'Reference':
        return None
    if name == 'PathItem':
        if getattr(obj, 'summary', None):
            return obj.summary
        return obj.get.operationId
    if name in MARK:
        return getattr(obj, MARK[name])
    if hasattr(obj, 'keys'):
        return '+'.join(sorted(marker_of_obj(obj[k]) for k in obj.keys()))
    raise ValueError('no marker for %s' % name)


def tag_of(raw):
    """ which kind of parameter is it """
    if isinstance(raw.get('$ref'), Hole):
        return raw['$ref'].tag
    return {'body': 'body', 'formData': 'file' if raw.get('type') == 'file' else 'form'}.get(raw.get('in'), 'plain')


class Graph(object):
    """ documents, and how to follow their references """

    def __init__(self, version, docs, root):
        self.version = version
        self.spec = g.SPECS[version]
        self.docs = docs
        self.root = root

    def at(self, loc):
        url, tokens = loc
        raw = self.docs[url]
        for t in tokens:
            raw = raw[int(t)] if isinstance(raw, list) else raw[t]
        return raw

    def target(self, url, ref):
        """ location a reference written in a document names """
        from checks.c08_urls import rfc_resolve
        full = rfc_resolve(ref, url)
        at, _, frag = full.partition('#')
        tokens = tuple(t.replace('~1', '/').replace('~0', '~') for t in frag.split('/')[1:])
        return at, tokens

    def follow(self, loc):
        """ location after all references that stand alone """
        seen = set()
        while True:
            raw = self.at(loc)
            if not alone(raw):
                return loc
            if loc in seen:
                return None
            seen.add(loc)
            loc = self.target(loc[0], raw['$ref'])

    def refs_below(self, loc, kind):
        """ references at and below a location: (location, expected kind, target) """
        for tokens, k, raw in g.walk(self.spec, kind, self.at(loc)):
            if k[0] != 'o' or not isinstance(raw.get('$ref'), str):
                continue
            yield (loc[0], loc[1] + tokens), k[1], self.target(loc[0], raw['$ref'])

    def slot_kind(self, kind):
        """ grammar kind at the end of a reference """
        if kind in ('PathItem',) or self.version == '2.0' and kind == 'Schema':
            return ('o', kind)
        return ('r', kind)


def raw_kind(spec, kind, tokens, raw):
    """ the (unresolved) kind at tokens below a node """
    for t in tokens:
        k = g.resolve_kind(spec, kind, raw)
        if k[0] == 'l':
            kind, raw = k[1], raw[int(t)]
        elif k[0] == 'm':
            kind, raw = k[1], raw[t]
        elif k[0] == 'o':
            kind, raw = spec.objects[k[1]][t], raw[t]
    return kind


def referenced_name(kind):
    return kind[1][1] if kind[0] == 'b' else kind[1]


HOSTS = ['http://h/api/', 'https://api.x.io:8080/v1/', 'http://localhost/', 'http://u@h/a/b/c/']
NAMES = ['defs.json', 'defs.yaml', 'sub/defs.json', '../common.json', 'Defs.json', 'defs.json.json', 'a%20b.json',
         'sub/deep/x.yml', 'noext', 'p.json?v=1', 'sub/root.json', 'models/defs.json', 'def.json', 'sub/',
         'get?doc=/a/b.json', 'defs.json/', 'docs;v=1/a.json']


def spell(rng, frm, to, fragment, local=0.9, portable=False):
    """ write down a reference from one document to a place of another """
    if frm == to and fragment and rng.random() < local:
        return fragment
    scheme, rest = to.split('://')
    host, _, path = rest.partition('/')
    path = '/' + path
    same_host = frm.split('://')[1].split('/')[0] == host and frm.split('://')[0] == scheme
    forms = [to]
    if portable and to.endswith('/'):
        pass
    elif same_host:
        base = '/' + frm.split('://')[1].partition('/')[2]
        p, q, query = path.partition('?')
        folder, _, name = p.rpartition('/')
        folder = posixpath.relpath(folder or '/', posixpath.dirname(base.partition('?')[0]))
        rel = (name if folder == '.' and name else folder + '/' + name) + q + query
        forms += [rel, rel, rel, './' + rel, 'zz/../' + rel]
        if not portable:
            forms += [path, '//' + host + path]
    return rng.choice(forms) + fragment


# beside a reference
BESIDE = [
    lambda: {'description': 'beside'}, lambda: {'type': 'object'}, lambda: {'x-beside': {'$ref': 'nowhere'}},
    lambda: {'type': 'object', 'properties': {}}, lambda: {'required': ['a'], 'properties': {'a': {'type': 'string', 'description': 'beside'}}},
    lambda: {'type': 'array', 'items': {'type': 'string', 'description': 'beside'}}, lambda: {'type': 'file'}, lambda: {'default': None},
    lambda: {'allOf': [{'type': 'object', 'description': 'beside'}], 'discriminator': 'kind'}]
BLOCKS = ('get', 'put', 'post', 'delete', 'options', 'head', 'patch', 'trace', 'parameters', 'servers', 'summary')


def alone(raw):
    """ a reference and nothing else that counts """
    return isinstance(raw, dict) and isinstance(raw.get('$ref'), str) and not any(k in raw for k in BLOCKS)


DECLARED = {
    '2.0': ('definitions', 'parameters', 'responses', 'securityDefinitions', 'security', 'tags'),
    '3.0.0': ('schemas', 'responses', 'parameters', 'examples', 'requestBodies', 'headers', 'securitySchemes', 'links', 'callbacks'),
}


def make(rng, version, ndocs=None, size=None, refs=None, targets='any', styles=('full', 'lib', 'lib', 'single'),
         density=None, chains=0.2, prepare=None, kinds=None, local=0.9, gencls=MarkedGen, hosts=HOSTS,
         names=NAMES, root_names=('root.json', 'swagger.json', 'index.yaml', '', 'docs?v=2.0', 'v1.json/'), portable=False, siblings=0.0, **genkw):
    """ -> Graph

    targets: 'any' location of the right kind, or 'home' for those in the usual maps only, or 'inner' for any location
        of the root and the usual maps of others
    siblings: how many of the referring schemas of 2.0 hold more than the reference
    portable: no reference holds the host and the folder without its scheme
    prepare(raw, style): a last word on each document before references get decided
    """
    spec = g.SPECS[version]
    kinds = kinds or REFERABLE[version]
    counter, holes = [0], []
    ndocs = rng.choice([1, 2, 2, 3, 4]) if ndocs is None else ndocs
    base = rng.choice(hosts)
    names = rng.sample(names, ndocs)
    from checks.c08_urls import rfc_resolve
    urls = [base + rng.choice(root_names)]
    for n in names[1:]:
        u = rfc_resolve(n, base if rng.random() < 0.9 else rng.choice(hosts))
        if u not in urls:
            urls.append(u)
    size = size or rng.choice([6, 15, 30])
    refs = rng.choice([0.2, 0.4, 0.6]) if refs is None else refs
    density = density or rng.choice([0.1, 0.2, 0.3])

    def gen(n):
        return gencls(rng, version, counter, holes, size=n, density=density, refs=refs, **genkw)

    docs, roots = {}, {}            # url -> raw, url -> [(tokens, kind)]
    for i, url in enumerate(urls):
        style = 'full' if i == 0 else rng.choice(styles)
        names_ = []

        def name():
            n = word(rng)
            return names_[-1] + rng.choice(['x', '1', '~', '/']) if names_ and rng.random() < 0.2 else n

        if style == 'full':
            raw = gen(size).doc()
            for kind in kinds:
                if kind != 'Schema' and rng.random() < 0.5:
                    continue
                home = raw
                for t in HOME[version][kind]:
                    home = home.setdefault(t, {})
                for _ in range(rng.randint(1, 3)):
                    n = name()
                    if kind == 'PathItem':
                        n = '/' + n
                    names_.append(n)
                    one = gen(4)
                    home[n] = one.obj(kind, 3) if rng.random() > 0.15 or version == '2.0' or kind == 'PathItem' \
                        else one.hole(kind)
            if rng.random() < 0.12:
                # hardly anything is declared for the whole document
                homes = raw if version == '2.0' else raw.get('components', {})
                declared = [k for k in DECLARED[version] if k in homes]
                for k in rng.sample(declared, max(0, len(declared) - rng.randint(0, 1))):
                    del homes[k]
            docs[url], roots[url] = raw, [((), ('o', spec.root))]
        elif style == 'lib':
            raw, at = {}, []
            groups = [tuple(word(rng) + 'g' for _ in range(rng.randint(0, 2))) for _ in range(2)]
            for _ in range(rng.randint(2, 5)):
                kind = rng.choice(kinds + ('Schema',))
                group = rng.choice(groups)
                home = raw
                for t in group:
                    home = home.setdefault(t, {})
                n = name() + '_'
                if n in home or n in ('swagger', 'openapi', 'swaggerVersion'):
                    continue
                names_.append(n)
                one = gen(4)
                home[n] = one.obj(kind, 3) if rng.random() > 0.2 or kind == 'PathItem' else one.hole(kind)
                at.append((group + (n,), ('o', 'PathItem') if kind == 'PathItem' else
                           ('o', 'Schema') if kind == 'Schema' and version == '2.0' else ('r', kind)))
            docs[url], roots[url] = raw, at
        else:
            kind = rng.choice(kinds)
            docs[url] = gen(6).obj(kind, 3)
            roots[url] = [((), ('o', kind))]
        if prepare:
            prepare(docs[url], style)

    # lay out: locations by kind
    plain, alone = {}, {}
    todo = []
    for url in docs:
        for base_tokens, kind in roots[url]:
            node = docs[url]
            for t in base_tokens:
                node = node[t]
            for tokens, k, raw in walk_holes(spec, kind, node):
                loc = (url, base_tokens + tokens)
                name = k[1]
                if isinstance(raw.get('$ref'), Hole):
                    todo.append((loc, raw, raw['$ref'].kind))
                if name not in kinds:
                    continue
                at_home = kind == ('o', spec.root) and len(loc[1]) == len(HOME[version][name]) + 1 and loc[1][:-1] == HOME[version][name]
                if targets == 'inner' and url == urls[0]:
                    pass
                elif targets in ('home', 'inner') and not (at_home or len(base_tokens + tokens) == len(base_tokens) and
                                              kind != ('o', spec.root)):
                    continue
                entry = (loc, at_home or tokens == (), raw, raw['$ref'].tag if isinstance(
                    raw.get('$ref'), Hole) else None)
                if isinstance(raw.get('$ref'), Hole) and len(raw) == 1:
                    alone.setdefault(raw['$ref'].kind, []).append(entry)
                else:
                    plain.setdefault(name, []).append(entry)
    rng.shuffle(todo)
    decided = set()
    drop = []
    for loc, raw, kind in todo:
        pool = plain.get(kind, [])
        tag = raw['$ref'].tag
        if tag:
            pool = [e for e in pool if tag_of(e[2]) == tag]
        chain = [e for e in alone.get(kind, []) if e[0] in decided and (not tag or e[3] == tag)]
        if chain and rng.random() < chains:
            pool = chain
        if not pool:
            drop.append((loc, raw, kind, tag))
            continue
        best = [e for e in pool if e[1]]
        to = rng.choice(best if best and rng.random() < 0.7 else pool)[0]
        raw['$ref'] = spell(rng, loc[0], to[0], g.pointer(to[1]) if to[1] else '', local, portable)
        if raw['$ref'] == '':
            raw['$ref'] = '#'
        decided.add(loc)
        if version == '2.0' and kind == 'Schema' and rng.random() < siblings:
            # what is beside a reference is to be ignored
            raw.update(rng.choice(BESIDE)())
    for loc, raw, kind, tag in drop:
        # nothing to refer to: an object instead
        del raw['$ref']
        if kind != 'PathItem':
            leaf = gencls(rng, version, counter, holes, size=0, density=0.0, refs=0, **genkw)
            raw.update(leaf.tagged(tag, 99) if tag else leaf.obj(kind, 99) if kind != 'Callback' else leaf.obj('Callback', 99))
    ret = Graph(version, docs, urls[0])
    ret.roots = roots
    return ret


def lengthen(rng, gr, longest=40):
    """ put a long chain of references between one of them and what it names """
    found = []
    for url in gr.docs:
        for base, kind in gr.roots[url]:
            for at, name, to in gr.refs_below((url, base), kind):
                if len(gr.at(at)) > 1:
                    continue
                if name == gr.spec.refname:
                    name = referenced_name(raw_kind(gr.spec, kind, at[1][len(base):], gr.at((url, base))))
                found.append((at, name, to))
    if not found:
        return False
    at, name, to = rng.choice(found)
    host = gr.root[:gr.root.rindex('/') + 1]
    urls = [host + 'chain%d.json' % i for i in range(rng.choice([1, 1, 2, 3]))]
    n = rng.choice([5, 9, 17, longest])
    hops = [(urls[i % len(urls)] if rng.random() < 0.5 else urls[0], ('hop%d' % i,)) for i in range(n)]
    for u in urls:
        gr.docs[u], gr.roots[u] = {}, []
    for (u, tokens), nxt in zip(hops, hops[1:] + [to]):
        gr.docs[u][tokens[0]] = {'$ref': spell(rng, u, nxt[0], pointer_of(nxt)) or '#'}
        gr.roots[u].append((tokens, gr.slot_kind(name)))
    for u in urls:
        if not gr.docs[u]:
            del gr.docs[u], gr.roots[u]
    gr.at(at)['$ref'] = spell(rng, at[0], hops[0][0], pointer_of(hops[0]))
    return True


def pointer_of(loc):
    return g.pointer(loc[1]) if loc[1] else ''


def walk_holes(spec, kind, raw, tokens=()):
    """ objects at and below, a hole counts as the kind it stands for """
    if isinstance(raw, dict) and isinstance(raw.get('$ref'), Hole) and len(raw) == 1:
        yield tokens, ('o', raw['$ref'].kind), raw
        return
    if kind[0] == 'o' and kind[1] == 'Callback' or kind[0] == 'r' and kind[1] == 'Callback':
        yield tokens, ('o', 'Callback'), raw
    kind = g.resolve_kind(spec, kind, raw)
    if kind[0] == 'l':
        subs = [(str(i), x, kind[1]) for i, x in enumerate(raw)]
    elif kind[0] == 'm':
        subs = [(k, v, kind[1]) for k, v in raw.items()]
    elif kind[0] == 'o':
        yield tokens, kind, raw
        subs = [(k, v, sub if sub[0] == 'p' else spec.objects[kind[1]][k]) for k, sub, v in
                g.fields(spec, kind[1], raw)]
    else:
        return
    for k, v, sub in subs:
        if sub[0] == 'p':
            continue
        for n in walk_holes(spec, sub, v, tokens + (k,)):
            yield n


def child(obj, kind, key):
    """ the object below another one, by plain attribute or index access """
    if kind[0] == 'l':
        return obj[int(key)]
    if kind[0] == 'm':
        return obj[key]
    return getattr(obj, key)


def walk_obj(spec, kind, raw, obj, tokens=()):
    """ objects at and below, side by side with what they were loaded from """
    kind = g.resolve_kind(spec, kind, raw)
    if kind[0] == 'p':
        return
    yield tokens, kind, raw, obj
    if kind[0] == 'l':
        if kind[1][0] == 'p' or kind[1] == ('m', ('l', g.S)):
            return
        subs = [(str(i), x, kind[1]) for i, x in enumerate(raw)]
    elif kind[0] == 'm':
        subs = [(k, v, kind[1]) for k, v in raw.items()]
    else:
        subs = [(k, v, spec.objects[kind[1]][k]) for k, sub, v in g.fields(spec, kind[1], raw) if sub[0] != 'p']
    for k, v, sub in subs:
        if sub[0] == 'p' or g.resolve_kind(spec, sub, v)[0] == 'p':
            continue
        for n in walk_obj(spec, sub, v, child(obj, kind, k), tokens + (k,)):
            yield n


def live(spec, kind, obj, tokens=()):
    """ objects at and below, by attributes only """
    if kind[0] == 'b':
        if isinstance(obj, bool):
            return
        kind = kind[1]
    if kind[0] == 'r':
        kind = ('o', spec.refname if _class(obj) == spec.refname else kind[1])
    if kind[0] == 'o':
        kind = g.CONTAINER_OBJECTS.get((spec.version, kind[1]), kind)
    yield tokens, kind, obj
    if kind[0] == 'l':
        subs = [(str(i), x, kind[1]) for i, x in enumerate(obj)]
    elif kind[0] == 'm':
        subs = [(k, obj[k], kind[1]) for k in obj.keys()]
    else:
        subs = []
        for k, sub in spec.objects[kind[1]].items():
            if sub[0] != 'p':
                x = getattr(obj, k, None)
                if x is not None:
                    subs.append((k, x, sub))
    for k, x, sub in subs:
        if sub[0] == 'p' or sub == ('l', g.S) or sub == ('m', ('l', g.S)):
            continue
        for n in live(spec, sub, x, tokens + (k,)):
            yield n


def explore(graph, root_obj, start=None, kind=None):
    """ everything reachable from the root, document side by side with objects

    yields ('node', location, kind, raw, obj) and ('ref', location, kind name, obj, target location, target obj)
    """
    start = start or (graph.root, ())
    queue = [(start, kind or ('o', graph.spec.root), root_obj)]
    seen = set()
    while queue:
        loc, kind, obj = queue.pop(0)
        for tokens, k, raw, o in walk_obj(graph.spec, kind, graph.at(loc), obj):
            here = (loc[0], loc[1] + tokens)
            yield 'node', here, k, raw, o
            if k[0] == 'o' and isinstance(raw.get('$ref'), str):
                to = graph.target(here[0], raw['$ref'])
                want = k[1]
                if want == graph.spec.refname:
                    want = referenced_name(raw_kind(graph.spec, kind, tokens, graph.at(loc)))
                got = o.get_attrs('migration').ref_obj
                yield 'ref', here, want, o, to, got
                if got is not None and to not in seen:
                    seen.add(to)
                    queue.append((to, graph.slot_kind(want), got))
