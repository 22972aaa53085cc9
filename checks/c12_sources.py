"""C12: the same document gives the same API from any source and format."""
import codecs
import copy
import json
import locale
import os
import shutil
import tempfile
import threading
import warnings
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer
from urllib.parse import unquote, quote
import yaml
from pyopenapi import utils
from pyopenapi.migration.getter import DictGetter, LocalGetter, SimpleGetter
from pyopenapi.migration.resolve import Resolver
from vlib import graph, grammar as g
from vlib.graph import live
from vlib.swagger import variant
from vlib.drive import World, App, attrs, underlying
from vlib.gen import DocGen, word
from vlib.view import view

ID = 'C12'
TITLE = 'sources'
BUDGET = {'quick': 1600, 'thorough': 30000}
NEED = {'memory': 1200, 'files': 500, 'http': 500, 'yaml': 2000, 'int_codes': 300, 'folders': 80, 'no_extension': 50,
        'relative': 50, 'hooked': 200, 'odd_paths': 300, 'migrated': 70, 'listings': 100, 'rejected': 1500, 'no_text': 100,
        'yaml_alias': 50, 'led': 250, 'hostile': 700, 'located': 1200, 'located_query': 100, 'located_folder': 400, 'located_bare': 200,
        'located_named': 400, 'located_traps': 100, 'not_located': 100, 'iterated': 200, 'ascii_locale': 200}
RULE = ('random graphs of documents (2.0, 3.0.0, 1.2 listings) given as dictionaries, JSON and YAML texts and bytes, files '
        'in scratch folders with odd names, and loopback HTTP; what can be seen of the API (attributes, resolved '
        'references, after preparing and after migrating) compared with the in-memory dictionary.')

SRC = 'http://source/api/'
ROOTS = ['root.json', 'swagger.json', 'index.yaml', 'index', 'resource_list.json', 'x.yml', '']
NAMES = ['defs.json', 'c+d.json', 'defs.yaml', 'sub/defs.json', '../common.json', 'Defs.json', 'defs.json.json', 'a%20b.json',
         'sub/deep/x.yml', 'noext', 'sub/root.json', 'def.json', '%C3%BC/%E6%BC%A2.yaml', 'v1.yaml/swagger.json',
         'sub/swagger.yaml', 'a%23b.json']
FOLDERS = ['plain', 'a b', 'ü', '漢 字', '100%', 'a#b', 'v1.json', 'v1.yaml', 'a%20b', 'q?x', 'UP', 'c+d', 'c++']
pages = {}
server = None
scratch = None


class Handler(BaseHTTPRequestHandler):
    def do_GET(self):
        body = pages.get(self.path)
        if body is None:
            self.send_error(404)
            return
        self.send_response(200)
        self.send_header('Content-Length', str(len(body)))
        self.end_headers()
        self.wfile.write(body)

    def log_message(self, *args):
        pass


def setup_worker(mon, seed, tier):
    global server, scratch
    for k in list(os.environ):
        if k.lower().endswith('_proxy'):
            del os.environ[k]
    server = ThreadingHTTPServer(('127.0.0.1', 0), Handler)
    server.daemon_threads = True
    threading.Thread(target=server.serve_forever, daemon=True).start()
    scratch = tempfile.mkdtemp(prefix='c12-')


def teardown_worker():
    server.shutdown()
    server.server_close()
    shutil.rmtree(scratch, ignore_errors=True)


def int_codes(gr, docs):
    """ response codes as YAML users write them """
    n = 0
    for url in docs:
        for base, kind in gr.roots[url]:
            node = docs[url]
            for t in base:
                node = node[t]
            for tokens, k, raw in list(g.walk(gr.spec, kind, node)):
                if k == ('o', 'Operation') and raw.get('responses'):
                    new = {int(c) if c.isdecimal() and c == str(int(c)) else c: r for c, r in raw['responses'].items()}
                    n += sum(isinstance(c, int) for c in new)
                    raw['responses'] = new
    return n


def as_text(mon, rng, docs, url, fmt):
    doc = docs[url]
    if fmt == 'json':
        text = json.dumps(doc, ensure_ascii=rng.random() < 0.5, indent=rng.choice([None, 1, 4, '\t']))
        if rng.random() < 0.2:
            text = text.replace('/', '\\/')
        if rng.random() < 0.2:
            mon.count('led')
            text = rng.choice(['\n', ' ', '\t', '\ufeff', '\r\n\r\n', '\ufeff\n', '  \t']) + text
        return text + rng.choice(['', '\n', ' \r\n'])
    mon.count('yaml')
    alias = rng.random() < 0.3
    if not alias:
        class Dumper(yaml.SafeDumper):
            def ignore_aliases(self, data):
                return True
    else:
        Dumper = yaml.SafeDumper
        doc = share(doc, {}, mon)
    uni = rng.random() < 0.5
    text = yaml.dump(doc, Dumper=Dumper, default_flow_style=rng.choice([None, False]), allow_unicode=uni, sort_keys=False)
    if text.startswith('{'):
        # what starts with a brace is taken for JSON
        text = yaml.dump(doc, Dumper=Dumper, default_flow_style=False, allow_unicode=uni, sort_keys=False)
    return text


def share(node, seen, mon):
    """ equal parts become one and the same, they are written as anchors and aliases """
    if isinstance(node, dict):
        node = {k: share(v, seen, mon) for k, v in node.items()}
    elif isinstance(node, list):
        node = [share(v, seen, mon) for v in node]
    else:
        return node
    if not node:
        return node
    key = repr(node)
    if key in seen:
        mon.count('yaml_alias')
    return seen.setdefault(key, node)


def rebase(node, base):
    if isinstance(node, dict):
        return {k: rebase(v, base) for k, v in node.items()}
    if isinstance(node, list):
        return [rebase(v, base) for v in node]
    if isinstance(node, str) and node.startswith(SRC[:-4]):
        return base + node[len(SRC) - 4:]
    return node


def back(node, base):
    """ the other way round, in what is seen """
    if isinstance(node, dict):
        return {k: back(v, base) for k, v in node.items()}
    if isinstance(node, list):
        return [back(v, base) for v in node]
    if isinstance(node, str) and node.startswith(base):
        return SRC[:-4] + node[len(base):]
    return node


def observe(spec, root, base, paths=True):
    """ everything that can be seen of an app, as plain data """
    out, index = [], {id(underlying(root)): 0}
    queue = [(('o', spec.root), root)]
    names = [spec.root]
    while queue:
        kind, obj = queue.pop(0)
        edges = []
        for tokens, k, o in sorted(live(spec, kind, obj), key=lambda n: n[0]):
            if paths and hasattr(o, 'get_path'):
                edges.append([list(tokens), 'path', back(o.get_path(), base)])
            if k[0] != 'o':
                continue
            if k[1] not in ('Reference', 'PathItem', 'Schema') or getattr(o, 'ref', None) is None:
                continue
            a = attrs(o)
            to = a.ref_obj
            if to is None:
                edges.append([list(tokens), None])
                continue
            key = id(underlying(to))
            if key not in index:
                index[key] = len(index)
                name = to.__class__.__name__
                names.append(name)
                if name not in spec.objects and hasattr(to, 'keys'):
                    name = 'Callback'
                queue.append((('o', name), to))
            edges.append([list(tokens), index[key]])
            if k[1] == 'PathItem':
                edges.append([list(tokens), 'final', back(view(spec, k, a.final_obj), base)])
        out.append([back(view(spec, kind, obj), base), edges])
    return out


def see(root_url, resolver, version, target, base, getter=None):
    app = App(root_url, resolver=resolver)
    app.raw = app.load_obj(root_url, getter=getter)
    app.root = app.migrate_obj(app.raw, root_url, target)
    return observe(g.SPECS[target], app.root, base)


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w', encoding='utf-8') as fh:
        fh.write(text)


def disk_name(url):
    """ where the document of a url (below the base) is kept """
    name = unquote(url)
    if name.endswith('/'):
        return name + 'swagger.json'
    return name if os.path.splitext(name)[1] else name + '.json'


def by_graph(mon, rng, index):
    version = rng.choice(['2.0', '3.0.0'])
    targets = [version]
    kw = dict(hosts=[SRC], names=NAMES, root_names=ROOTS, portable=True)
    if version == '2.0' and rng.random() < 0.4:
        gr = graph.make(rng, '2.0', targets='home', styles=('full', 'lib', 'single'),
                        gencls=variant(payload=rng.choice([(), ('body',), ('form',)])), **kw)
        targets = ['2.0', '3.0.0']
    else:
        gr = graph.make(rng, version, **kw)
    mon.context = {'version': version, 'root': gr.root, 'docs': gr.docs}
    expected = {}
    for t in targets:
        expected[t] = see(gr.root, World(gr.docs).resolver(), version, t, SRC[:-4])
    if len(targets) > 1:
        mon.count('migrated')
    coded = copy.deepcopy(gr.docs)
    codes = int_codes(gr, coded)

    def texts(base):
        out = {}
        for url in gr.docs:
            fmt = rng.choice(['json', 'yaml'])
            ints = fmt == 'yaml' and rng.random() < 0.5
            if ints and codes:
                mon.count('int_codes')
            out[url] = as_text(mon, rng, rebase(coded if ints else gr.docs, base) if base else (
                coded if ints else gr.docs), url, fmt)
        return out

    def compare(how, *args, **kw_):
        for t in targets:
            mon.context['source'] = how
            got = see(args[0], args[1](), version, t, *args[2:], **kw_)
            mon.equal(got, expected[t], 'not the same API: %s' % how, target=t)

    # in memory
    world = World({u: t for u, t in texts(None).items()})
    compare('text', gr.root, world.resolver, SRC[:-4])
    world2 = World({u: t.encode('utf-8') for u, t in texts(None).items()})
    compare('bytes', gr.root, world2.resolver, SRC[:-4])
    mon.count('memory', 2)
    if codes:
        compare('dictionaries with numbers', gr.root, World(copy.deepcopy(coded)).resolver, SRC[:-4])
        mon.count('coded_objects')
    if len(gr.docs) == 1:
        compare('dict getter', gr.root, lambda: Resolver(default_getter=DictGetter([gr.root], copy.deepcopy(gr.docs))),
                SRC[:-4])
        for t in targets[:1]:
            got = see(gr.root, None, version, t, SRC[:-4], getter=DictGetter([gr.root], copy.deepcopy(gr.docs)))
            mon.equal(got, expected[t], 'not the same API: getter given with the request')
        mon.count('memory', 2)
    # files
    top = tempfile.mkdtemp(dir=scratch)
    try:
        by_files(mon, rng, gr, top, texts, compare)
    finally:
        os.chdir('/')
        shutil.rmtree(top, ignore_errors=True)
    # http
    prefix = rng.choice(['/', '/a%20b/', '/x/y/'])
    base = 'http://127.0.0.1:%d%s' % (server.server_port, prefix)
    pages.clear()
    hooked = rng.random() < 0.4
    for url, text in texts(None if hooked else base).items():
        pages[prefix + url[len(SRC) - 4:]] = text.encode('utf-8')
        # from the folder of the base
    # urls below SRC[:-4] keep their names
    if hooked:
        compare('http through a hook', gr.root,
                lambda: Resolver(url_load_hook=lambda u: base + u[len(SRC) - 4:]), SRC[:-4])
        mon.count('hooked')
    else:
        compare('http', base + gr.root[len(SRC) - 4:], Resolver, base)
    mon.count('http')
    mon.shape([gr.docs])
    if len(gr.docs) > 1:
        mon.sample(mon.context)


def absolute(docs):
    """ is there a reference with the base in it """
    return SRC in json.dumps(docs)


def by_files(mon, rng, gr, top, texts, compare):
    folder = os.path.join(top, *rng.sample(FOLDERS, rng.randint(1, 2)))
    if os.path.basename(folder) != 'plain':
        mon.count('odd_paths')
    base = 'file://' + quote(folder) + '/'
    way = rng.choice(['url', 'url', 'path', 'relative', 'hook', 'getter'])
    own = absolute(gr.docs)
    if own and (way == 'getter' or gr.root.endswith('/')):
        way = 'url'
    hooked = way == 'hook'
    for url, text in texts(None if hooked else base).items():
        write(os.path.join(folder, disk_name(url[len(SRC) - 4:])), text)
    name = gr.root[len(SRC) - 4:]
    mon.count('files')
    if gr.root.endswith('/'):
        mon.count('folders')
    elif '.' not in name:
        mon.count('no_extension')
    if hooked:
        mon.count('hooked')
        compare('files through a hook', gr.root, lambda: Resolver(url_load_hook=lambda u: base + u[len(SRC) - 4:]),
                SRC[:-4])
        return
    url = base + name
    if way == 'path':
        if not name.endswith('/') or len(gr.docs) == 1:
            url = utils.normalize_url(os.path.join(folder, unquote(name)))
    elif way == 'relative':
        if not name.endswith('/') or len(gr.docs) == 1:
            start = rng.choice([top, folder, os.path.join(folder, 'api')])
            os.chdir(start)
            url = utils.normalize_url(os.path.relpath(os.path.join(folder, unquote(name)), start))
            mon.count('relative')
    elif way == 'getter' and len(gr.docs) == 1:
        path = os.path.join(folder, unquote(name))
        compare('file getter', url, lambda: Resolver(default_getter=None), base, getter=None)
        for arg in (path, 'file://' + quote(path)):
            got = see(gr.root, None, gr.version, gr.version, SRC[:-4], getter=LocalGetter(arg))
            mon.count('files')
            mon.equal(rebase(got, base), rebase(see(gr.root, World(gr.docs).resolver(), gr.version, gr.version, SRC[:-4]),
                                                base), 'not the same API: local getter', path=arg)
        return
    if not name.endswith('/'):
        mon.equal(url, base + name, 'the url of a file')
    if url.endswith('/api') and name.endswith('/'):
        # the folder itself, everything is local
        for t in (gr.version,):
            got = see(url, Resolver(), gr.version, t, base)
            want = see(gr.root, World(gr.docs).resolver(), gr.version, t, SRC[:-4])
            slash = SRC + '#'
            mon.equal(fold(got), fold(want), 'not the same API: a folder')
        return
    compare('files', url, Resolver, base)


def fold(node):
    if isinstance(node, dict):
        return {k: fold(v) for k, v in node.items()}
    if isinstance(node, list):
        return [fold(v) for v in node]
    if isinstance(node, str) and node.startswith(SRC):
        return SRC[:-1] + node[len(SRC):]
    return node


def by_listing(mon, rng):
    """ 1.2 """
    names = []
    for i in range(rng.randint(1, 3)):
        names.append(rng.choice(['pet', 'user', 'a', 'store']) + str(i))
    docs = {'': {'swaggerVersion': '1.2', 'apis': [{'path': '/' + n} for n in names], 'apiVersion': '1',
                 'info': {'title': 'x', 'description': 'ü'}}}
    for n in names:
        doc = DocGen(rng, '1.2', size=12).obj('ApiDeclaration', 0)
        doc['swaggerVersion'] = '1.2'
        docs[n] = doc
    root = rng.choice(['resource_list.json', 'docs.json', 'api.yaml'])
    mon.context = {'root': root, 'docs': docs}

    def seen(url, resolver=None, getter=None):
        app = App(url, resolver=resolver)
        app.raw = app.load_obj(url, getter=getter)
        return [view(g.SPECS['1.2'], ('o', 'ResourceListing'), app.raw)] + [
            view(g.SPECS['1.2'], ('o', 'ApiDeclaration'), app.raw.cached_apis[n]) for n in names]

    def texts():
        return {n: as_text(mon, rng, docs, n, rng.choice(['json', 'yaml'])) for n in docs}

    base = 'http://h/x/'
    expected = seen(base + root, World({base + (n or root): d for n, d in docs.items()}).resolver())
    for encode in (str, lambda t: t.encode('utf-8')):
        got = seen(base + root, World({base + (n or root): encode(t) for n, t in texts().items()}).resolver())
        mon.equal(got, expected, 'not the same API: text')
        mon.count('memory')
    order = [base + (n or root) for n in docs]
    got = seen(base + root, getter=DictGetter(list(order), {base + (n or root): copy.deepcopy(d)
                                                            for n, d in docs.items()}))
    mon.equal(got, expected, 'not the same API: getter of dictionaries')
    top = tempfile.mkdtemp(dir=scratch)
    try:
        folder = os.path.join(top, rng.choice(['plain', 'a b', 'ü', '100%', 'v1']))
        for n, t in texts().items():
            write(os.path.join(folder, n + '.json' if n else root), t)
        mon.count('files')
        got = seen(utils.normalize_url(os.path.join(folder, root)))
        mon.equal(got, expected, 'not the same API: files')
        if root == 'resource_list.json':
            got = seen(utils.normalize_url(folder))
            mon.equal(got, expected, 'not the same API: a folder')
            mon.count('folders')
    finally:
        shutil.rmtree(top, ignore_errors=True)
    pages.clear()
    for n, t in texts().items():
        pages['/y/' + (n or root)] = t.encode('utf-8')
    got = seen('http://127.0.0.1:%d/y/%s' % (server.server_port, root))
    mon.equal(got, expected, 'not the same API: http')
    mon.count('http')
    mon.count('listings')
    mon.shape([docs])


BAD = ['', ' ', 'hello', '[]', '[1]', '12', 'null', '"x"', '{', '{"swagger": "2.0"', "{'swagger': '2.0'}x", '{}', '{"a": 1}',
       'a: [', '- a\n- b', 'a: b: c', '{"swagger": "2.1"}', '{"openapi": "3.1.0"}', '{"swaggerVersion": "1.1"}',
       '{"swagger": "1.2"}', '{"openapi": "2.0.0"}', '<html></html>', '\t{', '{"swagger": null}', '%', '@x', '&a', '{"swagger": "2.0"}}']
BAD_OBJECTS = [None, 12, [], [{'swagger': '2.0'}], {}, {'a': 1}, True, b'\xff\xfe\x00', b'\xff{}', 1.5, object, {'swagger': 2},
               {'swagger': ['2.0']}, {'openapi': '3'}]


def by_garbage(mon, rng):
    what = rng.choice([rng.choice(BAD), rng.choice(BAD).encode('utf-8'), rng.choice(BAD_OBJECTS)])
    doc = DocGen(rng, '2.0', size=4).doc()
    if rng.random() < 0.4:
        # a document cut short
        text = json.dumps(doc)
        what = text[:rng.randrange(len(text))]
    elif rng.random() < 0.4:
        # a fine document but for some bytes which are no text
        doc['info']['description'] = 'a\u2603b'
        text = rng.choice([lambda: json.dumps(doc, ensure_ascii=False),
                           lambda: yaml.dump(doc, Dumper=yaml.SafeDumper, allow_unicode=True)])()
        what = text.encode('utf-8').replace('\u2603'.encode('utf-8'),
                                            rng.choice([b'\xff', b'\xfc', b'\xe2\x98', b'\x83', b'\xed\xa0\x80', b'\xc0\xaf']))
        mon.count('no_text')
    mon.context = {'content': repr(what)}
    way = rng.choice(['memory', 'memory', 'file', 'http'])
    if way != 'memory' and not isinstance(what, (str, bytes)):
        way = 'memory'
    if way == 'http':
        pages.clear()
        pages['/bad.json'] = what if isinstance(what, bytes) else what.encode('utf-8')
        url, resolver = 'http://127.0.0.1:%d/bad.json' % server.server_port, Resolver()
    elif way == 'file':
        path = os.path.join(scratch, 'bad.json')
        with open(path, 'wb') as fh:
            fh.write(what if isinstance(what, bytes) else what.encode('utf-8'))
        url, resolver = utils.normalize_url(path), Resolver()
    else:
        url = 'http://h/bad.json'
        world = World({})
        world.fetch = lambda u: what
        resolver = world.resolver()
    app = App(url, resolver=resolver)
    for _ in range(2):
        try:
            got = app.load_obj(url)
        except Exception:  # pylint: disable=broad-except
            mon.count('rejected')
            mon.count('oracle_decisions')
        else:
            mon.fail('not a document, but loaded', got=repr(got))
    mon.shape([repr(what)])


HOSTILE = ['!!python/name:os.system', '!!python/name:os.sep', '!!python/module:os', '!!python/tuple [1, 2]', '!!python/complex 1+2j',
           '!!python/object/apply:os.mkdir ["%(there)s"]', '!!python/object/apply:os.mkdir {args: ["%(there)s"]}',
           '!!python/object/new:os.mkdir ["%(there)s"]', '!!python/object:vlib.core.Monitor {}', '!!python/object/apply:dict []',
           '!!python/object/new:set [[1]]', '!!python/object/apply:builtins.eval ["__import__(\'os\').mkdir(\'%(there)s\')"]',
           '!!python/object/apply:open ["%(there)s", "w"]', '!!python/object/new:vlib.core.Monitor {}']


def by_hostile(mon, rng):
    """ documents are data """
    version = rng.choice(['2.0', '3.0.0'])
    doc = DocGen(rng, version, size=rng.choice([4, 12])).doc()
    there = os.path.join(scratch, 'made%d' % rng.randrange(10 ** 9))
    evil = rng.choice(HOSTILE) % {'there': there}
    # a scalar of the document is replaced
    mark = 'MARK%d' % rng.randrange(10 ** 9)
    spot = doc
    while True:
        subs = [k for k, v in (spot.items() if isinstance(spot, dict) else enumerate(spot)) if isinstance(v, (dict, list)) and v]
        if not subs or rng.random() < 0.3:
            break
        spot = spot[rng.choice(subs)]
    if isinstance(spot, list):
        spot.append(mark)
    else:
        spot[rng.choice(['x-evil', 'x-a', 'description'])] = mark
    text = yaml.dump(doc, Dumper=yaml.SafeDumper, default_flow_style=False, sort_keys=False)
    if text.count(mark) != 1:
        return
    text = text.replace(mark, evil)
    if rng.random() < 0.1:
        text = evil
    mon.context = {'text': text}
    far = rng.random() < 0.3
    way = rng.choice(['memory', 'bytes', 'file', 'http'])
    if far:
        # reached by a reference
        url = 'http://h/good.json'
        good = {'swagger': '2.0', 'info': {'title': 'a', 'version': '1'}, 'paths': {'/a': {'$ref': 'bad.yaml#/a'}}}
        world = World({})
        world.fetch = lambda u: good if 'good' in u else text if way != 'bytes' else text.encode('utf-8')
        resolver = world.resolver()
    elif way == 'http':
        pages.clear()
        pages['/bad.yaml'] = text.encode('utf-8')
        url, resolver = 'http://127.0.0.1:%d/bad.yaml' % server.server_port, Resolver()
    elif way == 'file':
        path = os.path.join(scratch, 'bad.yaml')
        with open(path, 'wb') as fh:
            fh.write(text.encode('utf-8'))
        url, resolver = utils.normalize_url(path), Resolver()
    else:
        url = 'http://h/bad.yaml'
        world = World({})
        world.fetch = lambda u: text.encode('utf-8') if way == 'bytes' else text
        resolver = world.resolver()
    app = App(url, resolver=resolver)
    for _ in range(2):
        try:
            app.migrate_obj(app.load_obj(url), url, version)
        except Exception:  # pylint: disable=broad-except
            mon.count('hostile')
            mon.count('oracle_decisions')
        else:
            mon.fail('a document made objects of python', evil=evil)
        mon.check(not os.path.exists(there), 'a document was executed', evil=evil)
    mon.shape([text])


STEMS = ['api', 'api.v1', 'v1.2', 'a b', 'ü', 'json', 'yaml', 'x.json', 'x.yaml', 'swagger', 'my_swagger', 'UP.JSON', '100%', 'a.b.c', '.hidden',
         'a%20b', 'a#b', 'q?x', 'c+d']
DECOYS = ['other.json', 'swagger.jsn', 'swagger.txt', 'resource_list', 'SWAGGER.JSON.bak', 'json', 'swagger.json~', 'listing.json', 'openapi.json']
FILES = ['resource_list.json', 'swagger.json', 'swagger.yaml', 'swagger.yml']


def by_locating(mon, rng):
    """ which file is meant """
    top = tempfile.mkdtemp(dir=scratch)
    made = {}

    def put(path):
        doc = {'swagger': '2.0', 'info': {'title': word(rng) + str(len(made)), 'version': '1'}, 'paths': {}}
        if rng.random() < 0.2:
            doc['info']['title'] += '漢ü'
        made[path] = doc
        write(path, json.dumps(doc) if rng.random() < 0.5 else yaml.dump(doc, allow_unicode=rng.random() < 0.5))
        return doc

    try:
        folder = os.path.join(top, *rng.sample(FOLDERS, rng.randint(1, 2)))
        os.makedirs(folder)
        for name in rng.sample(DECOYS, rng.randint(0, 4)):
            put(os.path.join(folder, name))
        put(os.path.join(top, 'swagger.json'))
        stem = rng.choice(STEMS)
        trap = rng.choice(FILES + [stem + '.json', stem + '.yaml']) if rng.random() < 0.3 else None
        how = rng.choice(['named', 'named', 'folder', 'folder', 'bare', 'bare', 'missing'])
        want, path = None, os.path.join(folder, stem)
        if how == 'named':
            path += rng.choice(['.json', '.yaml', '.yml'])
            if path in made:
                return
            want = put(path)
            if rng.random() < 0.4 and os.path.basename(path) not in FILES:
                put(os.path.join(folder, rng.choice(FILES)))
        elif how == 'folder':
            path = folder
            want = put(os.path.join(folder, rng.choice(FILES)))
            if rng.random() < 0.3:
                put(os.path.join(folder, 'sub', 'swagger.json'))
        elif os.path.splitext(stem)[1].lower() in ('.json', '.yaml', '.yml') or stem in ('json', 'yaml', 'UP.JSON'):
            return
        elif how == 'bare':
            want = put(path + rng.choice(['.json', '.yaml']))
        else:
            put(path + rng.choice(['.txt', 'x.json', '2.yaml', '.json.bak']))
            if rng.random() < 0.3:
                path = folder + 'x'
            elif rng.random() < 0.3:
                path = os.path.join(folder, 'empty')
                os.makedirs(path)
        if trap and not os.path.exists(os.path.join(folder, trap)):
            # a folder is not a file, whatever its name
            os.makedirs(os.path.join(folder, trap))
            mon.count('located_traps')
        if rng.random() < 0.3 and how != 'folder':
            os.chdir(folder)
        mon.context = {'how': how, 'path': path, 'made': made}
        url = 'file://' + quote(path)
        asked = url
        if rng.random() < 0.3:
            asked += rng.choice(['?v=1', '?a=b/c.json', '?'])
            mon.count('located_query')
        ways = {'getter': lambda: six_next(LocalGetter(path)), 'getter of a url': lambda: six_next(LocalGetter(asked)),
                'resolver': lambda: Resolver().resolve(asked),
                'normalized': lambda: Resolver().resolve(utils.normalize_url(path)),
                'default getter': lambda: Resolver(default_getter=LocalGetter).resolve(url),
                'app': lambda: dict(App(url).load_obj(url).dump(), paths={}),
                'all of a getter': lambda: one_of(mon, LocalGetter(path)),
                'relative': lambda: Resolver().resolve(utils.normalize_url(os.path.relpath(path))),
                'hook': lambda: Resolver(url_load_hook=lambda u: url).resolve('http://h/x.json')}
        if how == 'folder':
            ways['slash'] = lambda: Resolver().resolve(url + '/')
        for way in rng.sample(sorted(ways), 4):
            with warnings.catch_warnings(record=True) as seen:
                warnings.simplefilter('always', ResourceWarning)
                try:
                    got = ways[way]()
                except Exception as e:  # pylint: disable=broad-except
                    if want is not None:
                        mon.fail('a file was not found', way=way, error=repr(e))
                    mon.count('not_located')
                    mon.count('oracle_decisions')
                    continue
            mon.check(not [w for w in seen if issubclass(w.category, ResourceWarning)], 'a file is left open', way=way)
            mon.equal(got, want, 'another file', way=way)
            mon.count('located')
            mon.count('located_' + how)
        mon.shape([how, path, sorted(made)])
    finally:
        os.chdir('/')
        shutil.rmtree(top, ignore_errors=True)


def six_next(getter):
    return next(getter)


def one_of(mon, getter):
    got = list(getter)
    mon.equal(len(got), 1, 'a getter gives more than its document')
    return got[0]


def by_iterating(mon, rng):
    """ getters of several documents """
    docs = [(u, {'a': i}) for i, u in enumerate(rng.sample(['a', 'b', 'http://h/c.json', 'd', 'e f'], rng.randint(1, 5)))]
    want = [d for _, d in docs]
    mon.equal(list(DictGetter([u for u, _ in docs], dict(docs))), want, 'documents of a getter')
    texts = {u: rng.choice([json.dumps, lambda d: json.dumps(d).encode('utf-8'), yaml.dump, lambda d: d])(d) for u, d in docs}

    class Mine(SimpleGetter):
        __simple_getter_callback__ = lambda u: texts[u]
    for u, d in docs:
        mon.equal(list(Mine(u)), [d], 'documents of a getter')
        bad = rng.choice([None, 1, [], object, True, 1.5])
        texts[u] = bad
        try:
            got = next(Mine(u))
        except ValueError:
            mon.count('oracle_decisions')
        else:
            mon.fail('something else than a text or a dictionary', got=repr(got), bad=repr(bad))
        try:
            Mine(bad)
        except Exception:  # pylint: disable=broad-except
            mon.count('oracle_decisions')
        else:
            mon.fail('a getter of something else than a path', bad=repr(bad))
    mon.count('iterated')


def case(mon, rng, index, tier):
    if (index // 8) % 3:
        one(mon, rng, index)
        return
    # whatever files are thought to be encoded in
    was = locale.setlocale(locale.LC_CTYPE)
    locale.setlocale(locale.LC_CTYPE, 'C')
    try:
        if codecs.lookup(locale.getpreferredencoding(False)).name == 'ascii':
            mon.count('ascii_locale')
        one(mon, rng, index)
    finally:
        locale.setlocale(locale.LC_CTYPE, was)


def one(mon, rng, index):
    if index % 8 in (0, 1, 2):
        for _ in range(4):
            by_garbage(mon, rng)
        for _ in range(2):
            by_hostile(mon, rng)
            by_locating(mon, rng)
        by_iterating(mon, rng)
    elif index % 8 == 3:
        by_listing(mon, rng)
    else:
        by_graph(mon, rng, index)
