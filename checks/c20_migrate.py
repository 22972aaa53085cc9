"""C20: a Swagger 2.0 document says the same once it is an OpenAPI 3.0.0 document."""
from pyopenapi import utils
from vlib import graph, grammar as g, model3
from vlib.graph import live
from vlib.swagger import variant
from vlib.drive import World, attrs
from vlib.view import view

ID = 'C20'
TITLE = '2.0 to 3.0'
BUDGET = {'quick': 6000, 'thorough': 120000}
NEED = {'documents': 5000, 'externals': 4000, 'chains': 200, 'external_Parameter': 1000, 'external_PathItem': 500,
        'external_Response': 1000, 'external_Schema': 2000, 'array_header_None': 800, 'array_query_None': 800,
        'array_query_multi': 200, 'array_query_pipes': 200, 'array_query_ssv': 300, 'examples': 4000,
        'op_produces_empty': 1000, 'op_produces_none': 8000, 'op_produces_some': 3000, 'op_schemes': 3000,
        'op_security_empty': 1000, 'op_security': 10000, 'scheme_oauth2_accessCode': 300, 'scheme_oauth2_application': 300,
        'scheme_oauth2_implicit': 300, 'scheme_oauth2_password': 300, 'scheme_basic_None': 500, 'files': 300}
RULE = ('random graphs of 1-4 Swagger 2.0 documents without payload parameters, rich in types, formats, falsy values, '
        'headers, examples, media types, servers, security, and references; the migrated document, and each object '
        'in another document its references lead to, compared with an independently written model of the mapping.')


METHODS = ('get', 'put', 'post', 'delete', 'options', 'head', 'patch')


def crawl(mon, gr, app, model):
    """ compare the root, and whatever its references lead to """
    root = app.root
    judged = set()
    model3.judge(mon, ('o', 'OpenApi'), model.document(), view(g.V3, ('o', 'OpenApi'), root), gr.root,
                 'the migrated document says something else')
    for path, raw in gr.docs[gr.root]['paths'].items():
        cleared(mon, root.paths[path], raw)
    queue = [(gr.root, ('o', 'OpenApi'), root)]
    while queue:
        url, kind, top = queue.pop()
        for tokens, k, obj in live(g.V3, kind, top):
            if k[0] != 'o' or k[1] not in ('Reference', 'PathItem') or getattr(obj, 'ref', None) is None:
                continue
            ref = obj.ref
            full = url + ref if ref.startswith('#') else ref
            at, _, frag = full.partition('#')
            to = attrs(obj).ref_obj
            mon.count('references')
            if to is None:
                mon.fail('a reference of the migrated document leads nowhere', ref=ref, at=[url, list(tokens)])
            if at == gr.root or full in judged:
                continue
            judged.add(full)
            loc = (at, tuple(t.replace('~1', '/').replace('~0', '~') for t in frag.split('/')[1:]))
            raw = gr.at(loc)
            name = to.__class__.__name__
            if name == 'Reference':
                mon.count('chains')
                mon.check('$ref' in raw, 'a reference leads to something else', ref=ref)
                kk = ('r', 'Schema')
                want = model.ref(at, raw['$ref'])
            else:
                kk = ('o', name)
                want = model.external(name, loc)
                if name == 'PathItem':
                    cleared(mon, to, raw)
            mon.count('externals')
            mon.count('external_' + name)
            model3.judge(mon, kk, want, view(g.V3, kk, to), at, 'an object of another document says something else',
                         ref=ref)
            queue.append((at, kk, to))


def cleared(mon, item, raw):
    """ no requirement at all is not the same as not saying what is required """
    for method, op in raw.items():
        if method in METHODS:
            got = getattr(item, method)
            mon.equal(got is not None and got.security is not None, 'security' in op,
                      'the security of an operation is not the one that was declared', method=method, item=raw)
            mon.count('op_security')


def tally(mon, gr):
    """ what was there to convert """
    for url in gr.docs:
        for base, kind in gr.roots[url]:
            for tokens, k, raw in g.walk(gr.spec, kind, gr.at((url, base))):
                if k[0] != 'o' or '$ref' in raw:
                    continue
                name = k[1]
                if name in ('Parameter', 'Header') and raw.get('type') == 'array':
                    mon.count('array_%s_%s' % (raw.get('in', 'header'), raw.get('collectionFormat')))
                elif name == 'Operation':
                    mon.count('op_produces_%s' % ('none' if 'produces' not in raw else 'empty' if not raw['produces']
                                                  else 'some'))
                    if 'schemes' in raw:
                        mon.count('op_schemes')
                    if raw.get('security') == []:
                        mon.count('op_security_empty')
                elif name == 'SecurityScheme':
                    mon.count('scheme_%s_%s' % (raw['type'], raw.get('flow')))
                elif name == 'Response':
                    if 'examples' in raw:
                        mon.count('examples')
                    if (raw.get('schema') or {}).get('type') == 'file':
                        mon.count('files')


def case(mon, rng, index, tier):
    gr = graph.make(rng, '2.0', siblings=0.15, gencls=variant(payload=(), file_responses=True), targets=rng.choice(['home', 'inner']),
                    styles=('full', 'lib', 'single'), density=rng.choice([0.1, 0.25, 0.4]),
                    size=rng.choice([4, 10, 20, 40]))
    mon.context = {'root': gr.root, 'docs': gr.docs}
    app = World(gr.docs).create(gr.root, '3.0.0')
    crawl(mon, gr, app, model3.Model(gr))
    tally(mon, gr)
    mon.count('documents')
    mon.shape([gr.docs])
    if len(gr.docs) > 1 and index % 50 == 0:
        mon.sample(mon.context)
