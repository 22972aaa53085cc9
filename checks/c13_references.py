"""C13: every reference leads to exactly the object it names."""
from collections import defaultdict
from pyopenapi.utils import deref
from vlib import graph, grammar as g
from vlib.graph import explore, live, marker_of_raw, marker_of_obj, MARK
from vlib.swagger import variant
from vlib.drive import World, attrs, jref, parser_of, underlying
from checks.c14_identity import places

ID = 'C13'
TITLE = 'references'
BUDGET = {'quick': 12000, 'thorough': 200000}
NEED = {'refs': 30000, 'chains': 3000, 'long_chains': 200, 'cross_document': 8000, 'migrated_edges': 10000, 'nested_targets': 4000,
        'whole_documents': 500, 'before_root': 1000, 'before_root_chains': 600, 'before_root_refs': 800, 'loaded_only': 80}
RULE = ('random graphs of 1-4 documents (full, fragments, whole-document objects) with references of every kind, '
        'spelling and position, hostile names, chains; every reference reachable from the root judged by unique '
        'markers against an independent resolution of the raw documents, natively and after migrating to 3.0.0.')
CLASSES = {'Schema', 'Parameter', 'Response', 'PathItem', 'Example', 'RequestBody', 'Header', 'SecurityScheme', 'Link'}


def alone(raw):
    return graph.alone(raw)


def native(mon, rng, version):
    gr = graph.make(rng, version, siblings=0.15)
    if rng.random() < 0.1 and graph.lengthen(rng, gr):
        mon.count('long_chains')
    mon.context = {'version': version, 'root': gr.root, 'docs': gr.docs}
    app = World(gr.docs).create(gr.root, version)
    refs = 0
    for e in explore(gr, app.root):
        if e[0] != 'ref':
            continue
        _, loc, kind, obj, to, got = e
        refs += 1
        mon.count('refs')
        what = dict(at=loc, names=to)
        mon.check(got is not None, 'a reference is not resolved', **what)
        raw = gr.at(to)
        end = gr.follow(to)
        if alone(raw) and not (kind == 'PathItem' or version == '2.0' and kind == 'Schema'):
            mon.check(got.__class__.__name__ == 'Reference', 'a reference to a reference leads elsewhere', **what)
        else:
            mon.check(got.__class__.__name__ == kind or kind == 'Callback', 'a reference leads to a %s' %
                      got.__class__.__name__, **what)
        if not alone(raw):
            mon.equal(marker_of_obj(got), marker_of_raw(kind, raw), 'a reference leads to another object', **what)
        if loc[0] != to[0]:
            mon.count('cross_document')
        if to[1] == ():
            mon.count('whole_documents')
        if len(to[1]) > 4:
            mon.count('nested_targets')
        # normalized reference
        mon.equal(attrs(obj).normalized_ref.rstrip('#'), to[0] + (g.pointer(to[1]) if to[1] else ''), 'normalized reference', **what)
        # dereferencing ends at the first object that is no reference
        if kind != 'PathItem':
            if alone(raw):
                mon.count('chains')
            last = deref(obj)
            if not alone(gr.at(loc)):
                continue
            mon.equal(marker_of_obj(last), marker_of_raw(kind, gr.at(end)), 'dereferencing ends elsewhere',
                      end=end, **what)
            mon.check(underlying(deref(got)) is underlying(last), 'dereferencing from the next step ends elsewhere')
    # any reference resolved by hand, from the root document
    mon.shape([gr.docs])
    if refs > 3:
        mon.sample(gr.docs)


def before_root(mon, rng):
    """ parts asked for when the root is loaded only lead where the documents say """
    version = rng.choice(['2.0', '3.0.0'])
    to = rng.choice([version, '3.0.0'])
    more = dict(gencls=variant(payload=())) if to != version else dict(siblings=0.15)
    gr = graph.make(rng, version, styles=('full', 'lib', 'single'), **more)
    graph.lengthen(rng, gr)
    mon.context = {'version': '%s to %s' % (version, to), 'root': gr.root, 'docs': gr.docs}
    app = World(gr.docs).load(gr.root)
    full = [u for u in gr.docs if u != gr.root and set(gr.docs[u]) & {'swagger', 'openapi'}]
    for u in rng.sample(full, len(full) if rng.random() < 0.5 else 0):
        app.load_obj(u)
        mon.count('loaded_only')
    some = [x for x in places(gr) if x[0][0] not in [gr.root] + full and (to == version or x[1] != 'PathItem')]
    for loc, kind in rng.sample(some, min(len(some), rng.randint(1, 5))):
        mon.context['asked'] = asked = mon.context.get('asked', []) + [loc]
        got, _ = app.resolve_obj(jref(loc), from_spec_version=version, parser=parser_of(version, kind), to_spec_version=to)
        mon.count('before_root')
        end = gr.follow(loc)
        mon.equal(marker_of_obj(got if kind == 'PathItem' else deref(got)), marker_of_raw(kind, gr.at(loc if kind == 'PathItem' else end)),
                  'a part asked for before the root leads elsewhere', at=loc, asked=asked)
        if alone(gr.at(loc)):
            mon.count('before_root_chains')
        if kind == 'PathItem':
            continue
        # references in that part
        for tokens, k, o in live(g.SPECS[to], ('o', got.__class__.__name__), got):
            if k[0] == 'o' and getattr(o, '$ref', None) and k[1] != 'PathItem':
                last = deref(o)
                mon.check(last.__class__.__name__ != 'Reference', 'a chain of references ends too early', at=loc, tokens=tokens, asked=asked)
                mon.count('before_root_refs')
    mon.shape([gr.docs])


def nearest(tokens, marks):
    """ marker of the nearest marked ancestor-or-self, and the tokens from there """
    for n in range(len(tokens), -1, -1):
        if tokens[:n] in marks:
            return marks[tokens[:n]], tokens[n:]
    return None, tokens


def norm(rel):
    """ where a reference sits, the same for both versions """
    rel = list(rel)
    if len(rel) >= 3 and rel[0] == 'content' and rel[2] == 'schema':
        rel = ['schema'] + rel[3:]
    if len(rel) >= 4 and rel[0] == 'requestBody' and rel[1] == 'content':
        rel = ['requestBody'] + rel[3:]
    if rel[:1] == ['parameters']:
        rel = rel[:1] + rel[2:]
    return tuple(rel)


def migrated(mon, rng):
    gr = graph.make(rng, '2.0', siblings=0.15, targets=rng.choice(['home', 'inner']), gencls=variant(payload=rng.choice([(), ('body',)])),
                    styles=('full', 'lib', 'single'))
    mon.context = {'version': '2.0 to 3.0.0', 'root': gr.root, 'docs': gr.docs}
    # what the raw documents say
    exp, optional = defaultdict(set), defaultdict(set)
    queue, seen = [((gr.root, ()), ('o', 'Swagger'), True)], set()
    while queue:
        loc, kind, sure = queue.pop()
        if (loc, sure) in seen:
            continue
        seen.add((loc, sure))
        marks, found, shared = {}, [], []
        for tokens, k, raw in g.walk(gr.spec, kind, gr.at(loc)):
            if k[0] != 'o':
                continue
            if k[1] == 'PathItem':
                for i, p in enumerate(raw.get('parameters', ())):
                    p = gr.at(gr.follow((loc[0], loc[1] + tokens + ('parameters', str(i)))))
                    if p['in'] in ('body', 'formData'):
                        shared.append(tokens + ('parameters', str(i)))
            if k[1] in ('Schema', 'Parameter', 'Response', 'PathItem', 'Operation') and not alone(raw):
                marks[tokens] = raw['operationId'] if k[1] == 'Operation' else marker_of_raw(k[1], raw)
            if isinstance(raw.get('$ref'), str):
                name = k[1]
                if name == 'Reference':
                    name = graph.referenced_name(graph.raw_kind(gr.spec, kind, tokens, gr.at(loc)))
                found.append((tokens, name, gr.target(loc[0], raw['$ref'])))
        for tokens, name, to in found:
            owner, rel = nearest(tokens, marks)
            end = gr.follow(to)
            raw = gr.at(end)
            # a body for all operations may be overridden by each of them
            here = sure and not any(tokens[:len(t)] == t for t in shared)
            where = exp if here else optional
            queue.append((to, gr.slot_kind(name), here))
            queue.append((end, gr.slot_kind(name), here))
            if name == 'Parameter' and raw.get('in') in ('body', 'formData') or \
                    name == 'Response' and 'schema' in raw:
                where = optional                                    # inlined
            if owner is None and tokens == ():
                continue
            rel = norm(rel) if owner else ('top',) + tokens[-1:]
            where[(owner, rel)].add(marker_of_raw(name, raw))
    app = World(gr.docs).create(gr.root, '3.0.0')
    spec = g.SPECS['3.0.0']
    got = defaultdict(set)
    queue, seen = [('OpenApi', app.root)], set()
    while queue:
        name, obj = queue.pop()
        if id(underlying(obj)) in seen:
            continue
        seen.add(id(underlying(obj)))
        if obj.__class__.__name__ == 'Reference':
            queue.append((name, attrs(obj).ref_obj))
            continue
        marks, found = {}, []
        for tokens, k, o in live(spec, ('o', obj.__class__.__name__), obj):
            if k[0] != 'o':
                continue
            if k[1] in CLASSES:
                m = marker_of_obj(o)
                if m and not (k[1] == 'Schema' and tokens and tokens[-1] in ('schema', 'items') and not m.startswith('m')):
                    marks[tokens] = m
            elif k[1] == 'Operation':
                marks[tokens] = o.operationId
            if k[1] == 'Reference' or k[1] == 'PathItem' and getattr(o, '$ref'):
                found.append((tokens, o))
        for tokens, o in found:
            owner, rel = nearest(tokens, marks)
            to = attrs(o).ref_obj
            mon.check(to is not None, 'a migrated reference is not resolved', at=tokens, owner=owner)
            last = deref(o) if o.__class__.__name__ == 'Reference' else to
            mon.count('migrated_edges')
            key = (owner, norm(rel) if owner else ('top',) + tokens[-1:])
            m = marker_of_obj(last)
            got[key].add(m)
            mon.check(m in exp.get(key, ()) or m in optional.get(key, ()),
                      'a migrated reference leads to another object', at=key, to=m,
                      expected=sorted(exp.get(key, ())))
            queue.append((to.__class__.__name__, to))
    missing = {k: sorted(v - got.get(k, set())) for k, v in exp.items() if v - got.get(k, set())}
    mon.check(not missing, 'references got lost by migrating', missing=repr(missing)[:500])
    mon.shape([gr.docs])


def case(mon, rng, index, tier):
    if index % 12 == 11:
        before_root(mon, rng)
    elif index % 3 == 2:
        migrated(mon, rng)
    else:
        native(mon, rng, ('2.0', '3.0.0')[index % 3])
