"""C21: body and form parameters of Swagger 2.0 become equivalent request bodies."""
from vlib import graph, grammar as g, model3
from vlib.swagger import SwaggerGen, MIMES, FORM_MIMES, PRIMS
from vlib.drive import World
from vlib.gen import text
from vlib.view import view
from checks.c20_migrate import crawl

ID = 'C21'
TITLE = 'request payloads'
BUDGET = {'quick': 6000, 'thorough': 120000}
NEED = {'bodies': 15000, 'forms': 15000, 'form_fields': 25000, 'files': 5000, 'body_refs': 3000, 'inherited': 10000,
        'overridden_body': 1000, 'overridden_field': 1000, 'inherited_form': 5000, 'several_media_types': 4000,
        'shared_differently': 2000, 'far_body_refs': 1000}
RULE = ('random graphs of Swagger 2.0 documents rich in body and form parameters, on operations and on path items, '
        'written down or referenced, overridden or inherited, under all sorts of media types; the whole migrated '
        'document compared with an independently written model of the mapping.')
NOISE = ['application/json', 'text/plain', 'application/vnd.x+json']


def near(rng, name):
    return rng.choice([name[1:], name[:-1], name + 's', 'x' + name, name.upper(), name.swapcase(), name + ' '])


class Payload(SwaggerGen):
    payload = ()
    path_refs = True
    split = False                                                   # files and other fields without 'consumes'

    def field(self, names=None):
        """ a form field """
        rng = self.rng
        if rng.random() < 0.3:
            ret = self.parameter('file', 0)
        else:
            ret = self.parameter('formData', 0)
        if rng.random() < 0.2:
            del ret['description']
        return ret

    def body(self, depth):
        if self.rng.random() < self.refs:
            return self.hole('Parameter', 'body')
        ret = self.parameter('body', depth)
        if self.rng.random() < 0.3:
            ret['name'] = 'body'
        return ret

    def mixed(self, params, extra):
        rng = self.rng
        out = [p for p in params]
        for e in extra:
            out.insert(rng.randint(0, len(out)), e)
        return out

    def obj(self, name, depth):
        rng = self.rng
        if name == 'Parameter':
            return self.parameter(rng.choice(['query', 'header', 'path', 'body', 'body']), depth)
        if name != 'PathItem':
            return super(Payload, self).obj(name, depth)
        ret = super(Payload, self).obj(name, depth)
        mode = rng.choice(['none', 'none', 'body', 'form'])
        shared = []
        if mode == 'body':
            shared = [self.body(depth + 1)]
        elif mode == 'form':
            shared = [self.field() for _ in range(rng.randint(1, 3))]
        if shared:
            ret['parameters'] = self.mixed(ret.get('parameters', []), shared)
        for m in model3.METHODS:
            if m not in ret:
                if rng.random() < 0.3 and self.budget > 0:
                    ret[m] = self.operation(depth + 1)
                else:
                    continue
            op = ret[m]
            own = mode if mode != 'none' else rng.choice(['none', 'body', 'form', 'form'])
            extra = []
            if own == 'body' and (mode == 'none' or rng.random() < 0.4):
                extra = [self.body(depth + 2)]
            elif own == 'form' and (mode == 'none' or rng.random() < 0.5):
                extra = [self.field() for _ in range(rng.randint(1, 3))]
                for e in extra:
                    # one name may be used again
                    again = rng.choice(shared) if shared else None
                    if again and rng.random() < 0.4 and not any(o is not e and o['name'] == again['name'] for o in extra):
                        e['name'] = again['name']
                    elif again and rng.random() < 0.4:
                        # or nearly so
                        like = near(rng, again['name'])
                        if not any(f['name'] == like for f in shared + extra):
                            e['name'] = like
            if mode == 'body' and not extra and rng.random() < 0.3:
                # neither does a parameter of another place override a body by its name
                op.setdefault('parameters', []).append(
                    dict(self.parameter('query', 0), name=shared[0].get('name', 'q%d' % rng.randrange(99))))
            if extra:
                op['parameters'] = self.mixed(op.get('parameters', []), extra)
                if own == 'form' and rng.random() < 0.2:
                    # a query parameter may go by the name of a field
                    op['parameters'].append(dict(self.parameter('query', 0), name=extra[0]['name']))
            if own == 'form':
                fields = shared + extra
                files = [f.get('type') == 'file' for f in fields]
                op.pop('consumes', None)
                if any(files):
                    if self.split and not all(files):
                        pass
                    elif rng.random() < 0.8 or not all(files):
                        op['consumes'] = rng.sample(FORM_MIMES, rng.randint(1, 2)) + rng.sample(NOISE, rng.randint(0, 1))
                        rng.shuffle(op['consumes'])
                    else:
                        op['consumes'] = rng.sample(NOISE, rng.randint(0, 2))
                elif rng.random() < 0.6:
                    op['consumes'] = rng.sample(FORM_MIMES + NOISE, rng.randint(0, 3))
            elif rng.random() < 0.3:
                op['consumes'] = rng.sample(MIMES, rng.randint(0, 3))
        return ret

    def top(self, ret):
        super(Payload, self).top(ret)
        rng = self.rng
        if rng.random() < 0.5:
            ret['consumes'] = rng.sample(NOISE + FORM_MIMES, rng.randint(1, 3))
        if rng.random() < 0.4:
            home = ret.setdefault('parameters', {})
            for _ in range(rng.randint(1, 2)):
                home['f%d' % rng.randrange(9)] = self.field()


def tally(mon, gr, model):
    """ what was there to convert """
    for url in gr.docs:
        for base, kind in gr.roots[url]:
            for tokens, k, raw in g.walk(gr.spec, kind, gr.at((url, base))):
                if k != ('o', 'PathItem'):
                    continue
                at = base + tokens
                shared = model.split(model.locate(raw.get('parameters'), (url, at + ('parameters',))))[1]
                kinds = set()
                for m in model3.METHODS:
                    if m not in raw:
                        continue
                    op = raw[m]
                    locs = model.locate(op.get('parameters'), (url, at + (m, 'parameters')))
                    own = model.split(locs)[1]
                    if not own and not shared:
                        continue
                    mine = [model.raw(p)[1] for p in own]
                    all_ = mine + [model.raw(p)[1] for p in shared]
                    consumes = model.effective(op, 'consumes')
                    if len(consumes or ()) > 1:
                        mon.count('several_media_types')
                    if any(p['in'] == 'body' for p in all_):
                        mon.count('bodies')
                    else:
                        mon.count('forms')
                        mon.count('form_fields', len(all_))
                        if any(p.get('type') == 'file' for p in all_):
                            mon.count('files')
                    for p in own + shared:
                        if '$ref' in gr.at(p):
                            mon.count('body_refs')
                            if model.raw(p)[0][0] != url:
                                mon.count('far_body_refs')
                    for p in shared:
                        r = model.raw(p)[1]
                        if any(o['in'] == r['in'] == 'body' for o in mine):
                            mon.count('overridden_body')
                        elif any(o['in'] == r['in'] and o['name'] == r['name'] for o in mine):
                            mon.count('overridden_field')
                        else:
                            mon.count('inherited')
                            mon.count('inherited_form' if r['in'] == 'formData' else 'inherited_body')
                    if shared:
                        kinds.add(tuple(sorted(consumes or ())))
                if len(kinds) > 1:
                    mon.count('shared_differently')


def form_reference(mon, rng):
    """ a listed finding: fields that are written down elsewhere """
    name = 'f' + str(rng.randrange(100))
    typ = rng.choice(PRIMS)
    docs = {'http://h/root.json': {
        'swagger': '2.0', 'info': {'title': 't', 'version': '1'},
        'parameters': {name: {'in': 'formData', 'name': 'n', 'type': typ, 'description': text(rng)}},
        'paths': {'/p': {'post': {'parameters': [{'$ref': '#/parameters/' + name}], 'responses': {
            '200': {'description': ''}}}}}}}
    mon.context = {'docs': docs}
    app = World(docs).create('http://h/root.json', '3.0.0')
    body = view(g.V3, ('o', 'RequestBody'), app.root.paths['/p'].post.requestBody)
    mon.count('form_references')
    prop = body['content']['application/x-www-form-urlencoded']['schema']['properties']['n']
    if prop == {'$ref': '#/components/requestBodies/' + name}:
        mon.known_finding('form-reference')
        return
    mon.equal(prop.get('type', typ), typ, 'a referenced form field says something else', body=body)


def case(mon, rng, index, tier):
    if index % 100 == 99:
        form_reference(mon, rng)
        return
    gr = graph.make(rng, '2.0', siblings=0.15, gencls=Payload, targets=rng.choice(['home', 'inner']), styles=('full', 'lib', 'single'),
                    density=rng.choice([0.1, 0.2, 0.3]), size=rng.choice([6, 12, 25]))
    mon.context = {'root': gr.root, 'docs': gr.docs}
    app = World(gr.docs).create(gr.root, '3.0.0')
    model = model3.Model(gr)
    crawl(mon, gr, app, model)
    tally(mon, gr, model)
    mon.shape([gr.docs])
    if len(gr.docs) > 1 and index % 50 == 0:
        mon.sample(mon.context)
