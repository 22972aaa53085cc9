"""Swagger 1.2 listings that make sense, and what they say as a Swagger 2.0 document
(written down from the two specifications, independent of the code under test)."""
from urllib.parse import urlsplit
from .gen import word, text
from . import grammar as g
from .model3 import pick

PRIMS = ['string', 'integer', 'number', 'boolean']
FORMATS = {'string': ['date', 'byte', 'date-time'], 'integer': ['int32', 'int64'], 'number': ['float', 'double'],
           'boolean': ['x']}
BASES = ['http://h.io/v1', 'http://h.io/v1/', 'https://api.x.io:8080', 'http://h.io', 'http://h.io/', '/v1', '', '/',
         'http://h.io/a/b', 'http://h.io/v1']
MIMES = ['application/json', 'application/xml', 'text/plain', 'multipart/form-data', 'application/x-www-form-urlencoded']
NUMBERS = {'integer': ['0', '10', '-5', '1.0', '9007199254740993', '-9223372036854775808'],
           'number': ['0', '0.0', '1.5', '-2.25', '1e3']}


# one host, several schemes
SCHEMES = ['http://h.io/v1', 'https://h.io/v2', 'https://h.io', 'ws://h.io/v3']


class ListingGen(object):
    def __init__(self, rng, base='http://h/api/', root='resource_list.json', odd=0.25):
        self.rng = rng
        self.base = base
        self.root = base + root
        self.n = 0
        self.odd = odd

    def on(self, p=0.4):
        return self.rng.random() < p

    def word(self):
        return word(self.rng, self.odd)

    def fresh(self, prefix='m'):
        self.n += 1
        return '%s%d' % (prefix, self.n)

    def value(self, typ):
        rng = self.rng
        return {'integer': rng.choice([0, 1, 7]), 'number': rng.choice([0.0, 1.5]), 'boolean': rng.random() < 0.5}.get(
            typ, text(rng))

    def typed(self, models, param=False, where=None):
        """ type fields of operations, properties, parameters """
        rng = self.rng
        ret = {}
        kinds = PRIMS + PRIMS + ['array'] + ([] if param and where != 'body' else ['model', 'model', 'ref'])
        t = rng.choice(kinds)
        if t in ('model', 'ref') and not models:
            t = 'string'
        if t == 'model':
            ret['type'] = rng.choice(models)
            return ret
        if t == 'ref':
            ret['$ref'] = rng.choice(models)
            return ret
        ret['type'] = t
        if t == 'array':
            k = rng.choice(['p', 'model', 'ref']) if models and (not param or where == 'body') else 'p'
            if k == 'model':
                ret['items'] = {'type': rng.choice(models)}
            elif k == 'ref':
                ret['items'] = {'$ref': rng.choice(models)}
            else:
                it = rng.choice(PRIMS)
                ret['items'] = {'type': it}
                if self.on():
                    ret['items']['format'] = rng.choice(FORMATS[it])
            if self.on():
                ret['uniqueItems'] = self.on(0.5)
            return ret
        if self.on():
            ret['format'] = rng.choice(FORMATS[t])
        if self.on(0.25):
            ret['defaultValue'] = self.value(t)
        if self.on(0.25) and t == 'string':
            ret['enum'] = [text(rng) for _ in range(rng.randint(1, 3))]
        for k in ('minimum', 'maximum'):
            if t in NUMBERS and self.on(0.3):
                ret[k] = rng.choice(NUMBERS[t] + [''])
        return ret

    def parameter(self, models, bodies):
        rng = self.rng
        where = rng.choice(['path', 'query', 'query', 'header', 'form'] + (['body'] if bodies else []))
        ret = self.typed(models, True, where)
        ret.update(paramType=where, name='body' if where == 'body' and self.on() else self.fresh(self.word()))
        if where == 'form' and self.on(0.2):
            ret = {'paramType': 'form', 'name': ret['name'], 'type': 'File'}
        if self.on() or where == 'path':
            ret['required'] = where == 'path' or self.on(0.5)
        if self.on(0.6):
            ret['description'] = self.fresh()
        if where in ('query', 'path', 'header') and ret['type'] in PRIMS and self.on(0.25):
            ret['allowMultiple'] = self.on(0.8)
            if ret['allowMultiple'] and self.on(0.4):
                ret['uniqueItems'] = self.on(0.5)
        return ret

    def auths(self, names):
        rng = self.rng
        return {n: [dict({'scope': word(rng)}, **({'description': text(rng)} if self.on() else {}))
                    for _ in range(rng.randint(0, 2))] for n in rng.sample(names, rng.randint(0, min(2, len(names))))}

    def operation(self, method, models, auths):
        rng = self.rng
        ret = {'method': method, 'nickname': self.fresh('op'), 'parameters': []}
        if self.on(0.3):
            ret['type'] = 'void'
        else:
            ret.update(self.typed(models))
        bodies = True
        for _ in range(rng.randint(0, 3)):
            p = self.parameter(models, bodies)
            if p['paramType'] in ('body', 'form'):
                bodies = False
            if p['paramType'] == 'form' and any(q['paramType'] == 'body' for q in ret['parameters']):
                continue
            ret['parameters'].append(p)
        if self.on():
            ret['summary'] = text(rng)
        if self.on():
            ret['notes'] = text(rng)
        if self.on(0.3):
            ret['deprecated'] = rng.choice(['true', 'false'])
        for k in ('consumes', 'produces'):
            if self.on(0.3):
                ret[k] = rng.sample(MIMES, rng.randint(1, 2))
        if any(p.get('type') == 'File' for p in ret['parameters']):
            ret['consumes'] = ['multipart/form-data']
        if self.on(0.4):
            ret['authorizations'] = self.auths(auths)
        if self.on(0.2):
            ret['responseMessages'] = [{'code': 404, 'message': text(rng)}]
        return ret

    def declaration(self, name, auths, bases, taken, ids):
        rng = self.rng
        ret = {'swaggerVersion': '1.2', 'basePath': rng.choice(bases), 'apis': []}
        if self.on(0.85):
            ret['resourcePath'] = '/' + (name if self.on(0.8) else self.word())
        scope = (ret.get('resourcePath') or '')[1:]
        models = []
        for _ in range(rng.randint(0, 4)):
            m = rng.choice(ids) if ids and self.on(0.5) else self.word()
            if (scope, m) not in taken and m.lower() not in PRIMS + ['array', 'void']:
                taken.add((scope, m))
                models.append(m)
        ids.extend(models)
        if models:
            ret['models'] = {}
        for m in models:
            one = {'id': m, 'properties': {}}
            for _ in range(rng.randint(0, 4)):
                p = self.typed(models)
                if self.on():
                    p['description'] = self.fresh()
                one['properties'][self.word()] = p
            if self.on():
                one['description'] = self.fresh()
            if self.on() and one['properties']:
                one['required'] = rng.sample(sorted(one['properties']), 1)
            if self.on(0.3) and len(models) > 1:
                one['subTypes'] = rng.sample([x for x in models if x != m], rng.randint(1, len(models) - 1))
                one['discriminator'] = self.word()
            ret['models'][m] = one
        base = ret['basePath']
        for _ in range(rng.randint(0, 3)):
            api = {'path': '/' + rng.choice([self.word(), 'x', 'x/{id}']), 'operations': []}
            for method in rng.sample(['GET', 'POST', 'PUT', 'DELETE', 'PATCH', 'HEAD', 'OPTIONS'], rng.randint(1, 3)):
                if method == 'PATCH' and self.on(0.5):
                    method = 'patch'
                key = (url_path(base, api['path']), method.lower())
                if key in taken:
                    continue
                taken.add(key)
                api['operations'].append(self.operation(method, models, auths))
            ret['apis'].append(api)
        for k in ('consumes', 'produces'):
            if self.on(0.4):
                ret[k] = rng.sample(MIMES, rng.randint(1, 2))
        if self.on(0.4):
            ret['authorizations'] = self.auths(auths)
        if self.on():
            ret['apiVersion'] = text(rng)
        return ret

    def authorization(self):
        rng = self.rng
        t = rng.choice(['basicAuth', 'apiKey', 'oauth2', 'oauth2'])
        ret = {'type': t}
        if t == 'apiKey':
            ret['keyname'], ret['passAs'] = self.fresh('key'), rng.choice(['header', 'query'])
        elif t == 'oauth2':
            if self.on(0.8):
                ret['scopes'] = [{'scope': self.fresh('s'), 'description': text(rng)} for _ in range(rng.randint(0, 3))]
            if self.on(0.5):
                ret['grantTypes'] = {'implicit': {'loginEndpoint': {'url': 'http://login/' + self.fresh()}}}
                if self.on(0.3):
                    ret['grantTypes']['implicit']['tokenName'] = 'x'
            else:
                ret['grantTypes'] = {'authorization_code': {
                    'tokenRequestEndpoint': {'url': 'http://request/' + self.fresh()},
                    'tokenEndpoint': {'url': 'http://token/' + self.fresh()}}}
        return ret

    def docs(self):
        """ url -> document, and the names of the declarations in order """
        rng = self.rng
        root = {'swaggerVersion': '1.2', 'apis': []}
        if self.on(0.7):
            root['apiVersion'] = text(rng)
        if self.on(0.8):
            root['info'] = {'title': text(rng), 'description': text(rng)}
            for k in ('termsOfServiceUrl', 'contact', 'license', 'licenseUrl'):
                if self.on():
                    root['info'][k] = self.fresh(k)
        auths = sorted({self.word() for _ in range(rng.randint(0, 3))})
        if auths:
            root['authorizations'] = {n: self.authorization() for n in auths}
        out = {self.root: root}
        names, taken, ids = [], set(), []
        bases = [rng.choice(BASES)] if self.on(0.6) else rng.sample(
            BASES[:2] + BASES[3:5] + BASES[8:], 3) if self.on(0.6) else rng.sample(BASES, 2) if self.on(0.7) else rng.sample(
                SCHEMES, 3)
        for n in rng.sample(['pet', 'user', 'Pet', 'store', 'pets', 'a.b', 'sub/pet'], rng.randint(1, 4)):
            names.append(n)
            root['apis'].append({'path': '/' + n})
            if self.on():
                root['apis'][-1]['description'] = text(rng)
            out[self.base + n] = self.declaration(n, auths, bases, taken, ids)
        return out, names


def url_path(base, path):
    return (base[:-1] if base.endswith('/') else base) + path


# what it says, in 2.0

class Upgraded(object):
    def __init__(self, docs, root, names, base, sep='!##!'):
        self.root = docs[root]
        self.decls = [docs[base + n] for n in names]
        self.sep = sep

    def definition(self, scope, name):
        return scope + self.sep + name if scope else name

    def ref(self, scope, name):
        return {'$ref': g.pointer(('definitions', self.definition(scope, name)))}

    def type(self, raw, scope):
        t = raw.get('$ref') or raw.get('type')
        return {'type': t} if t in PRIMS + ['array'] else self.ref(scope, t)

    def number(self, raw):
        out = {}
        for k in ('minimum', 'maximum'):
            if raw.get(k):
                v = raw[k]
                out[k] = float(v) if raw['type'] == 'number' else int(v) if v.lstrip('-').isdigit() else int(float(v))
        return out

    def schema(self, raw, scope):
        ret = self.type(raw, scope)
        ret.update(pick(raw, ('format', 'uniqueItems', 'enum')))
        if 'defaultValue' in raw:
            ret['default'] = raw['defaultValue']
        ret.update(self.number(raw))
        if 'items' in raw:
            ret['items'] = dict(self.type(raw['items'], scope), **pick(raw['items'], ('format',)))
        return ret

    def parameter(self, raw, scope):
        ret = pick(raw, ('name', 'required', 'description'))
        ret['in'] = {'form': 'formData'}.get(raw['paramType'], raw['paramType'])
        if raw['paramType'] == 'body':
            ret['schema'] = self.schema(raw, scope)
            return ret
        if raw.get('allowMultiple') is True:
            ret.update(pick(raw, ('uniqueItems',)), type='array', collectionFormat='csv')
            ret['items'] = dict(pick(raw, ('type', 'format', 'enum')), **self.number(raw))
            if 'defaultValue' in raw:
                ret['default'] = [raw['defaultValue']]
            return ret
        ret['type'] = raw['type'].lower()
        ret.update(pick(raw, ('format', 'enum')))
        if 'defaultValue' in raw:
            ret['default'] = raw['defaultValue']
        ret.update(self.number(raw))
        if 'items' in raw:
            ret.update(pick(raw, ('uniqueItems',)), collectionFormat='csv', items=pick(raw['items'], ('type', 'format')))
        return ret

    def operation(self, raw, decl, scope):
        ret = {'operationId': raw['nickname'], 'responses': {'default': {'description': ''}},
               'deprecated': raw.get('deprecated') == 'true'}
        if scope:
            ret['tags'] = [scope]
        ret.update(pick(raw, ('summary',)))
        if 'notes' in raw:
            ret['description'] = raw['notes']
        for k in ('consumes', 'produces'):
            mimes = raw.get(k) or decl.get(k)
            if mimes:
                ret[k] = mimes
        if raw['parameters']:
            ret['parameters'] = [self.parameter(p, scope) for p in raw['parameters']]
        auths = raw['authorizations'] if 'authorizations' in raw else decl.get('authorizations')
        if auths:
            ret['security'] = [{n: [s['scope'] for s in scopes]} for n, scopes in auths.items()]
        if raw.get('type') != 'void':
            ret['responses']['default']['schema'] = self.schema(raw, scope)
        return ret

    def authorization(self, raw):
        ret = {'type': {'basicAuth': 'basic'}.get(raw['type'], raw['type'])}
        if raw['type'] == 'apiKey':
            ret.update(name=raw['keyname'], **{'in': raw['passAs']})
        elif raw['type'] == 'oauth2':
            scopes = {s['scope']: s.get('description') for s in raw.get('scopes') or []}
            if scopes:
                ret['scopes'] = scopes
            grant = raw['grantTypes']
            if 'implicit' in grant:
                ret['authorizationUrl'], ret['flow'] = grant['implicit']['loginEndpoint']['url'], 'implicit'
            else:
                ret['tokenUrl'] = grant['authorization_code']['tokenEndpoint']['url']
                ret['flow'] = 'access_code'
        return ret

    def document(self):
        root = self.root
        ret = {'swagger': '2.0', 'info': {}, 'schemes': ['http', 'https']}
        info = root.get('info') or {}
        for k, v in (('version', root.get('apiVersion')), ('title', info.get('title') or None),
                     ('description', info.get('description') or None), ('termsOfService', info.get('termsOfServiceUrl')),
                     ('contact', {'email': info['contact']} if info.get('contact') else None),
                     ('license', dict(([('name', info['license'])] if 'license' in info else []) +
                                      ([('url', info['licenseUrl'])] if 'licenseUrl' in info else [])) or None)):
            if v is not None:
                ret['info'][k] = v
        tags, paths, defs = [], {}, {}
        hosts = set()
        for decl in self.decls:
            scope = (decl.get('resourcePath') or '')[1:]
            if scope and scope not in tags:
                tags.append(scope)
            for api in decl['apis']:
                url = url_path(decl['basePath'], api['path'])
                for op in api['operations']:
                    hosts.add(urlsplit(url).netloc)
                    paths.setdefault(url, {})[op['method'].lower()] = self.operation(op, decl, scope)
            for raw in (decl.get('models') or {}).values():
                one = defs.setdefault(self.definition(scope, raw['id']), {})
                if raw['properties']:
                    one['properties'] = {n: dict(self.schema(p, scope), **pick(p, ('description',)))
                                         for n, p in raw['properties'].items()}
                one.update(pick(raw, ('required', 'discriminator', 'description')))
                for sub in raw.get('subTypes') or []:
                    defs.setdefault(self.definition(scope, sub), {}).setdefault('allOf', []).append(
                        self.ref(scope, raw['id']))
        if len(hosts) == 1:
            host, = hosts
            if host:
                ret['host'] = host
            stripped = {}
            for url, item in paths.items():
                scheme = urlsplit(url).scheme
                prefix = '%s://%s' % (scheme, host) if host else ''
                stripped.setdefault(url[len(prefix):], {}).update(item)
            paths = stripped
        if tags:
            ret['tags'] = [{'name': t} for t in tags]
        if paths:
            ret['paths'] = paths
        if defs:
            ret['definitions'] = defs
        if root.get('authorizations'):
            ret['securityDefinitions'] = {n: self.authorization(a) for n, a in root['authorizations'].items()}
        return ret
