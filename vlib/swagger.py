"""Swagger 2.0 documents that make sense (and not only fit the grammar), ready to be migrated."""
from .graph import MarkedGen
from .gen import word, text, anyval

PRIMS = ['string', 'integer', 'number', 'boolean']
FORMATS = {'string': ['date', 'byte', 'uuid', ''], 'integer': ['int32', 'int64'], 'number': ['float', 'double'],
           'boolean': ['x']}
MIMES = ['application/json', 'application/xml', 'text/plain', 'application/vnd.x+json', 'image/png',
         'application/octet-stream', 'text/csv; charset=utf-8']
FORM_MIMES = ['application/x-www-form-urlencoded', 'multipart/form-data']


class SwaggerGen(MarkedGen):
    """ payload: which payload parameters may show up: '', 'body', 'form', 'file' separated by commas """
    payload = ('body',)
    param_refs = True
    file_responses = False

    def value(self, typ, depth=1):
        rng = self.rng
        if typ == 'integer':
            return rng.choice([0, 1, -5, 100])
        if typ == 'number':
            return rng.choice([0.0, 1.5, -2.5, 3])
        if typ == 'boolean':
            return rng.random() < 0.5
        if typ == 'array':
            return [text(rng) for _ in range(rng.randint(0, 2))]
        return text(rng)

    def base_schema(self, typ, density=0.3):
        """ validation keywords, falsy values included """
        rng, out = self.rng, {}

        def on():
            return rng.random() < density

        if on() and typ in FORMATS:
            out['format'] = rng.choice(FORMATS[typ])
        if on():
            out['default'] = self.value(typ)
        if on():
            out['enum'] = [self.value(typ) for _ in range(rng.randint(1, 3))]
        if on():
            out['maximum'] = rng.choice([0, 10, 1.5, -1])
        if on():
            out['exclusiveMaximum'] = rng.random() < 0.5
        if on():
            out['minimum'] = rng.choice([0, -10, 0.5])
        if on():
            out['exclusiveMinimum'] = rng.random() < 0.5
        for k in ('maxLength', 'minLength', 'maxItems', 'minItems'):
            if on():
                out[k] = rng.choice([0, 1, 20])
        if on():
            out['pattern'] = rng.choice(['', '^a+$', '[/~]'])
        if on():
            out['uniqueItems'] = rng.random() < 0.5
        if on():
            out['multipleOf'] = rng.choice([1, 2, 0.5])
        return out

    def typed(self, depth, in_=None):
        """ the type part of parameters, headers and items """
        rng = self.rng
        typ = rng.choice(PRIMS + ['array'] if depth < 3 else PRIMS)
        out = dict(type=typ)
        out.update(self.base_schema(typ))
        if typ == 'array':
            out['items'] = self.typed(depth + 1)
            formats = ['csv']
            if in_ in ('query', 'formData'):
                formats = ['csv', 'ssv', 'pipes', 'multi', 'csv', 'ssv']
            if in_ is not None and rng.random() < 0.6:
                out['collectionFormat'] = rng.choice(formats)
            elif in_ is None and rng.random() < 0.3:
                out['collectionFormat'] = rng.choice(['csv', 'pipes', 'ssv'])
        return out

    def parameter(self, in_, depth):
        rng = self.rng
        self.counter[0] += 1
        ret = {'name': '%s%d' % (word(rng), self.counter[0]), 'in': in_}
        if rng.random() < 0.5 or in_ == 'path':
            ret['required'] = True if in_ == 'path' else rng.random() < 0.6
        if in_ == 'body':
            ret['schema'] = self.kind(('o', 'Schema'), depth + 1)
        elif in_ == 'file':
            ret['in'], ret['type'] = 'formData', 'file'
        else:
            ret.update(self.typed(0, in_))
            if in_ in ('query', 'formData') and rng.random() < 0.3:
                ret['allowEmptyValue'] = rng.random() < 0.6
        ret['description'] = self.marker()
        return ret

    def tagged(self, tag, depth):
        return self.parameter(self.rng.choice(['query', 'header', 'path']) if tag == 'plain' else
                              'formData' if tag == 'form' else tag, depth)

    def hole(self, kind, tag=None):
        return super(SwaggerGen, self).hole(kind, tag or ('plain' if kind == 'Parameter' else None))

    def mimes(self, lo=0, hi=3):
        return self.rng.sample(MIMES, self.rng.randint(lo, hi))

    def parameters(self, depth, most=3, payload=True):
        rng = self.rng
        out = []
        for _ in range(rng.randint(0, most)):
            if self.param_refs and rng.random() < self.refs:
                out.append(self.hole('Parameter', 'plain'))
            else:
                out.append(self.parameter(rng.choice(['query', 'header', 'path', 'query']), depth + 1))
        if payload and self.payload and rng.random() < 0.4:
            out.insert(rng.randint(0, len(out)), self.hole('Parameter', 'body') if self.payload == (
                'body',) and rng.random() < self.refs else self.parameter(rng.choice(self.payload), depth + 1))
        return out

    def security(self):
        rng = self.rng
        return [{word(rng): [word(rng) for _ in range(rng.randint(0, 2))] for _ in range(rng.randint(0, 2))}
                for _ in range(rng.randint(0, 2))]

    def operation(self, depth, methodical=True):
        rng = self.rng
        self.budget -= 1
        ret = {'operationId': self.marker(), 'responses': {}}

        def on(p=0.3):
            return rng.random() < p

        if on():
            ret['tags'] = [word(rng) for _ in range(rng.randint(0, 3))]
        if on():
            ret['summary'] = text(rng)
        if on():
            ret['description'] = text(rng)
        if on():
            ret['deprecated'] = rng.random() < 0.5
        if on():
            ret['security'] = self.security()
        if on():
            ret['consumes'] = self.mimes()
        if on():
            ret['produces'] = self.mimes()
        if on():
            ret['schemes'] = rng.sample(['http', 'https', 'ws', 'wss'], rng.randint(1, 2))
        if on():
            ret['externalDocs'] = self.kind(('o', 'ExternalDocumentation'), depth)
        if on(0.6):
            ret['parameters'] = self.parameters(depth)
        for k in rng.sample(['200', '404', 'default', '500', '4XX'], rng.randint(1, 2)):
            ret['responses'][k] = self.kind(('r', 'Response'), depth + 1)
        return ret

    def obj(self, name, depth):
        rng = self.rng
        if name == 'Parameter':
            return self.parameter(rng.choice(['query', 'header', 'path', 'query'] + list(self.payload)), depth)
        if name == 'Header':
            self.budget -= 1
            ret = self.typed(0, 'header')
            if rng.random() < 0.7:
                ret['description'] = self.marker()
            return ret
        if name == 'Items':
            return self.typed(1)
        if name == 'Operation':
            return self.operation(depth)
        if name == 'SecurityScheme':
            return self.security_scheme()
        if name == 'PathItem':
            self.budget -= 1
            ret = {'get': self.operation(depth + 1)}
            for m in ('put', 'post', 'delete', 'options', 'head', 'patch'):
                if rng.random() < 0.2 and self.budget > 0:
                    ret[m] = self.operation(depth + 1)
            if rng.random() < 0.4:
                ret['parameters'] = self.parameters(depth)
            if rng.random() < self.refs * 0.7 and self.path_refs:
                from .graph import Hole
                ret['$ref'] = Hole('PathItem')
            return ret
        ret = super(SwaggerGen, self).obj(name, depth)
        if name == 'Schema':
            if rng.random() < 0.8:
                typ = rng.choice(PRIMS + ['array', 'object', 'object'])
                ret['type'] = typ
                for k in list(ret):
                    if k in ('format', 'default', 'enum', 'maximum', 'minimum', 'maxLength', 'minLength', 'pattern',
                             'maxItems', 'minItems', 'uniqueItems', 'multipleOf', 'exclusiveMaximum',
                             'exclusiveMinimum'):
                        del ret[k]
                ret.update(self.base_schema(typ))
            else:
                ret.pop('type', None)
        elif name == 'Response':
            if 'examples' in ret:
                ret['examples'] = {m: anyval(rng, 1) for m in self.mimes(0, 2)}
            if self.file_responses and rng.random() < 0.08:
                ret['schema'] = {'type': 'file'}
        elif name == 'Swagger':
            self.top(ret)
        return ret

    path_refs = True

    def security_scheme(self):
        rng = self.rng
        t = rng.choice(['basic', 'apiKey', 'oauth2', 'oauth2'])
        ret = {'type': t, 'description': self.marker()}
        if t == 'apiKey':
            ret['name'], ret['in'] = word(rng), rng.choice(['query', 'header'])
        elif t == 'oauth2':
            flow = rng.choice(['implicit', 'password', 'application', 'accessCode'])
            ret['flow'] = flow
            if flow in ('implicit', 'accessCode'):
                ret['authorizationUrl'] = 'http://auth/' + word(rng)
            if flow != 'implicit':
                ret['tokenUrl'] = 'http://token/' + word(rng)
            ret['scopes'] = {word(rng): text(rng) for _ in range(rng.randint(0, 3))}
        return ret

    def top(self, ret):
        rng = self.rng
        for k, values in (('host', ['h.io', 'localhost:8080', 'api.x.io']), ('basePath', ['/', '/v1', '/a/b', '/v2/'])):
            ret.pop(k, None)
            if rng.random() < 0.6:
                ret[k] = rng.choice(values)
        ret.pop('schemes', None)
        if rng.random() < 0.6:
            ret['schemes'] = rng.sample(['http', 'https', 'ws', 'wss'], rng.randint(1, 3))
        for k in ('consumes', 'produces'):
            ret.pop(k, None)
            if rng.random() < 0.6:
                ret[k] = self.mimes()
        if 'security' in ret:
            ret['security'] = self.security()


def variant(**attrs):
    return type('SwaggerGenVariant', (SwaggerGen,), attrs)
