"""What a Swagger 2.0 document says, written down as an OpenAPI 3.0.0 document: from the two
specifications, and independent of the code under test.

The model reads the raw documents; references are absolute in what it writes.
"""
from . import grammar as g
from .core import same, first_diff

BASE = ('type', 'format', 'default', 'maximum', 'exclusiveMaximum', 'minimum', 'exclusiveMinimum', 'maxLength',
        'minLength', 'pattern', 'maxItems', 'minItems', 'uniqueItems', 'enum', 'multipleOf')
SCHEMA = BASE + ('title', 'maxProperties', 'minProperties', 'description', 'readOnly', 'example')
METHODS = ('get', 'put', 'post', 'delete', 'options', 'head', 'patch')
FORMS = ('application/x-www-form-urlencoded', 'multipart/form-data')
HOMES = {'definitions': 'schemas', 'parameters': 'parameters', 'responses': 'responses',
         'securityDefinitions': 'securitySchemes'}
FLOWS = {'application': 'clientCredentials', 'accessCode': 'authorizationCode'}
STYLES = {'csv': ('form', False), 'ssv': ('spaceDelimited', False), 'pipes': ('pipeDelimited', False),
          'multi': ('form', True)}
ANY = '?'               # some media type, whichever


def pick(raw, keys):
    return {k: raw[k] for k in keys if raw.get(k) is not None}


class Model(object):
    def __init__(self, graph):
        self.graph = graph
        self.root_raw = graph.docs[graph.root]

    # locations

    def moved(self, loc):
        """ where something of the root is, once migrated; '?' when any media type will do """
        url, tokens = loc
        if url != self.graph.root or len(tokens) < 2:
            return loc
        if tokens[0] in HOMES:
            home = HOMES[tokens[0]]
            if tokens[0] == 'parameters' and self.is_payload((url, tokens[:2])):
                home = 'requestBodies'
            return url, ('components', home, tokens[1]) + self.inside(tokens[0], (url, tokens[:2]), tokens[2:])
        if tokens[0] == 'paths':
            at = 2 if tokens[2:3] == ('parameters',) else 3
            part, at, rest = tokens[at:at + 1], tokens[:at], tokens[at + 1:]
            if part == ('responses',) and rest:
                return url, at + part + rest[:1] + self.inside(part[0], (url, at + part + rest[:1]), rest[1:])
            if part == ('parameters',) and rest:
                here = (url, at + part + rest[:1])
                if self.is_payload(here):
                    to = ('requestBody',) if len(at) == 3 else (ANY,)
                else:
                    before = self.locate(range(int(rest[0])), (url, at + part))
                    to = ('parameters', str(len(self.split(before)[0])))
                return url, at + to + self.inside(part[0], here, rest[1:])
        return loc

    def inside(self, kind, loc, rest):
        """ parts of parameters and responses """
        body = ('content', ANY, 'schema')
        if kind == 'responses':
            if rest[:1] == ('schema',):
                return body + rest[1:]
            if rest[:1] == ('headers',) and rest[2:3] == ('items',):
                return rest[:2] + ('schema',) + rest[2:]
        if kind == 'parameters':
            if rest[:1] == ('schema',):
                return body + rest[1:]
            if rest[:1] == ('items',):
                if self.is_payload(loc):
                    return body + ('properties', self.raw(loc)[1]['name']) + rest
                return ('schema',) + rest
        return rest

    def is_payload(self, loc):
        return self.raw(loc)[1].get('in') in ('body', 'formData')

    def ref(self, url, ref):
        url, tokens = self.moved(self.graph.target(url, ref))
        return {'$ref': url + g.pointer(tokens)}

    def raw(self, loc):
        loc = self.graph.follow(loc)
        return loc, self.graph.at(loc)

    # objects

    def external_docs(self, raw):
        return pick(raw, ('url', 'description'))

    def tag(self, raw):
        ret = pick(raw, ('name', 'description'))
        if raw.get('externalDocs') is not None:
            ret['externalDocs'] = self.external_docs(raw['externalDocs'])
        return ret

    def info(self, raw):
        ret = pick(raw, ('title', 'version', 'description', 'termsOfService'))
        if raw.get('contact') is not None:
            ret['contact'] = pick(raw['contact'], ('name', 'url', 'email'))
        if raw.get('license') is not None:
            ret['license'] = pick(raw['license'], ('name', 'url'))
        return ret

    def schema(self, url, raw):
        if isinstance(raw.get('$ref'), str):
            return self.ref(url, raw['$ref'])
        if raw.get('type') == 'file':
            return {'type': 'string', 'format': 'binary'}
        ret = pick(raw, SCHEMA)
        if raw.get('required'):
            ret['required'] = raw['required']
        for k in ('allOf',):
            if raw.get(k):
                ret[k] = [self.schema(url, s) for s in raw[k]]
        if raw.get('properties'):
            ret['properties'] = {k: self.schema(url, s) for k, s in raw['properties'].items()}
        if raw.get('items') is not None:
            ret['items'] = self.schema(url, raw['items'])
        more = raw.get('additionalProperties')
        if more is not None:
            ret['additionalProperties'] = more if isinstance(more, bool) else self.schema(url, more)
        if raw.get('discriminator'):
            ret['discriminator'] = {'propertyName': raw['discriminator']}
        if raw.get('xml') is not None:
            ret['xml'] = pick(raw['xml'], ('name', 'namespace', 'prefix', 'attribute', 'wrapped'))
        if raw.get('externalDocs') is not None:
            ret['externalDocs'] = self.external_docs(raw['externalDocs'])
        return ret

    def typed(self, raw):
        """ types of parameters, headers, items """
        if raw.get('type') == 'file':
            return {'type': 'string', 'format': 'binary'}
        ret = pick(raw, BASE)
        if raw.get('items') is not None:
            ret['items'] = self.typed(raw['items'])
        return ret

    def style(self, raw, in_):
        if raw.get('type') != 'array':
            return {}
        how = raw.get('collectionFormat') or 'csv'
        if in_ in ('path', 'header'):
            return {'style': 'simple', 'explode': False}
        return dict(zip(('style', 'explode'), STYLES[how]))

    def parameter(self, raw):
        ret = pick(raw, ('name', 'in', 'description', 'required', 'allowEmptyValue'))
        schema = self.typed(raw)
        if schema:
            ret['schema'] = schema
        ret.update(self.style(raw, raw['in']))
        return ret

    def header(self, raw):
        ret = pick(raw, ('description',))
        ret['schema'] = self.typed(raw)
        ret.update(self.style(raw, 'header'))
        return ret

    def response(self, loc, produces):
        at, raw = self.raw(loc)
        if at != loc and raw.get('schema') is None:
            return self.ref(loc[0], self.graph.at(loc)['$ref'])
        ret = pick(raw, ('description',))
        content = {}
        if raw.get('schema') is not None:
            schema = self.schema(at[0], raw['schema'])
            for mime in produces or [ANY]:
                content[mime] = {'schema': schema}
            if raw['schema'].get('type') == 'file':
                # whichever, as long as it is a file
                content = {ANY: {'schema': schema}}
        for mime, example in (raw.get('examples') or {}).items():
            if mime not in content:
                content[mime] = {'schema': schema} if raw.get('schema') is not None else {}
            if example is not None:
                content[mime] = dict(content[mime], example=example)
        if content:
            ret['content'] = content
        if raw.get('headers'):
            ret['headers'] = {k: self.header(h) for k, h in raw['headers'].items()}
        return ret

    def security_scheme(self, raw):
        ret = pick(raw, ('type', 'description', 'name', 'in'))
        if raw['type'] == 'basic':
            ret['type'], ret['scheme'] = 'http', 'basic'
        elif raw['type'] == 'oauth2':
            flow = pick(raw, ('authorizationUrl', 'tokenUrl'))
            flow['scopes'] = dict(raw.get('scopes') or {})
            ret['flows'] = {FLOWS.get(raw['flow'], raw['flow']): flow}
        return ret

    # payloads

    def locate(self, raw_list, loc):
        return [(loc[0], loc[1] + (str(i),)) for i in range(len(raw_list or []))]

    def split(self, locs):
        """ locations of plain parameters, of those that are payload """
        plain, payload = [], []
        for loc in locs:
            (payload if self.is_payload(loc) else plain).append(loc)
        return plain, payload

    def request_body(self, locs, consumes):
        if not locs:
            return None
        raws = [self.raw(loc) for loc in locs]
        bodies = [(at, r) for at, r in raws if r['in'] == 'body']
        ret = {}
        if any(r.get('required') for _, r in raws):
            ret['required'] = True
        if bodies:
            (at, raw), = bodies
            ret.update(pick(raw, ('description',)))
            ret['content'] = {m: {'schema': self.schema(at[0], raw['schema'])} for m in
                              consumes or ['application/json']}
            return ret
        files = any(r.get('type') == 'file' for _, r in raws)
        mimes = [m for m in consumes or [] if m in FORMS]
        if not mimes:
            mimes = [FORMS[1 if files else 0]]
        schema, encoding = {'properties': {}}, {}
        for _, raw in raws:
            prop = self.typed(raw)
            if raw.get('type') != 'file':
                prop.update(pick(raw, ('description',)))
                if raw.get('allowEmptyValue') is True:
                    prop['nullable'] = True
            schema['properties'][raw['name']] = prop
            if raw.get('required'):
                schema.setdefault('required', []).append(raw['name'])
            encoding[raw['name']] = dict(self.style(raw, 'query'), contentType=content_type(raw))
        ret['content'] = {m: {'schema': schema, 'encoding': encoding} for m in mimes}
        return ret

    # operations

    def effective(self, raw, key):
        return raw[key] if raw.get(key) is not None else self.root_raw.get(key)

    def operation(self, loc, inherited):
        raw = self.graph.at(loc)
        ret = pick(raw, ('summary', 'description', 'operationId', 'deprecated', 'tags', 'security'))
        own = self.locate(raw.get('parameters'), (loc[0], loc[1] + ('parameters',)))
        plain, payload = self.split(own)
        if plain:
            ret['parameters'] = [self.parameter_or_ref(p) for p in plain]
        mine = [self.raw(p)[1] for p in own]
        kept = [p for p in inherited if not any(
            o['in'] == self.raw(p)[1]['in'] and (o['in'] == 'body' or o['name'] == self.raw(p)[1]['name'])
            for o in mine)]
        body = self.request_body(kept + payload, self.effective(raw, 'consumes'))
        if body:
            ret['requestBody'] = body
        ret['responses'] = {str(k): self.response((loc[0], loc[1] + ('responses', k)), self.effective(raw, 'produces'))
                            for k in raw.get('responses') or {}}
        if raw.get('externalDocs') is not None:
            ret['externalDocs'] = self.external_docs(raw['externalDocs'])
        if raw.get('schemes') and self.root_raw.get('host'):
            ret['servers'] = [{'url': self.server(s)} for s in raw['schemes']]
        return ret

    def parameter_or_ref(self, loc):
        raw = self.graph.at(loc)
        return self.ref(loc[0], raw['$ref']) if '$ref' in raw else self.parameter(raw)

    def path_item(self, loc):
        raw = self.graph.at(loc)
        ret = {}
        if '$ref' in raw:
            ret.update(self.ref(loc[0], raw['$ref']))
        plain, payload = self.split(self.locate(raw.get('parameters'), (loc[0], loc[1] + ('parameters',))))
        if plain:
            ret['parameters'] = [self.parameter_or_ref(p) for p in plain]
        for m in METHODS:
            if raw.get(m) is not None:
                ret[m] = self.operation((loc[0], loc[1] + (m,)), payload)
        return ret

    # documents

    def server(self, scheme):
        base = self.root_raw.get('basePath') or ''
        return '%s://%s%s' % (scheme, self.root_raw['host'], base or '/')

    def servers(self):
        raw = self.root_raw
        if not raw.get('host'):
            return [{'url': raw.get('basePath') or '/'}]
        return [{'url': self.server(s)} for s in raw.get('schemes') or [ANY]]

    def document(self):
        raw, url = self.root_raw, self.graph.root
        ret = {'openapi': '3.0.0', 'info': self.info(raw['info']), 'servers': self.servers()}
        ret['paths'] = {k: self.path_item((url, ('paths', k))) for k in raw.get('paths') or {}}
        if raw.get('security'):
            ret['security'] = raw['security']
        if raw.get('tags'):
            ret['tags'] = [self.tag(t) for t in raw['tags']]
        if raw.get('externalDocs') is not None:
            ret['externalDocs'] = self.external_docs(raw['externalDocs'])
        parts = {}
        for k, s in (raw.get('definitions') or {}).items():
            parts.setdefault('schemas', {})[k] = self.schema(url, s)
        for k, r in (raw.get('responses') or {}).items():
            parts.setdefault('responses', {})[k] = self.response((url, ('responses', k)), raw.get('produces'))
        for k, s in (raw.get('securityDefinitions') or {}).items():
            parts.setdefault('securitySchemes', {})[k] = self.security_scheme(s)
        for k, p in (raw.get('parameters') or {}).items():
            loc = (url, ('parameters', k))
            if self.is_payload(loc):
                parts.setdefault('requestBodies', {})[k] = self.request_body([loc], None)
            else:
                parts.setdefault('parameters', {})[k] = self.parameter(p)
        if parts:
            ret['components'] = parts
        return ret

    def external(self, kind, loc):
        """ what is found at the end of a reference, outside of the root """
        raw = self.graph.at(loc)
        if kind == 'PathItem':
            return self.path_item(loc)
        if '$ref' in raw:
            return self.ref(loc[0], raw['$ref'])
        if kind == 'Schema':
            return self.schema(loc[0], raw)
        if kind == 'Response':
            return self.response(loc, None)
        return self.parameter(raw)


def content_type(raw):
    while raw.get('type') == 'array' and raw.get('items') is not None:
        raw = raw['items']
    return {'file': 'application/octet-stream', 'object': 'application/json'}.get(raw.get('type'), 'text/plain')


DEFAULTS = {
    'Parameter': ('required', 'deprecated', 'allowEmptyValue', 'allowReserved'),
    'Header': ('required', 'deprecated', 'allowEmptyValue', 'allowReserved'),
    'Operation': ('deprecated',), 'RequestBody': ('required',), 'XML_': ('attribute', 'wrapped'),
    'Schema': ('uniqueItems', 'exclusiveMaximum', 'exclusiveMinimum', 'nullable', 'readOnly', 'writeOnly', 'deprecated'),
    'Encoding': ('allowReserved',),
}


def pinned(want, got):
    """ a reference which leads to a place with more than one spelling """
    if isinstance(want, dict) and isinstance(got, dict) and isinstance(got.get('$ref'), str) and '$ref' in want:
        a, b = want['$ref'].split('/'), got['$ref'].split('/')
        if len(a) == len(b) and all(x == y or x == ANY for x, y in zip(a, b)):
            return dict(want, **{'$ref': got['$ref']})
    return want


def align(kind, want, got, url, trail=None):
    """ bring two ways to write down one and the same to the same form; returns (want, got) """
    spec = g.V3
    if kind[0] == 'b':
        if want is True and got is None or got is True and want is None:
            return None, None
        if isinstance(want, bool) or isinstance(got, bool):
            return want, got
        kind = kind[1]
    if isinstance(got, dict) and isinstance(got.get('$ref'), str) and got['$ref'].startswith('#') and kind[0] in 'ro':
        got = dict(got, **{'$ref': url + got['$ref']})
    if kind[0] == 'r':
        if isinstance(want, dict) and '$ref' in want or isinstance(got, dict) and '$ref' in got:
            return pinned(want, got), got
        kind = ('o', kind[1])
    kind = g.CONTAINER_OBJECTS.get(('3.0.0', kind[1]), kind) if kind[0] == 'o' else kind
    if kind[0] == 'l' and isinstance(want, list) and isinstance(got, list) and len(want) == len(got):
        pairs = [align(kind[1], a, b, url) for a, b in zip(want, got)]
        return [p[0] for p in pairs], [p[1] for p in pairs]
    if kind[0] not in 'mo' or not isinstance(want, dict) or not isinstance(got, dict):
        return want, got
    want, got = dict(want), dict(got)
    if kind[0] == 'm':
        table = {k: kind[1] for k in want}
        if kind[1] == ('o', 'MediaType') and ANY in want:
            rest = [k for k in got if k not in want]
            if len(rest) == 1:
                want[rest[0]] = table[rest[0]] = want.pop(ANY)
                table[rest[0]] = kind[1]
            elif not rest and len(want) > 1:
                # the default one is one of those with an example
                del want[ANY]
    else:
        name = kind[1]
        table = spec.objects[name]
        if name in ('Parameter', 'Header', 'Encoding'):
            for one in (want, got):
                one.setdefault('style', 'simple' if one.get('in', 'query' if name != 'Header' else 'header') in (
                    'path', 'header') else 'form')
                one.setdefault('explode', one['style'] == 'form')
        for k in DEFAULTS.get(name, ()):
            if got.get(k) is False and k not in want:
                del got[k]
        if name == 'Encoding' and 'contentType' not in got:
            got['contentType'] = want.get('contentType')
        if name == 'MediaType':
            for one, other in ((want, got), (got, want)):
                # the encoding of a plain field may be left to the defaults
                for field, enc in (one.get('encoding') or {}).items():
                    other['encoding'] = dict(other.get('encoding') or {})
                    other['encoding'].setdefault(field, {})
            if 'encoding' in want and 'schema' in got:
                got['schema'] = dict(got['schema'])
                if got['schema'].get('type') == 'object':
                    del got['schema']['type']
                for one in (want, got):
                    if isinstance(one['schema'].get('required'), list):
                        one['schema'] = dict(one['schema'], required=sorted(one['schema']['required']))
        if name == 'Server' and isinstance(got.get('url'), str):
            if want.get('url', '').startswith(ANY + '://') and got['url'].partition('://')[0] in ('http', 'https'):
                want['url'] = got['url'].partition('://')[0] + want['url'][len(ANY):]
            scheme, sep, rest = got['url'].partition('://')
            if sep and '/' not in rest:
                got['url'] += '/'
    for k, sub in table.items():
        if sub[0] == 'p' or k not in want and k not in got:
            continue
        a, b = align(sub, want.get(k), got.get(k), url)
        for one, v in ((want, a), (got, b)):
            one.pop(k, None)
            if v is not None:
                one[k] = v
    return want, got


def judge(mon, kind, want, got, url, what, **data):
    """ a model of something against its view """
    want = g.prune(g.V3, kind, want)
    want, got = align(kind, want, got, url)
    mon.counts['oracle_decisions'] += 1
    if not same(want, got):
        mon.fail(what, diff=first_diff(got, want), got=got, expected=want, **data)
