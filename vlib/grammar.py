"""The three specifications, written down from their published texts.

Independent of the code under test: nothing here is read from the repository.

kinds:
  ('p', type)      primitive / opaque value: str int num bool any strs anys
  ('o', Name)      object
  ('r', Name)      object or reference ({'$ref': ...})
  ('l', kind)      list          ('m', kind)  map with string keys
  ('b', kind)      boolean or kind
"""

S, I, N, B, A, SS, AA = (('p', t) for t in ('str', 'int', 'num', 'bool', 'any', 'strs', 'anys'))


def O(n):
    return ('o', n)


def R(n):
    return ('r', n)


def L(k):
    return ('l', k)


def M(k):
    return ('m', k)


def BK(k):
    return ('b', k)


class Spec(object):
    def __init__(self, version, root, objects, required, refname='Reference', extra_containers=()):
        self.version = version
        self.root = root
        self.objects = objects
        self.required = required            # Name -> set of keys that must be there
        self.refname = refname

    def kind(self, name, key):
        return self.objects[name].get(key)


_base = dict(type=S, format=S, default=A, maximum=N, exclusiveMaximum=B, minimum=N, exclusiveMinimum=B,
             maxLength=I, minLength=I, pattern=S, maxItems=I, minItems=I, uniqueItems=B, enum=AA, multipleOf=N)
_METHODS2 = ('get', 'put', 'post', 'delete', 'options', 'head', 'patch')
_METHODS3 = _METHODS2 + ('trace',)
_sec = L(M(L(S)))

V2 = Spec('2.0', 'Swagger', {
    'Swagger': dict(swagger=S, host=S, basePath=S, info=O('Info'), schemes=L(S), consumes=L(S), produces=L(S),
                    paths=M(O('PathItem')), definitions=M(O('Schema')), parameters=M(O('Parameter')),
                    responses=M(O('Response')), securityDefinitions=M(O('SecurityScheme')), security=_sec,
                    tags=L(O('Tag')), externalDocs=O('ExternalDocumentation')),
    'Info': dict(title=S, version=S, description=S, termsOfService=S, contact=O('Contact'), license=O('License')),
    'Contact': dict(name=S, url=S, email=S),
    'License': dict(name=S, url=S),
    'PathItem': dict([('$ref', S), ('parameters', L(R('Parameter')))] + [(m, O('Operation')) for m in _METHODS2]),
    'Operation': dict(tags=L(S), summary=S, description=S, externalDocs=O('ExternalDocumentation'), operationId=S,
                      consumes=L(S), produces=L(S), parameters=L(R('Parameter')), responses=M(R('Response')),
                      schemes=L(S), deprecated=B, security=_sec),
    'ExternalDocumentation': dict(description=S, url=S),
    'Parameter': dict(_base, name=S, required=B, description=S, schema=O('Schema'), items=O('Items'),
                      collectionFormat=S, allowEmptyValue=B, **{'in': S}),
    'Items': dict(_base, items=O('Items'), collectionFormat=S),
    'Response': dict(description=S, schema=O('Schema'), headers=M(O('Header')), examples=A),
    'Header': dict(_base, description=S, items=O('Items'), collectionFormat=S),
    'Tag': dict(name=S, description=S, externalDocs=O('ExternalDocumentation')),
    'Schema': dict(_base, title=S, description=S, maxProperties=I, minProperties=I, required=SS, discriminator=S,
                   readOnly=B, example=A, xml=O('XMLObject'), externalDocs=O('ExternalDocumentation'),
                   items=O('Schema'), allOf=L(O('Schema')), properties=M(O('Schema')),
                   additionalProperties=BK(O('Schema')), **{'$ref': S}),
    'XMLObject': dict(name=S, namespace=S, prefix=S, attribute=B, wrapped=B),
    'SecurityScheme': dict(type=S, description=S, name=S, flow=S, authorizationUrl=S, tokenUrl=S, scopes=M(S),
                           **{'in': S}),
    'Reference': {'$ref': S},
}, {
    'Swagger': {'swagger', 'info', 'paths'}, 'Info': {'title', 'version'}, 'License': {'name'},
    'Operation': {'responses'}, 'ExternalDocumentation': {'url'}, 'Parameter': {'name', 'in'},
    'Response': {'description'}, 'Tag': {'name'}, 'SecurityScheme': {'type'}, 'Reference': {'$ref'},
})

_schema3 = dict(_base, title=S, description=S, maxProperties=I, minProperties=I, required=SS, nullable=B,
                readOnly=B, writeOnly=B, example=A, deprecated=B, discriminator=O('Discriminator'), xml=O('XML_'),
                externalDocs=O('ExternalDocumentation'), allOf=L(R('Schema')), oneOf=L(R('Schema')),
                anyOf=L(R('Schema')), items=R('Schema'), properties=M(R('Schema')),
                additionalProperties=BK(R('Schema')), **{'not': R('Schema')})
_schema3['default'] = A
_header3 = dict(description=S, required=B, deprecated=B, allowEmptyValue=B, style=S, explode=B, allowReserved=B,
                example=A, examples=M(R('Example')), schema=R('Schema'), content=M(O('MediaType')))

V3 = Spec('3.0.0', 'OpenApi', {
    'OpenApi': dict(openapi=S, info=O('Info'), servers=L(O('Server')), paths=M(O('PathItem')),
                    components=O('Components'), security=_sec, tags=L(O('Tag')),
                    externalDocs=O('ExternalDocumentation')),
    'Info': dict(title=S, version=S, description=S, termsOfService=S, contact=O('Contact'), license=O('License')),
    'Contact': dict(name=S, url=S, email=S),
    'License': dict(name=S, url=S),
    'Server': dict(url=S, description=S, variables=M(O('ServerVariable'))),
    'ServerVariable': dict(enum=L(S), default=S, description=S),
    'Components': dict(schemas=M(R('Schema')), responses=M(R('Response')), parameters=M(R('Parameter')),
                       examples=M(R('Example')), requestBodies=M(R('RequestBody')), headers=M(R('Header')),
                       securitySchemes=M(R('SecurityScheme')), links=M(R('Link')), callbacks=M(R('Callback'))),
    'PathItem': dict([('$ref', S), ('summary', S), ('description', S), ('servers', L(O('Server'))),
                      ('parameters', L(R('Parameter')))] + [(m, O('Operation')) for m in _METHODS3]),
    'Operation': dict(tags=L(S), summary=S, description=S, externalDocs=O('ExternalDocumentation'), operationId=S,
                      parameters=L(R('Parameter')), requestBody=R('RequestBody'), responses=M(R('Response')),
                      callbacks=M(R('Callback')), deprecated=B, security=_sec, servers=L(O('Server'))),
    'ExternalDocumentation': dict(description=S, url=S),
    'Parameter': dict(_header3, name=S, **{'in': S}),
    'Header': dict(_header3),
    'RequestBody': dict(description=S, content=M(O('MediaType')), required=B),
    'MediaType': dict(schema=R('Schema'), example=A, examples=M(R('Example')), encoding=M(O('Encoding'))),
    'Encoding': dict(contentType=S, headers=M(R('Header')), style=S, explode=B, allowReserved=B),
    'Response': dict(description=S, headers=M(R('Header')), content=M(O('MediaType')), links=M(R('Link'))),
    'Example': dict(summary=S, description=S, value=A, externalValue=S),
    'Link': dict(operationRef=S, operationId=S, parameters=M(A), requestBody=A, description=S, server=O('Server')),
    'Tag': dict(name=S, description=S, externalDocs=O('ExternalDocumentation')),
    'Schema': _schema3,
    'Discriminator': dict(propertyName=S, mapping=M(S)),
    'XML_': dict(name=S, namespace=S, prefix=S, attribute=B, wrapped=B),
    'SecurityScheme': dict(type=S, description=S, name=S, scheme=S, bearerFormat=S, flows=O('OAuthFlows'),
                           openIdConnectUrl=S, **{'in': S}),
    'OAuthFlows': dict(implicit=O('OAuthFlow'), password=O('OAuthFlow'), clientCredentials=O('OAuthFlow'),
                       authorizationCode=O('OAuthFlow')),
    'OAuthFlow': dict(authorizationUrl=S, tokenUrl=S, refreshUrl=S, scopes=M(S)),
    'Reference': {'$ref': S},
}, {
    'OpenApi': {'openapi', 'info', 'paths'}, 'Info': {'title', 'version'}, 'License': {'name'}, 'Server': {'url'},
    'ServerVariable': {'default'}, 'ExternalDocumentation': {'url'}, 'Parameter': {'name', 'in'},
    'Operation': {'responses'}, 'RequestBody': {'content'}, 'Response': {'description'}, 'Tag': {'name'},
    'SecurityScheme': {'type'}, 'OAuthFlow': {'scopes'}, 'Reference': {'$ref'}, 'Discriminator': {'propertyName'},
})
# a Callback is a map of path items
CONTAINER_OBJECTS = {('3.0.0', 'Callback'): M(O('PathItem'))}

_data1 = dict(type=S, format=S, defaultValue=A, enum=SS, minimum=S, maximum=S, uniqueItems=B, items=O('Items'),
              **{'$ref': S})
V1 = Spec('1.2', 'ResourceListing', {
    'ResourceListing': dict(swaggerVersion=S, apiVersion=S, apis=L(O('ResourceInListing')), info=O('Info'),
                            authorizations=M(O('Authorization'))),
    'ResourceInListing': dict(path=S, description=S),
    'Info': dict(title=S, description=S, termsOfServiceUrl=S, contact=S, license=S, licenseUrl=S),
    'Authorization': dict(type=S, passAs=S, keyname=S, scopes=L(O('Scope')), grantTypes=O('GrantTypes')),
    'Scope': dict(scope=S, description=S),
    'GrantTypes': dict(implicit=O('Implicit'), authorization_code=O('AuthorizationCode')),
    'Implicit': dict(loginEndpoint=O('LoginEndpoint'), tokenName=S),
    'LoginEndpoint': dict(url=S),
    'AuthorizationCode': dict(tokenRequestEndpoint=O('TokenRequestEndpoint'), tokenEndpoint=O('TokenEndpoint')),
    'TokenRequestEndpoint': dict(url=S, clientIdName=S, clientSecretName=S),
    'TokenEndpoint': dict(url=S, tokenName=S),
    'ApiDeclaration': dict(swaggerVersion=S, apiVersion=S, basePath=S, resourcePath=S, apis=L(O('Api')),
                           models=M(O('Model')), produces=SS, consumes=SS, description=S,
                           authorizations=M(L(O('Authorizations')))),
    'Authorizations': dict(scope=S, description=S),
    'Api': dict(path=S, description=S, operations=L(O('Operation'))),
    'Operation': dict(_data1, method=S, summary=S, notes=S, nickname=S, authorizations=M(L(O('Authorizations'))),
                      parameters=L(O('Parameter')), responseMessages=L(O('ResponseMessage')), produces=SS,
                      consumes=SS, deprecated=S),
    'Parameter': dict(_data1, paramType=S, name=S, description=S, required=B, allowMultiple=B),
    'ResponseMessage': dict(code=I, message=S, responseModel=S),
    'Items': {'$ref': S, 'type': S, 'format': S},
    'Model': dict(id=S, description=S, required=SS, properties=M(O('Property')), subTypes=SS, discriminator=S),
    'Property': dict(_data1, description=S),
}, {
    'ResourceListing': {'swaggerVersion', 'apis'}, 'ResourceInListing': {'path'}, 'Authorization': {'type'},
    'Info': {'title', 'description'},
    'Scope': {'scope'}, 'Implicit': {'loginEndpoint'}, 'LoginEndpoint': {'url'},
    'AuthorizationCode': {'tokenRequestEndpoint', 'tokenEndpoint'}, 'TokenRequestEndpoint': {'url'},
    'TokenEndpoint': {'url'}, 'ApiDeclaration': {'swaggerVersion', 'basePath', 'apis'},
    'Api': {'path', 'operations'}, 'Operation': {'method', 'nickname', 'parameters'},
    'Parameter': {'paramType', 'name'}, 'ResponseMessage': {'code', 'message'}, 'Model': {'id', 'properties'},
    'Authorizations': {'scope'},
})

SPECS = {'1.2': V1, '2.0': V2, '3.0.0': V3}

# required containers: dumped even when they are empty
KEEP_EMPTY = {('3.0.0', 'RequestBody', 'content'), ('3.0.0', 'OAuthFlow', 'scopes'),
              ('1.2', 'ApiDeclaration', 'apis'), ('1.2', 'Model', 'properties')}


def resolve_kind(spec, kind, raw):
    """ for a concrete value, get rid of r / b and container objects:
    returns one of ('p',..) ('o', Name) ('l',..) ('m',..) """
    if kind[0] == 'b':
        if isinstance(raw, bool):
            return B
        kind = kind[1]
    if kind[0] == 'r':
        if isinstance(raw, dict) and '$ref' in raw:
            return ('o', spec.refname)
        kind = ('o', kind[1])
    if kind[0] == 'o' and (spec.version, kind[1]) in CONTAINER_OBJECTS:
        return CONTAINER_OBJECTS[(spec.version, kind[1])]
    return kind


def is_child(kind):
    return kind[0] != 'p'


def fields(spec, name, raw):
    """ (key, kind, value) of what is supported and there """
    table = spec.objects[name]
    for k, v in raw.items():
        kind = table.get(k)
        if kind is not None and v is not None:
            yield k, resolve_kind(spec, kind, v), v


def prune(spec, kind, raw):
    """ what has to be found in a dump: without nulls, without unsupported fields,
    without optional containers that are empty """
    kind = resolve_kind(spec, kind, raw)
    t = kind[0]
    if t == 'p':
        return raw
    if t == 'l':
        return [prune(spec, kind[1], x) for x in raw]
    if t == 'm':
        return {k: prune(spec, kind[1], v) for k, v in raw.items()}
    ret = {}
    for k, sub, v in fields(spec, kind[1], raw):
        if sub[0] in 'lm' and not v and (spec.version, kind[1], k) not in KEEP_EMPTY:
            continue
        ret[k] = prune(spec, sub, v)
    return ret


def walk(spec, kind, raw, tokens=()):
    """ every node below (and including) this one: (tokens, resolved kind, raw) """
    kind = resolve_kind(spec, kind, raw)
    yield tokens, kind, raw
    if kind[0] == 'l':
        for i, x in enumerate(raw):
            for n in walk(spec, kind[1], x, tokens + (str(i),)):
                yield n
    elif kind[0] == 'm':
        for k, v in raw.items():
            for n in walk(spec, kind[1], v, tokens + (k,)):
                yield n
    elif kind[0] == 'o':
        for k, sub, v in fields(spec, kind[1], raw):
            for n in walk(spec, sub, v, tokens + (k,)):
                yield n


def enc(token):
    return token.replace('~', '~0').replace('/', '~1')


def pointer(tokens):
    return '/'.join(['#'] + [enc(str(t)) for t in tokens])
