"""Seeded generators of documents, driven by the grammar."""
from .grammar import SPECS, resolve_kind, CONTAINER_OBJECTS

WORDS = ['pet', 'Pet', 'PetTag', 'user', 'order', 'item', 'a', 'b', 'id', 'name', 'type', 'status', 'x']
ODD = ['a/b', 'a~b', '~1', '~0', 'a~1b', '/', '~', 'ü', '漢字', 'a b', 'a.b', 'a#b', '100%', 'a%2Fb', 'a?b', '0', '1',
       '01', '-1', 'get', 'items', 'properties', '$x', 'default', 'ref', 'dump', '__class__', 'path', "q'\"", 'a\\b',
       'parameters', 'é', '{id}', 'A!##!B', 'title', 'spec', 'children', '$ref', 'x-pet', 'Content-Type', 'Accept',
       'Authorization', 'X-Rate', 'mapping', 'null', 'true', 'on']


def word(rng, odd=0.25):
    if rng.random() < odd:
        return rng.choice(ODD)
    w = rng.choice(WORDS)
    return w if rng.random() < 0.5 else w + str(rng.randrange(40))


def text(rng):
    r = rng.random()
    if r < 0.1:
        return ''
    if r < 0.3:
        return rng.choice(ODD)
    return ' '.join(rng.choice(WORDS) for _ in range(rng.randint(1, 3))) + str(rng.randrange(1000))


def anyval(rng, depth=2):
    r = rng.randrange(9 if depth > 0 else 6)
    if r == 0:
        return text(rng)
    if r == 1:
        return rng.choice([0, 1, -1, 7, 10 ** 12, rng.randrange(1000)])
    if r == 2:
        return rng.choice([0.0, 1.5, -2.25, 1e300])
    if r == 3:
        return rng.choice([True, False])
    if r == 4:
        return text(rng)
    if r == 5:
        return rng.choice([0, '', False, 'x', 3])
    if r == 6:
        return [anyval(rng, depth - 1) for _ in range(rng.randint(0, 3))]
    return {word(rng): anyval(rng, depth - 1) if rng.random() < 0.9 else None for _ in range(rng.randint(0, 3))}


def prim(rng, t):
    if t == 'str':
        return text(rng)
    if t == 'int':
        return rng.choice([0, 1, 2, 10, rng.randrange(10000)])
    if t == 'num':
        return rng.choice([0, 1, -1, 0.0, 1.5, -2.25, rng.randrange(1000)])
    if t == 'bool':
        return rng.random() < 0.5
    if t == 'strs':
        return [text(rng) for _ in range(rng.randint(0, 3))]
    if t == 'anys':
        return [anyval(rng, 1) for _ in range(rng.randint(0, 3))]
    return anyval(rng)


class DocGen(object):
    """ any document the grammar allows, references are syntactic only """
    blank = 0           # how many keys of maps are empty strings

    def __init__(self, rng, version, size=40, density=0.3, empties=0.06, nulls=0.0, refs=0.15, extensions=0.0,
                 bools=0.4):
        self.rng = rng
        self.spec = SPECS[version]
        self.budget = size
        self.density = density
        self.empties = empties
        self.nulls = nulls
        self.refs = refs
        self.extensions = extensions
        self.bools = bools

    def doc(self, name=None):
        return self.obj(name or self.spec.root, 0)

    def ref(self):
        return self.rng.choice(['#/a/b', 'x.json', 'http://h/y.json#/definitions/Q', '#/definitions/' + word(self.rng)])

    def kind(self, kind, depth, hint=''):
        rng = self.rng
        t = kind[0]
        if t == 'p':
            return prim(rng, kind[1])
        if t == 'b':
            if rng.random() < self.bools:
                return rng.random() < 0.5
            return self.kind(kind[1], depth)
        if t == 'r':
            if rng.random() < self.refs:
                return {'$ref': self.ref()}
            return self.kind(('o', kind[1]), depth)
        if t == 'o':
            cont = CONTAINER_OBJECTS.get((self.spec.version, kind[1]))
            return self.kind(cont, depth) if cont else self.obj(kind[1], depth)
        if self.budget <= 0 or rng.random() < self.empties:
            n = 0 if rng.random() < 0.5 else 1
        else:
            n = rng.choice([1, 1, 2, 2, 3])
        if depth > 9:
            n = 0
        if t == 'l':
            return [self.kind(kind[1], depth + 1) for _ in range(n)]
        ret = {}
        for _ in range(n):
            k = '' if self.blank and rng.random() < self.blank else word(rng)
            if hint == 'paths':
                k = '/' + k
            elif hint == 'responses' and rng.random() < 0.6:
                k = rng.choice(['200', '404', 'default', '4XX'])
            ret[k] = self.kind(kind[1], depth + 1)
        return ret

    def obj(self, name, depth):
        rng = self.rng
        self.budget -= 1
        table = self.spec.objects[name]
        required = self.spec.required.get(name, ())
        ret = {}
        keys = sorted(table)
        rng.shuffle(keys)
        for k in keys:
            kind = table[k]
            if k == '$ref' and name != 'Reference':
                if rng.random() < self.refs * 0.5:
                    ret[k] = self.ref()
                continue
            p = 1.0 if k in required else self.density
            if kind[0] != 'p':
                if depth > 8:
                    p = 1.0 if k in required else 0.0
                elif self.budget <= 0:
                    p = 1.0 if k in required else 0.03
                elif depth == 0:
                    p = max(p, 0.6)
            if rng.random() >= p:
                continue
            if self.nulls and k not in required and rng.random() < self.nulls:
                ret[k] = None
                continue
            ret[k] = self.kind(kind, depth + 1, hint=k)
        if self.extensions and rng.random() < self.extensions:
            ret['x-' + rng.choice(WORDS)] = anyval(rng)
        if name == 'Swagger':
            ret['swagger'] = '2.0'
        elif name == 'OpenApi':
            ret['openapi'] = '3.0.0'
        elif name in ('ResourceListing', 'ApiDeclaration'):
            ret['swaggerVersion'] = '1.2'
        elif name == 'Reference':
            ret['$ref'] = self.ref()
        return ret


class BlankGen(DocGen):
    """ empty strings as keys, too """
    blank = 0.04
