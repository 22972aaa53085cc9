"""C02: every field reads back, by name and by snake_case name."""
import re
from vlib import grammar as g
from vlib.core import same
from vlib.gen import BlankGen, anyval, prim
from vlib.drive import build
from vlib.view import view, judge_dump

ID = 'C02'
TITLE = 'field access'
BUDGET = {'quick': 30000, 'thorough': 400000}
NEED = {'present_reads': 20000, 'absent_reads': 20000, 'alias_reads': 5000, 'required_missing': 200, 'writes': 200}
RULE = ('random objects of every type of the three specifications, every specified field (present or absent) is read '
        'under its own and its snake_case name, is_set is asked, reads are repeated, references are rewritten, and '
        'required fields are removed one at a time. Distinct by content; non-trivial when some field is present.')

ALIAS_SPECIAL = {'openIdConnectUrl': 'openid_connect_url'}
NO_ALIAS = {('2.0', 'SecurityScheme', 'authorizationUrl'), ('2.0', 'SecurityScheme', 'tokenUrl')}
KEYWORD_ALIAS = {
    '1.2': {('*', 'type', 'type_'), ('*', 'format', 'format_'), ('Model', 'id', 'id_')},
    '2.0': {('*', 'type', 'type_'), ('*', 'in', 'in_'), ('*', 'format', 'format_')},
    '3.0.0': {('Schema', 'type', 'type_'), ('SecurityScheme', 'type', 'type_'), ('Parameter', 'in', 'in_'),
              ('SecurityScheme', 'in', 'in_'), ('Schema', 'not', 'not_'), ('Schema', 'xml', 'xml_'),
              ('Schema', 'enum', 'enum_'), ('Schema', 'format', 'format_'), ('ServerVariable', 'enum', 'enum_')},
}
REFS = {('1.2', 'Operation'), ('1.2', 'Parameter'), ('1.2', 'Property'), ('1.2', 'Items'), ('2.0', 'Schema'),
        ('2.0', 'PathItem'), ('2.0', 'Reference'), ('3.0.0', 'PathItem'), ('3.0.0', 'Reference')}
DEFAULTS = {('2.0', 'Items', 'collectionFormat'): 'csv', ('2.0', 'Parameter', 'collectionFormat'): 'csv',
            ('2.0', 'Header', 'collectionFormat'): 'csv', ('2.0', 'Schema', 'required'): []}
# reading one of these from an object that lacks it must not go unnoticed
REQUIRED = {
    '3.0.0': {'Info': ['title', 'version'], 'License': ['name'], 'Server': ['url'], 'ServerVariable': ['default'],
              'ExternalDocumentation': ['url'], 'Parameter': ['name', 'in'], 'Response': ['description'],
              'Tag': ['name'], 'SecurityScheme': ['type'], 'Reference': ['$ref'], 'RequestBody': ['content'],
              'OAuthFlow': ['scopes']},
    '1.2': {'ResourceListing': ['swaggerVersion'], 'Scope': ['scope'], 'LoginEndpoint': ['url'],
            'Implicit': ['loginEndpoint'], 'TokenRequestEndpoint': ['url'], 'TokenEndpoint': ['url'],
            'ResponseMessage': ['code', 'message'], 'Parameter': ['paramType', 'name'],
            'Operation': ['method', 'nickname'], 'Api': ['path'], 'Model': ['id', 'properties'],
            'ApiDeclaration': ['swaggerVersion', 'basePath', 'apis'], 'Info': ['title', 'description']},
    '2.0': {},
}


def aliases(version, name, key):
    if key == '$ref':
        return ['ref'] if (version, name) in REFS else []
    if (version, name, key) in NO_ALIAS:
        return []
    out = []
    if re.search('[A-Z]', key):
        out.append(ALIAS_SPECIAL.get(key) or re.sub('([A-Z])', lambda m: '_' + m.group(1).lower(), key))
    for owner, k, alias in KEYWORD_ALIAS[version]:
        if k == key and owner in ('*', name):
            if owner == '*' and name in ('XMLObject',):
                continue
            out.append(alias)
    if version == '1.2' and key == 'type' and name not in ('Operation', 'Parameter', 'Property', 'Items',
                                                           'Authorization'):
        out = [a for a in out if a != 'type_']
    if version == '1.2' and key == 'id' and name != 'Model':
        out = []
    return out


def case(mon, rng, index, tier):
    version = ('1.2', '2.0', '3.0.0')[index % 3]
    spec = g.SPECS[version]
    names = sorted(spec.objects)
    name = names[(index // 3) % len(names)]
    gen = BlankGen(rng, version, size=rng.choice([3, 8, 20]), density=rng.choice([0.2, 0.5, 0.9]),
                 empties=rng.choice([0, 0.3]), refs=0.3)
    raw = gen.obj(name, 1)
    mon.context = {'version': version, 'type': name, 'raw': raw}
    obj = build(version, name, raw)
    for tokens, kind, sub in list(g.walk(spec, ('o', name), raw)):
        if kind[0] != 'o':
            continue
        node = obj
        for t in tokens:                        # plain attribute / index access, no pointer machinery
            if hasattr(node, '__getitem__'):
                node = node[int(t)] if not hasattr(node, 'keys') else node[t]
            else:
                node = getattr(node, t)
        table = spec.objects[kind[1]]
        for key in table:
            names_ = [key] + aliases(version, kind[1], key)
            mon.check(node.is_set(key) is (key in sub), 'is_set(%r) of %s is wrong' % (key, kind[1]), at=tokens)
            for n in names_:
                if key in sub:
                    got = getattr(node, n)
                    sk = g.resolve_kind(spec, table[key], sub[key])
                    if sk[0] == 'p':
                        mon.equal(got, sub[key], '%s.%s reads back wrong' % (kind[1], n), at=tokens)
                    else:
                        mon.equal(view(spec, sk, got), g.prune(spec, sk, sub[key]),
                                  '%s.%s reads back wrong' % (kind[1], n), at=tokens)
                        if sk[0] in 'lm':
                            mon.check(len(got) == len(sub[key]), '%s.%s has a wrong length' % (kind[1], n), at=tokens)
                        if sk[0] == 'm':
                            mon.equal(sorted(got.keys()), sorted(sub[key]), 'keys of %s.%s' % (kind[1], n), at=tokens)
                            for k in sub[key]:
                                mon.check(k in got and got.get(k) is got[k], 'lookup of %r in %s.%s' % (k, kind[1], n))
                            mon.check('no such key!' not in got and got.get('no such key!', 5) == 5,
                                      'absent key found in %s.%s' % (kind[1], n))
                            mon.check([k for k, _ in got.items()] == list(sub[key]),
                                      'order of %s.%s differs from the document' % (kind[1], n), at=tokens)
                        if sk[0] in 'lmo':
                            mon.check(getattr(node, n) is got, 'two reads of %s.%s give two objects' % (kind[1], n))
                    mon.count('present_reads')
                else:
                    if key in REQUIRED[version].get(kind[1], ()) or (version == '3.0.0' and kind[1] == 'Header' and
                                                                     key in ('name', 'in')):
                        continue
                    mon.equal(getattr(node, n), DEFAULTS.get((version, kind[1], key)),
                              'absent %s.%s does not read as its default' % (kind[1], n), at=tokens)
                    mon.count('absent_reads')
                if n != key:
                    mon.count('alias_reads')
    if raw:
        mon.shape([version, name, raw])
    # required fields that are missing are reported, not invented
    for key in REQUIRED[version].get(name, ()):
        cut = dict(raw)
        cut.pop(key, None)
        try:
            got = getattr(build(version, name, cut), key)
        except Exception:  # pylint: disable=broad-except
            mon.count('required_missing')
            mon.count('oracle_decisions')
        else:
            mon.fail('required %s.%s is missing, but reading it gives %r' % (name, key, got))
    # references may be rewritten, through either name, without touching the loaded document
    if (version, name) in REFS and version != '1.2':
        before = dict(raw)
        via = rng.choice(['ref', '$ref'])
        new = '#/new/%d' % rng.randrange(1000)
        setattr(obj, via, new)
        mon.check(obj.ref == new and getattr(obj, '$ref') == new and obj.is_set('$ref'),
                  'a reference written through %s does not read back' % via)
        mon.equal(raw, before, 'writing a reference changed the document it came from')
        rest = dict(raw)
        rest['$ref'] = new
        mon.equal(view(spec, ('o', name), obj), g.prune(spec, ('o', name), rest),
                  'writing a reference changed something else')
        dumped = judge_dump(mon, spec, ('o', name), rest, obj, 'dump after writing a reference')
        mon.check(dumped is None or dumped.get('$ref') == new, 'a rewritten reference is not dumped')
        mon.count('writes')
    if index < 200:
        mon.sample(mon.context)
