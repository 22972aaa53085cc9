"""C03: JSON pointers, paths, parents and children all describe the same tree."""
import copy
from vlib import graph, grammar as g
from vlib.core import Violation, same
from vlib.gen import BlankGen
from vlib.drive import World, build, App, jref, parser_of
from vlib.view import view, quirk_name
from checks.c12_sources import int_codes

ID = 'C03'
TITLE = 'JSON pointer navigation'
BUDGET = {'quick': 2500, 'thorough': 50000}
NEED = {'pointers': 20000, 'children': 5000, 'invalid_pointers': 1000, 'resolved_by_app': 2000, 'nothing_much': 5000, 'in_apps': 5000,
        'in_other_documents': 1500, 'codes': 50}
RULE = ('random documents with hostile keys; every location the grammar says is in the document is visited by pointer '
        'tokens, by child listing and through the app, and compared with plain indexing of the raw document; pointers '
        'that lead nowhere (unknown keys, bad indices, beyond primitives, python attributes) must be rejected.')


def expected(spec, kind, raw):
    return g.prune(spec, kind, raw)


def no_resolve(e):
    return isinstance(e, AttributeError) and str(e).endswith("object has no attribute 'resolve'")


def accepted(bad, kind, raw):
    """ invalid pointers that are known to be accepted """
    if kind[0] == 'l':
        return bad[-1] in ('-1', '00') and len(raw) > 0
    if kind[0] == 'p':
        return True                 # what follows a value is ignored
    return kind[0] == 'o' and bad[-1] in ATTRIBUTES


ATTRIBUTES = ['dump', 'spec', 'children', 'get_path', '__class__', 'resolve', 'attrs']


def bad_pointers(rng, spec, kind, raw, tokens):
    kind = g.resolve_kind(spec, kind, raw)
    if kind[0] == 'l':
        yield tokens + (str(len(raw)),)
        yield tokens + ('-1',)
        yield tokens + ('00',)
        yield tokens + ('x',)
    elif kind[0] == 'm':
        yield tokens + ('no such key',)
    elif kind[0] == 'o':
        yield tokens + (rng.choice(['nope', 'no such', 'x'] + ATTRIBUTES),)
    elif isinstance(raw, (str, int, float, bool)):
        yield tokens + (rng.choice(['x', '0', 'upper', 'real']),)


def in_apps(mon, rng):
    """ paths of what was loaded are references to where it was, however it was asked for """
    version = rng.choice(['2.0', '3.0.0'])
    gr = graph.make(rng, version, size=rng.choice([6, 15]))
    mon.context = {'version': version, 'root': gr.root, 'docs': gr.docs}
    docs = copy.deepcopy(gr.docs)
    if version == '2.0' and rng.random() < 0.7:
        # response codes as they are loaded from YAML
        mon.count('codes', int_codes(gr, docs))
    app = App(gr.root, resolver=World(docs).resolver())
    app.raw = app.load_obj(gr.root + rng.choice(['', '#']))
    found = []
    for url in gr.docs:
        for base, kind in gr.roots[url]:
            for tokens, k, raw in g.walk(gr.spec, kind, gr.at((url, base))):
                if k[0] == 'o' and k[1] in graph.REFERABLE[version] and not isinstance(raw.get('$ref'), str):
                    found.append(((url, base + tokens), k[1]))
    for loc, name in rng.sample(found, min(len(found), rng.choice([0, 0, 2, 4]))) if same(docs, gr.docs) else ():
        got, _ = app.resolve_obj(jref(loc), from_spec_version=version, parser=parser_of(version, name))
        mon.equal(got.get_path(), loc[0] + g.pointer(loc[1]), 'path of a resolved object is not where it is')
    app.root = app.migrate_obj(app.raw, gr.root, version)
    for e in graph.explore(gr, app.root):
        if e[0] == 'node' and hasattr(e[4], 'get_path'):
            mon.equal(e[4].get_path(), e[1][0] + g.pointer(e[1][1]), 'path of an object of an app is not where it is')
            mon.count('in_apps')
            if e[1][0] != gr.root:
                mon.count('in_other_documents')
    mon.shape([gr.docs])


def case(mon, rng, index, tier):
    if index % 4 == 3 and index % 8 == 7:
        return in_apps(mon, rng)
    version = ('2.0', '3.0.0', '3.0.0', '1.2')[index % 4]
    spec = g.SPECS[version]
    gen = BlankGen(rng, version, size=rng.choice([5, 20, 50]), density=rng.choice([0.2, 0.4, 0.8]),
                 empties=rng.choice([0, 0.2]), refs=0.2)
    name = spec.root if version != '1.2' else 'ApiDeclaration'
    raw = gen.obj(name, 0)
    mon.context = {'version': version, 'raw': raw}
    root = build(version, name, raw)
    mon.check(root.get_path() == '#' and root.get_parent() is None, 'path or parent of the root')
    app = None
    if version != '1.2':
        url = 'http://h/d/a.json'
        app = App(url, resolver=World({url: raw}).resolver())
        app.load_obj(url)
    nodes = list(g.walk(spec, ('o', name), raw))
    kinds = {t: k for t, k, _ in nodes}
    seen = {}
    for tokens, kind, sub in nodes:
        mon.count('pointers')
        bare = kind[0] == 'p' and kinds[tokens[:-1]][0] in 'lm'     # a value that is an element of a container
        try:
            got = root.resolve(list(tokens))
        except AttributeError as e:
            if bare and no_resolve(e):
                mon.known_finding('pointer-primitive-element')
                continue
            raise
        mon.equal(view(spec, kind, got), expected(spec, kind, sub), 'pointer leads to something else',
                  tokens=tokens)
        mon.check(root.resolve(list(tokens)) is got or kind[0] == 'p', 'a pointer resolved twice gives two objects',
                  tokens=tokens)
        if kind[0] != 'p':
            seen[tokens] = got
            mon.equal(got.get_path(), g.pointer(tokens), 'path of an object is not where it is', tokens=tokens)
            if tokens and got.get_parent() is None and not sub and kind[0] in 'lm' and kinds[tokens[:-1]][0] == 'o':
                mon.known_finding('parent-of-empty-container')
            elif tokens:
                mon.check(got.get_parent() is seen[tokens[:-1]], 'parent is not the object that contains it',
                          tokens=tokens)
        if app is not None and rng.random() < 0.4 and tokens and '%' not in ''.join(tokens):
            if sub is not None:
                if not sub:
                    mon.count('nothing_much')
                res, ref = app.resolve_obj(rng.choice(['', 'http://h/d/a.json']) + g.pointer(tokens), version)
                mon.count('resolved_by_app')
                if kind[0] == 'p':
                    mon.equal(res, sub, 'the app resolves a pointer to something else', tokens=tokens)
                else:
                    mon.equal(view(spec, kind, res), expected(spec, kind, sub),
                              'the app resolves a pointer to something else', tokens=tokens)
                    mon.equal(ref, 'http://h/d/a.json' + g.pointer(tokens), 'the app reports another location')
        # a pointer into an opaque value
        if kind[0] == 'p' and isinstance(sub, (dict, list)) and sub:
            k = rng.choice(sorted(sub)) if isinstance(sub, dict) else str(rng.randrange(len(sub)))
            inner = sub[k] if isinstance(sub, dict) else sub[int(k)]
            mon.count('pointers_into_values')
            mon.equal(root.resolve(list(tokens) + [k]), inner, 'pointer into a value leads elsewhere', tokens=tokens)
        for bad in bad_pointers(rng, spec, kind, sub, tokens):
            if kind[0] == 'm' and bad[-1] in sub:
                continue
            if kind[0] == 'o' and bad[-1] in spec.objects[kind[1]]:
                continue
            ways = [('', lambda: root.resolve(list(bad)))]
            if app is not None and rng.random() < 0.1 and '%' not in ''.join(bad):
                ways.append(('the app: ', lambda: app.resolve_obj(g.pointer(bad), version)))
            for who, way in ways:
                try:
                    got = way()
                except Exception:  # pylint: disable=broad-except
                    mon.count('invalid_pointers')
                    continue
                if accepted(bad, kind, sub):
                    mon.known_finding('pointer-to-nothing')
                    continue
                mon.fail('%sa pointer that leads nowhere gives %r' % (who, got), tokens=bad)
    # listing of children: all objects right below, named by encoded relative pointer
    objs = {t: o for t, o in seen.items() if g.resolve_kind(spec, ('o', name), raw)}

    def below(t0):
        """ nearest objects below, going through containers only """
        out = {}
        for t, k in kinds.items():
            if k[0] != 'o' or len(t) <= len(t0) or t[:len(t0)] != t0:
                continue
            if all(kinds[t[:n]][0] in 'lm' for n in range(len(t0) + 1, len(t))):
                rel = t[len(t0):]
                out['/'.join(g.enc(x) for x in rel)] = objs[t]
                quirk[quirk_name(rel, kinds[t0][0] == 'o')] = '/'.join(g.enc(x) for x in rel)
        return out

    for t, o in objs.items():
        if len(objs) > 60 and rng.random() < 0.7:
            continue
        got, quirk = dict(o.get_children()), {}
        exp = below(t)
        if set(got) != set(exp) and set(got) == set(quirk):
            mon.known_finding('children-names')
            got = {quirk[k]: v for k, v in got.items()}
        mon.check(set(got) == set(exp), 'children are listed wrong: %s vs %s' % (sorted(got)[:5], sorted(exp)[:5]),
                  tokens=t)
        for k in got:
            mon.check(got[k] is exp[k], 'child %s is another object than the pointer leads to' % k, tokens=t)
        mon.count('children', len(got))
        if kinds[t][0] == 'o':
            mon.equal(sorted(o.get_field_names()), sorted(
                k for k in o.get_field_names() if k in spec.objects[kinds[t][1]]
                or k.startswith('x-') or (kinds[t][1] == 'Header' and k in ('name', 'in'))),
                'field names that are not in the specification', tokens=t)
            mon.check(set(spec.objects[kinds[t][1]]) <= set(o.get_field_names()), 'a field is not listed', tokens=t)
    if len(nodes) > 5:
        mon.shape(raw)
        if len(nodes) < 20:
            mon.sample(raw)
