"""C17: the object store behaves as a map from locations to objects."""
from pyopenapi.migration.store import SpecObjStore
from vlib import grammar as g
from vlib.gen import BlankGen
from vlib.drive import build

ID = 'C17'
TITLE = 'object store'
BUDGET = {'quick': 12000, 'thorough': 200000}
NEED = {'get_hit': 20000, 'get_miss': 20000, 'below': 10000, 'under': 5000, 'removed': 700, 'until': 4000,
        'until_older': 300, 'nested_entries': 2000, 'overlaps': 2000}
RULE = ('random histories of stores, lookups, listings, removals and route updates over several urls (one the prefix '
        'of another), versions and nested, prefix-sharing or escaped locations; every answer compared with a '
        'sequential model, object identity included.')
URLS = ['http://h/a.json', 'http://h/a.json2', 'http://h/b.json', 'file:///a.json']
VERS = ['1.2', '2.0', '3.0.0']


class Tree(object):
    """ a document with all of its objects by location, found by plain attribute walking """

    def __init__(self, rng, version):
        spec = g.SPECS[version]
        self.version = version
        gen = BlankGen(rng, version, size=rng.choice([5, 15, 40]), density=0.5, empties=0, refs=0.2)
        name = spec.root if version != '1.2' else 'ApiDeclaration'
        self.raw = gen.obj(name, 0)
        root = build(version, name, self.raw)
        self.at = {(): root}
        self._walk(spec, ('o', name), self.raw, root, ())
        self.objects = [t for t, o in self.at.items() if hasattr(o, 'get_attrs') and not hasattr(o, 'keys')]

    def _walk(self, spec, kind, raw, obj, tokens):
        kind = g.resolve_kind(spec, kind, raw)
        if kind[0] == 'p':
            return
        if kind[0] == 'l':
            if kind[1][0] == 'p' or kind[1] == ('m', ('l', g.S)):
                return                                  # see pointer-primitive-element of C03
            sub = [(str(i), x, obj[i], kind[1]) for i, x in enumerate(raw)]
        elif kind[0] == 'm':
            if kind[1][0] == 'p':
                return
            sub = [(k, v, obj[k], kind[1]) for k, v in raw.items()]
        else:
            sub = [(k, v, getattr(obj, k), kk) for k, kk, v in g.fields(spec, kind[1], raw) if kk[0] != 'p']
        for k, v, o, kk in sub:
            self.at[tokens + (k,)] = o
            self._walk(spec, kk, v, o, tokens + (k,))


_pool = []


def pool(rng, version):
    if len(_pool) < 60:
        _pool.append(Tree(rng, rng.choice(VERS)))
    mine = [t for t in _pool if t.version == version]
    if not mine or rng.random() < 0.2:
        mine = [Tree(rng, version)]
        _pool[rng.randrange(len(_pool))] = mine[0]
    return rng.choice(mine)


def prefix(a, b):
    return b[:len(a)] == a


class Model(object):
    def __init__(self):
        self.entries = {}                   # (url, version) -> {tokens: (tree, shift)}
        self.routes = {}                    # url -> version -> {from tokens: to tokens}

    def entry(self, url, version, tokens):
        """ what is stored at or closest above: (tree, tokens in that tree) """
        best = None
        for at, (tree, shift) in self.entries.get((url, version), {}).items():
            if prefix(at, tokens) and (best is None or len(at) > best[0]):
                best = len(at), tree, shift + tokens[len(at):]
        return best and best[1:]

    def relocate(self, url, tokens, version):
        best = None
        for frm, to in self.routes.get(url, {}).get(version, {}).items():
            if prefix(frm, tokens) and (best is None or len(frm) > len(best[0])):
                best = (frm, to)
        return best[1] + tokens[len(best[0]):] if best else tokens


def case(mon, rng, index, tier):
    del _pool[:]
    store, model = SpecObjStore(), Model()
    urls = rng.sample(URLS, rng.randint(1, 3))
    trees = {v: [pool(rng, v) for _ in range(2)] for v in VERS}
    history = []
    mon.context = {'history': history}
    bases = [(), ('definitions', 'a'), ('definitions', 'ab'), ('definitions', 'a', 'b'), ('definitions', 'a/b'),
             ('paths', '/a'), ('paths', '/a~b'), ('x',), ('components', 'schemas', 'a')]

    def locations(url, version):
        out = []
        for at, (tree, shift) in model.entries.get((url, version), {}).items():
            for t in tree.at:
                if prefix(shift, t):
                    out.append(at + t[len(shift):])
        return out

    def lookup(url, version, tokens):
        jp = g.pointer(tokens)
        hit = model.entry(url, version, tokens)
        try:
            got = store.get(url, jp, version)
        except Exception:  # pylint: disable=broad-except
            got = KeyError
        if hit is None:
            mon.count('get_miss')
            mon.check(got is None, 'something is found where nothing is stored', url=url, jp=jp, version=version)
        elif hit[1] in hit[0].at:
            mon.count('get_hit')
            if tokens not in model.entries[(url, version)]:
                mon.count('below')
            mon.check(got is hit[0].at[hit[1]], 'another object (or none) is found', url=url, jp=jp, version=version,
                      got=repr(got)[:100])
        elif not hit[1] or hit[1][:-1] in hit[0].at and hasattr(hit[0].at[hit[1][:-1]], 'get_attrs') is False:
            mon.check(got is None or got is KeyError, 'a missing child is found', url=url, jp=jp)

    for _ in range(rng.randint(4, 25)):
        op = rng.choice(['set', 'set', 'set', 'sub', 'route', 'under', 'remove', 'until', 'get', 'get'])
        url, version = rng.choice(urls), rng.choice(VERS)
        entries = model.entries.setdefault((url, version), {})
        history.append((op, url, version))
        if op == 'set':
            tree = rng.choice(trees[version])
            shift = rng.choice(tree.objects)
            at = rng.choice(bases)
            if [e for e in entries if prefix(e, at) and e != at or prefix(at, e) and e != at]:
                mon.count('overlaps')
            store.set(tree.at[shift], url, g.pointer(at), version)
            entries[at] = (tree, shift)
            history[-1] += (g.pointer(at),)
        elif op == 'sub' and entries:
            # an object below one that is stored already, on its own
            locs = [t for t in locations(url, version) if hasattr(model.entry(url, version, t)[0].at[
                model.entry(url, version, t)[1]], 'get_attrs')]
            if not locs:
                continue
            at = rng.choice(locs)
            tree, shift = model.entry(url, version, at)
            store.set(tree.at[shift], url, g.pointer(at), version)
            entries[at] = (tree, shift)
            mon.count('nested_entries')
            history[-1] += (g.pointer(at),)
        elif op in ('under', 'remove'):
            locs = locations(url, version)
            cut = rng.choice(bases + locs[:30] + [e[:rng.randint(0, len(e))] for e in entries])
            got = store.get_under(url, g.pointer(cut), version, remove=op == 'remove')
            exp = {}
            for at, (tree, shift) in list(entries.items()):
                if prefix(cut, at):
                    exp[g.pointer(at[len(cut):])[2:]] = tree.at[shift]
                    if op == 'remove':
                        del entries[at]
                        mon.count('removed')
            got = got or {}
            history[-1] += (g.pointer(cut), sorted(exp))
            mon.count('under')
            mon.check(sorted(got) == sorted(exp), 'the wrong locations are listed below %s' % g.pointer(cut),
                      got=sorted(got), expected=sorted(exp))
            mon.check(all(got[k] is exp[k] for k in exp), 'wrong objects are listed')
        elif op == 'route':
            frm, to = rng.choice(bases[1:]), rng.choice(bases[1:])
            model.routes.setdefault(url, {}).setdefault(version, {})[frm] = to
            store.update_routes(url, version, {g.pointer(frm): g.pointer(to)})
            history[-1] += (g.pointer(frm), g.pointer(to))
        elif op == 'until':
            frm = rng.choice(VERS)
            until = rng.choice([None] + VERS[VERS.index(frm):])
            tokens = rng.choice(bases + locations(url, frm)[:20])
            exp, cur = (None, None, None), tokens
            jps = [(frm, tokens)]
            for v in VERS[VERS.index(frm) + 1:(VERS.index(until) + 1 if until else 3)]:
                cur = model.relocate(url, cur, v)
                jps.append((v, cur))
            usable = True
            for v, t in reversed(jps):
                hit = model.entry(url, v, t)
                if hit and (hit[1] not in hit[0].at or not hasattr(hit[0].at[hit[1]], 'get_attrs') or
                            hasattr(hit[0].at[hit[1]], 'keys')):
                    usable = False
                    break
                if hit:
                    exp = (hit[0].at[hit[1]], g.pointer(t), v)
                    break
            if not usable:
                continue
            got = store.get_until(url, g.pointer(tokens), frm, until=until)
            mon.count('until')
            if exp[0] is not None and exp[2] != (until or '3.0.0'):
                mon.count('until_older')
            history[-1] += (g.pointer(tokens), until)
            mon.check(got[0] is exp[0] and got[1:] == exp[1:], 'the newest form is not what is found',
                      got=repr(got)[:200], expected=repr(exp)[:200])
        # after each step, look around
        for _ in range(6):
            u, v = rng.choice(URLS if rng.random() < 0.2 else urls), rng.choice(VERS)
            locs = locations(u, v)
            tokens = rng.choice(locs) if locs and rng.random() < 0.6 else rng.choice(bases) + rng.choice(
                [(), ('properties', 'z'), ('aa',), ('',)])
            lookup(u, v, tokens)
    if len(history) > 4:
        mon.shape(history)
        mon.sample(history[:8])
    for bad in (None, {}, 'x', 3):
        try:
            store.set(bad, urls[0], '#', '2.0')
        except Exception:  # pylint: disable=broad-except
            mon.count('oracle_decisions')
        else:
            mon.fail('something that is no object can be stored')
    try:
        store.get_under(urls[0], '', '2.0', remove=True)
    except Exception:  # pylint: disable=broad-except
        mon.count('oracle_decisions')
    else:
        mon.fail('everything can be removed')
