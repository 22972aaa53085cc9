"""C18: relocation follows the longest matching rule, token by token."""
from pyopenapi.migration.store import SpecObjStore
from vlib.gen import ODD

ID = 'C18'
TITLE = 'pointer relocation'
BUDGET = {'quick': 12000, 'thorough': 300000}
NEED = {'moved': 8000, 'nested': 3000, 'stayed': 10000, 'several_versions': 5000, 'longest': 1500, 'lookalikes': 3000,
        'other_url': 5000}
RULE = ('random rule sets (flat and nested, absolute and relative targets, default rules, several updates) over three '
        'to five versions; random pointers that match, look alike or do not match; judged by a model on token tuples.')
TOK = ['definitions', 'a', 'ab', 'b', 'A', 'a~1b', 'a~0', 'parameters', 'paths', '~1p', '~1p1', '0', '1', '10', '', 'é']


def split(jp):
    return tuple(jp.split('/'))


def apply(rules, jp):
    """ rules: {tokens: ('abs', tokens) | ('rel', tokens) | ('sub', rules)}; jp: tokens """
    fixed, rest, cur = (), jp, rules
    depth = 0
    while True:
        hits = [k for k in cur if rest[:len(k)] == k]
        if not hits:
            return jp, depth, 0
        key = max(hits, key=len)
        kind, what = cur[key]
        fixed_here, rest_here = fixed + key, rest[len(key):]
        if kind == 'sub':
            if not what:
                return jp, depth, 0
            fixed, rest, cur = fixed_here, rest_here, what
            depth += 1
            continue
        if kind == 'abs':
            return what + rest_here, depth, len(hits)
        return fixed + what + rest_here, depth, len(hits)


def case(mon, rng, index, tier):
    toks = rng.sample([t for t in TOK if t], 5) + [rng.choice([o for o in ODD if '/' not in o and '~' not in o])]

    def tk(lo, hi):
        return tuple(rng.choice(toks) for _ in range(rng.randint(lo, hi)))

    def make(depth):
        """ (model rules, real rules) below a prefix """
        model, real = {}, {}
        for _ in range(rng.randint(1, 4)):
            key = tk(1, 2)
            # a longer string is a longer match: equal numbers of tokens only match one pointer
            if key in model:
                continue
            r = rng.random()
            if depth and r < 0.4:
                m, x = make(depth - 1)
                if rng.random() < 0.4:
                    to = ('#',) + tk(1, 2)
                    m[()] = ('abs', to)
                    x[''] = '/'.join(to)
                model[key], real['/'.join(key)] = ('sub', m), x
            elif r < 0.5:
                model[key], real['/'.join(key)] = ('sub', {}), {}
            elif r < 0.75:
                to = tk(1, 2)
                model[key], real['/'.join(key)] = ('rel', to), '/'.join(to)
            else:
                to = ('#',) + tk(1, 3)
                model[key], real['/'.join(key)] = ('abs', to), '/'.join(to)
        return model, real

    versions = ['1.2', '2.0', '3.0.0'] if rng.random() < 0.5 else rng.choice(
        [['2.0', '3.0', '4.0', '10.0'], ['1.2', '2.0', '2.1', '2.10', '3.0.0'], ['1.9', '1.10', '3.0.0']])
    default = versions == ['1.2', '2.0', '3.0.0'] and rng.random() < 0.5
    store = SpecObjStore() if default else SpecObjStore(migratable_spec_versions=versions)
    urls = ['http://h/a', 'http://h/ab', 'file:///x']
    rules = {u: {v: {} for v in versions} for u in urls[:2]}
    for u in urls[:2]:
        for v in rng.sample(versions, rng.randint(1, len(versions))):
            for _ in range(rng.randint(1, 2)):
                if rng.random() < 0.6:
                    m, x = make(2)
                    prefix = ('#',) if rng.random() < 0.7 else ('#',) + tk(1, 2)
                    m, x = {prefix: ('sub', m)}, {'/'.join(prefix): x}
                else:
                    m, x = {}, {}
                    for _ in range(rng.randint(1, 3)):
                        frm, to = ('#',) + tk(1, 3), ('#',) + tk(1, 3)
                        m[frm], x['/'.join(frm)] = ('abs', to), '/'.join(to)
                rules[u][v].update(m)
                store.update_routes(u, v, x)
    # an url some version has rules of, and another without any
    known = set()
    for u in urls[:2]:
        if any(rules[u].values()):
            known.add(u)

    def keys(rs, base=()):
        for k, (kind, what) in rs.items():
            yield base + k
            if kind == 'sub':
                for s in keys(what, base + k):
                    yield s

    for _ in range(12):
        u = rng.choice(urls)
        pool = [k for v in versions for k in keys(rules.get(u, {}).get(v, {}))]
        if pool and rng.random() < 0.7:
            jp = rng.choice(pool)
            r = rng.random()
            if r < 0.5:
                jp = jp + tuple(rng.choice(TOK) for _ in range(rng.randint(1, 3)))
            elif r < 0.7 and len(jp) > 1:
                jp = jp[:-1] + (jp[-1] + rng.choice(['x', '1', '~1', ' ']),)
                mon.count('lookalikes')
            elif r < 0.8 and len(jp) > 1:
                jp = jp[:-1]
        else:
            jp = ('#',) + tuple(rng.choice(TOK) for _ in range(rng.randint(0, 4)))
        a, b = sorted(rng.sample(range(len(versions)), 2))
        if rng.random() < 0.15:
            b = a
        frm, to = versions[a], versions[b]
        mon.context = {'url': u, 'rules': repr(rules.get(u)), 'pointer': '/'.join(jp), 'from': frm, 'to': to}
        exp, steps = jp, 0
        for v in versions[a + 1:b + 1]:
            new, depth, hits = apply(rules.get(u, {}).get(v, {}), exp)
            if hits > 1:
                mon.count('longest')
            if hits:
                steps += 1
                if depth:
                    mon.count('nested')
            exp = new
        got = store.relocate(u, '/'.join(jp), frm, to)
        mon.equal(got, '/'.join(exp), 'relocated to another place', pointer='/'.join(jp), frm=frm, to=to)
        if to == '3.0.0':
            mon.equal(store.relocate(u, '/'.join(jp), frm), got, 'default version of relocation')
        mon.count('moved' if steps else 'stayed')
        if u not in known:
            mon.count('other_url')
            mon.equal(got, '/'.join(jp), 'a pointer of another document is relocated')
        if b - a > 1:
            mon.count('several_versions')
            cur = '/'.join(jp)
            for v0, v1 in zip(versions[a:b], versions[a + 1:b + 1]):
                cur = store.relocate(u, cur, v0, v1)
            mon.equal(cur, got, 'relocating step by step gives another place')
        mon.shape([mon.context['rules'], mon.context['pointer'], frm, to])
    if index < 40:
        mon.sample(mon.context)
    for u in known:
        for fn in (lambda: store.relocate(u, '#/a', versions[0], '9.9'), lambda: store.update_routes(u, '9.9', {})):
            try:
                fn()
            except Exception:  # pylint: disable=broad-except
                mon.count('oracle_decisions')
            else:
                mon.fail('an unknown version is accepted')
