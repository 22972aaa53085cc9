"""C10: structural comparison of JSON containers."""
import copy
from pyopenapi.utils import compare_container
from vlib import grammar as g
from vlib.gen import word

ID = 'C10'
TITLE = 'container comparison'
BUDGET = {'quick': 20000, 'thorough': 500000}
NEED = {'equal': 20000, 'differences': 40000, 'filtered': 8000, 'keys': 5000, 'scalars': 5000, 'lengths': 3000,
        'types': 3000, 'mixed': 500}
RULE = ('random JSON values with homogeneous lists, changed in 0-4 known places; the set of reported differences '
        'compared with an independent comparison, with and without filters of keys. A list that mixes types is '
        'compared when it equals, and rejected or reported when it does not.')


def scalar(rng, t=None):
    t = t or rng.choice(['s', 'i', 'f', 'b', 'n'])
    if t == 's':
        return rng.choice(['', 'a', 'b', 'x/y', '~', '10', '9', 'A', 'é']) + rng.choice(['', '', '1'])
    if t == 'i':
        return rng.choice([0, 2, -1, 3, 10, 100, 7])
    if t == 'f':
        return rng.choice([0.5, 1.5, -2.25])
    if t == 'b':
        return rng.random() < 0.5
    return None


def value(rng, depth):
    r = rng.random()
    if depth <= 0 or r < 0.3:
        return scalar(rng)
    if r < 0.6:
        return {word(rng): value(rng, depth - 1) for _ in range(rng.randint(0, 4))}
    n = rng.choice([0, 1, 2, 3, 5, 12])
    kind = rng.choice(['s', 'i', 'f', 'dict', 'dict'])
    if kind == 'dict':
        return [{word(rng): value(rng, depth - 2) for _ in range(rng.randint(0, 3))} for _ in range(min(n, 4))]
    return [scalar(rng, kind) for _ in range(n)]


def slots(v, path=()):
    yield path
    if isinstance(v, dict):
        for k in v:
            for s in slots(v[k], path + (k,)):
                yield s
    elif isinstance(v, list):
        for i, x in enumerate(v):
            for s in slots(x, path + (i,)):
                yield s


def at(v, path):
    for p in path:
        v = v[p]
    return v


def mutate(rng, v):
    """ a copy, changed somewhere """
    v = copy.deepcopy(v)
    path = rng.choice(list(slots(v)))
    node = at(v, path)
    if isinstance(node, dict) and (rng.random() < 0.6 or not path):
        if node and rng.random() < 0.5:
            del node[rng.choice(sorted(node))]
        else:
            node[word(rng) + 'new'] = value(rng, 1)
        return v
    if isinstance(node, list) and (rng.random() < 0.6 or not path):
        if node and rng.random() < 0.5:
            node.pop(rng.randrange(len(node)))
        elif node:
            node.append(copy.deepcopy(rng.choice(node)))
        else:
            node.append(scalar(rng, 's'))
        return v
    if not path:
        return value(rng, 2)
    parent = at(v, path[:-1])
    if isinstance(parent, list):
        # stay of one type
        if isinstance(node, dict):
            node[word(rng) + 'new'] = 1
        elif node is not None:
            t = {str: 's', int: 'i', float: 'f'}[type(node)]
            parent[path[-1]] = scalar(rng, t)
    else:
        parent[path[-1]] = value(rng, 1) if rng.random() < 0.5 else scalar(rng)
    return v


class Unspecified(Exception):
    pass


def jp(base, token):
    return '/'.join(([base] if base else []) + [g.enc(token)])


def reference(a, b, base='', keep=lambda k: True):
    """ set of (path, what, what) """
    if isinstance(a, dict) != isinstance(b, dict) or isinstance(a, list) != isinstance(b, list):
        return [(base, 'other')]
    if isinstance(a, dict):
        out = []
        for k in set(a) | set(b):
            if not keep(k):
                continue
            if k in a and k in b:
                out += reference(a[k], b[k], jp(base, k), keep)
            else:
                out.append((jp(base, k), 'key'))
        return out
    if isinstance(a, list):
        if len(a) != len(b):
            return [(base, 'length', len(a), len(b))]
        if not a:
            return []
        ta, tb = {type(x) for x in a}, {type(x) for x in b}
        if len(ta) > 1 or len(tb) > 1:
            raise Unspecified()
        if ta != tb:
            return [(base, 'other')]
        if ta == {dict}:
            pairs = zip(a, b)
        elif ta == {type(None)}:
            return []
        else:
            pairs = zip(sorted(a), sorted(b))
        out = []
        for i, (x, y) in enumerate(pairs):
            out += reference(x, y, jp(base, str(i)), keep)
        return out
    return [(base, 'scalar', a, b)] if a != b else []


def none_list(v):
    """ lists of several nulls are not comparable """
    if isinstance(v, dict):
        return any(none_list(x) for x in v.values())
    if isinstance(v, list):
        return any(x is None for x in v) or any(none_list(x) for x in v)
    return False


def case(mon, rng, index, tier):
    a = value(rng, rng.choice([1, 2, 3, 4]))
    b = copy.deepcopy(a)
    for _ in range(rng.choice([0, 1, 1, 2, 4])):
        b = mutate(rng, b)
    if none_list(a) or none_list(b):
        return

    def shuffled(v):
        if isinstance(v, dict):
            ks = list(v)
            rng.shuffle(ks)
            return {k: shuffled(v[k]) for k in ks}
        if isinstance(v, list) and not any(isinstance(x, (dict, list)) for x in v):
            v = list(v)
            rng.shuffle(v)
            return v
        if isinstance(v, list):
            return [shuffled(x) for x in v]
        return v

    keys = [p[-1] for p in list(slots(a)) + list(slots(b)) if p and isinstance(p[-1], str)]
    filters = [({}, lambda k: True)]
    if keys:
        some = set(rng.sample(keys, min(len(keys), rng.randint(1, 5))))
        more = set(rng.sample(keys, min(len(keys), rng.randint(1, 3))))
        filters += [({'exclude': list(some)}, lambda k: k not in some),
                    ({'include': list(some)}, lambda k: k in some),
                    ({'include': list(some), 'exclude': list(more)}, lambda k: k in some and k not in more)]
    for x, y in ((a, b), (b, a), (a, copy.deepcopy(a)), (a, shuffled(a)), (shuffled(a), shuffled(b))):
        for kw, keep in filters:
            mon.context = {'left': x, 'right': y, 'filters': kw}
            before = copy.deepcopy((x, y))
            exp = reference(x, y, keep=keep)
            got = compare_container(x, y, **kw)
            mon.equal((x, y), before, 'an input is modified')
            if kw:
                mon.count('filtered')
            mon.check(bool(got) == bool(exp), 'the verdict of equality is wrong', got=got, expected=exp)
            left = []
            for d in got:
                if len(d) != 3:
                    mon.fail('a difference is no triple', got=d)
                left.append(d)
            mon.check(sorted(d[0] for d in left) == sorted(d[0] for d in exp), 'differences are located elsewhere',
                      got=got, expected=exp)
            for e in exp:
                mon.count('differences')
                cands = [d for d in left if d[0] == e[0]]
                if e[1] == 'key':
                    mon.count('keys')
                    ok = any(d[1:] == (None, None) for d in cands)
                elif e[1] == 'length':
                    mon.count('lengths')
                    ok = any(d[1:] == e[2:] for d in cands)
                elif e[1] == 'scalar':
                    mon.count('scalars')
                    ok = any(d[1] == e[2] and d[2] == e[3] and type(d[1]) is type(e[2]) for d in cands)
                else:
                    mon.count('types')
                    ok = any(d[1] != d[2] for d in cands)
                mon.check(ok, 'a difference is described wrongly', got=cands, expected=e)
            if not exp:
                mon.count('equal')
    # accumulating into a list, below a base
    mine = [('before', 1, 2)]
    got = compare_container(a, b, mine, 'base/x')
    exp = reference(a, b, 'base/x')
    mon.check(got is mine and got[0] == ('before', 1, 2), 'the given list is not used')
    mon.check(sorted(d[0] for d in got[1:]) == sorted(d[0] for d in exp), 'differences below a base', got=got, expected=exp)
    # lists of mixed types can not be called equal when they differ
    m1 = [rng.choice(['a', 1, 2.5, 'b']) for _ in range(3)]
    m2 = list(m1)
    m2[rng.randrange(3)] = rng.choice(['zz', 99])
    if len({type(x) for x in m1}) > 1:
        try:
            mon.check(compare_container({'k': m1}, {'k': m2}), 'lists of mixed types that differ are called equal', left=m1, right=m2)
        except (ValueError, TypeError):
            mon.count('oracle_decisions')
        mon.count('mixed')
    if isinstance(a, (dict, list)) and len(a) > 1:
        mon.shape([a, b])
        mon.sample({'left': a, 'right': b})
