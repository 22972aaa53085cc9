"""C05: comparison reports a difference iff there is one."""
import copy
from vlib import grammar as g
from vlib.gen import BlankGen, prim, word
from vlib.drive import build

ID = 'C05'
TITLE = 'comparison'
BUDGET = {'quick': 5000, 'thorough': 100000}
NEED = {'mutations': 15000, 'equal': 5000, 'deep_mutations': 3000, 'removals': 500, 'additions': 500}
RULE = ('random objects of every type compared with a copy whose keys are shuffled (no difference allowed) and with '
        'single-mutation copies (a difference required, located on the path to the mutation, in both directions).')

DEFAULTS = {('2.0', 'Items', 'collectionFormat'): 'csv', ('2.0', 'Parameter', 'collectionFormat'): 'csv',
            ('2.0', 'Header', 'collectionFormat'): 'csv', ('2.0', 'Schema', 'required'): []}


def shuffled(rng, v):
    if isinstance(v, dict):
        ks = list(v)
        rng.shuffle(ks)
        return {k: shuffled(rng, v[k]) for k in ks}
    if isinstance(v, list):
        return [shuffled(rng, x) for x in v]
    return copy.copy(v)


def other_prim(rng, t, old):
    """ a value of the same kind that differs from the old one, whatever equality is used """
    for _ in range(20):
        new = prim(rng, t)
        if new != old:
            return new
    return None


RESIZED = []         # set when a list inside an opaque value got another length


def mutate_value(rng, v):
    """ change exactly one place inside an opaque value -> (new, tokens) """
    if isinstance(v, dict) and v and rng.random() < 0.8:
        k = rng.choice(sorted(v))
        r = rng.random()
        new = dict(v)
        if r < 0.2:
            del new[k]
            return new, [k]
        if r < 0.3:
            kk = 'added!'
            new[kk] = 1
            return new, [kk]
        new[k], t = mutate_value(rng, v[k])
        return new, [k] + t
    if isinstance(v, list) and v and rng.random() < 0.8:
        i = rng.randrange(len(v))
        r = rng.random()
        if r < 0.4:
            RESIZED.append(1)
            return (v[:i] + v[i + 1:] if r < 0.2 else v + [1]), []
        e, t = mutate_value(rng, v[i])
        return v[:i] + [e] + v[i + 1:], [str(i)] + t
    if isinstance(v, str):
        return rng.choice([v + 'x', v[:-1] if v else 'y', 5]), []
    if isinstance(v, bool) or v is None:
        return 'changed', []
    if isinstance(v, (int, float)):
        w = v + rng.choice([2, -3, 0.5])
        return ('changed' if w == v else w), []
    return 'changed', []


def mutations(rng, spec, name, raw):
    """ one random mutation: yields (kind, tokens, mutated copy) """
    nodes = list(g.walk(spec, ('o', name), raw))
    tokens, kind, sub = rng.choice(nodes)
    new = copy.deepcopy(raw)

    def put(tokens_, value):
        node = new
        for t in tokens_[:-1]:
            node = node[int(t)] if isinstance(node, list) else node[t]
        last = tokens_[-1]
        if isinstance(node, list):
            node[int(last)] = value
        else:
            node[last] = value

    def at(tokens_):
        node = new
        for t in tokens_:
            node = node[int(t)] if isinstance(node, list) else node[t]
        return node

    if kind[0] == 'p':
        if kind[1] in ('any', 'anys', 'strs') and isinstance(sub, (dict, list)):
            v, t = mutate_value(rng, sub)
            put(tokens, v)
            return 'value', tokens + tuple(t), new
        v = other_prim(rng, kind[1], sub)
        if v is None:
            return None
        put(tokens, v)
        return 'prim', tokens, new
    here = at(tokens)
    if kind[0] == 'l':
        if here and rng.random() < 0.5:
            here.pop(rng.randrange(len(here)))
            return 'removal', tokens, new
        here.append(BlankGen(rng, spec.version, size=2).kind(kind[1], 5))
        return 'addition', tokens, new
    if kind[0] == 'm':
        if here and rng.random() < 0.5:
            k = rng.choice(sorted(here))
            del here[k]
            return 'removal', tokens + (k,), new
        k = word(rng) + 'N'
        if k in here:
            return None
        here[k] = BlankGen(rng, spec.version, size=2).kind(kind[1], 5)
        return 'addition', tokens + (k,), new
    table = spec.objects[kind[1]]
    if kind[1] == spec.refname:
        return None
    required = spec.required.get(kind[1], ())
    if rng.random() < 0.5:
        ks = [k for k in here if k not in required and k in table and k != '$ref']
        if not ks:
            return None
        k = rng.choice(sorted(ks))
        if here[k] == DEFAULTS.get((spec.version, kind[1], k)):
            return None
        del here[k]
        return 'removal', tokens + (k,), new
    ks = [k for k in table if k not in here and k != '$ref']
    if not ks:
        return None
    k = rng.choice(sorted(ks))
    here[k] = BlankGen(rng, spec.version, size=2).kind(table[k], 5)
    if here[k] is None or here[k] == DEFAULTS.get((spec.version, kind[1], k)):
        return None
    return 'addition', tokens + (k,), new


def at(raw, tokens):
    for t in tokens:
        raw = raw[int(t)] if isinstance(raw, list) else raw[t]
    return raw


def link_values(spec, name, raw):
    """ is there any Link whose parameters are neither strings nor integers """
    return any(k == ('o', 'Link') and any(not isinstance(v, (str, int)) for v in (sub.get('parameters') or {}).values())
               for _, k, sub in g.walk(spec, ('o', name), raw))


def tokens_of(loc):
    return [t.replace('~1', '/').replace('~0', '~') for t in loc.split('/')] if loc else []


def case(mon, rng, index, tier):
    version = ('2.0', '3.0.0', '1.2')[index % 3]
    spec = g.SPECS[version]
    names = sorted(spec.objects)
    name = spec.root if index % 2 else names[(index // 6) % len(names)]
    raw = BlankGen(rng, version, size=rng.choice([3, 10, 30]), density=rng.choice([0.2, 0.5, 0.9]),
                 empties=rng.choice([0, 0.2]), refs=0.2).obj(name, 0)
    mon.context = {'version': version, 'type': name, 'raw': raw}
    a = build(version, name, raw)
    same = build(version, name, shuffled(rng, raw), rng.choice(['#', '#/elsewhere']))
    for x, y in ((a, a), (a, same), (same, a)):
        try:
            got = x.compare(y)
        except AttributeError:
            if not link_values(spec, name, raw):
                raise
            mon.known_finding('compare-link-parameters')
            return
        mon.check(got[0] is True and got[1] == '', 'equal objects differ at %r' % (got,))
        mon.count('equal')
    # objects of different types
    other = rng.choice(names)
    if other != name:
        try:
            obj = build(version, other, BlankGen(rng, version, size=2).obj(other, 0))
            got = a.compare(obj)
            mon.check(got[0] is False, 'objects of different types are equal: %s, %s' % (name, other))
        except AttributeError:
            raise
    for _ in range(8 if tier == 'quick' else 16):
        del RESIZED[:]
        m = mutations(rng, spec, name, raw)
        if m is None:
            continue
        what, tokens, new = m
        if len(tokens) > 8:
            mon.count('deep_mutations')
        mon.context = {'version': version, 'type': name, 'raw': raw, 'mutated': new, 'at': tokens, 'what': what}
        b = build(version, name, new)
        # an element of a list or map of plain values, and not the first one
        kinds = {t: k for t, k, _ in g.walk(spec, ('o', name), raw)}
        element = False
        for i in range(1, len(tokens) + 1):
            if kinds.get(tokens[:i], 'x')[0] == 'p' and kinds[tokens[:i - 1]][0] in 'lm' and what in ('prim', 'value'):
                element = not (kinds[tokens[:i - 1]][0] == 'l' and tokens[i - 1] == '0'
                               or kinds[tokens[:i - 1]][0] == 'm' and len(at(raw, tokens[:i - 1])) == 1)
                break
        if version == '2.0' and tokens[-1:] == ('required',) and what in ('addition', 'removal'):
            RESIZED.append(1)           # an absent one reads as an empty list
        bad_links = link_values(spec, name, raw) or link_values(spec, name, new)
        for x, y in ((a, b), (b, a)):
            try:
                got = x.compare(y)
            except IndexError:
                if not RESIZED:
                    raise
                mon.known_finding('compare-value-lists')
                continue
            except AttributeError as e:
                if not bad_links and not str(e).endswith("object has no attribute 'compare'"):
                    raise
                mon.known_finding('compare-link-parameters')
                continue
            if got[0] is True and element:
                mon.known_finding('compare-primitive-elements')
                continue
            if got[0] is True and RESIZED:
                mon.known_finding('compare-value-lists')
                continue
            mon.check(got[0] is False, 'a difference is not reported: %s at %s' % (what, '/'.join(tokens)))
            loc = tokens_of(got[1])
            mon.check(loc == list(tokens[:len(loc)]) or loc[:len(tokens)] == list(tokens), 'a difference at %s is reported at %s' % (
                '/'.join(tokens), got[1]))
        base = rng.choice(['#', '#/x', 'b'])
        try:
            got = a.compare(b, base=base)
        except (IndexError, AttributeError):        # judged above
            continue
        mon.check(got[0] is True and (element or RESIZED) or (got[1] == '' or got[1] == base or got[1].startswith(base + '/')),
                  'a difference is reported outside of its base: %r' % (got,))
        mon.count('mutations')
        if len(tokens) > 3:
            mon.count('deep_mutations')
        if what == 'removal':
            mon.count('removals')
        if what == 'addition':
            mon.count('additions')
        mon.shape([version, name, raw, new])
        if index < 100:
            mon.sample(mon.context)
