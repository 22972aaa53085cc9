"""Reading objects of the code under test through their attributes, and what is
known to be off in pyopenapi/migration/spec (see KNOWN_FINDINGS.json): that folder
can not be repaired here, so that its defects are modelled one by one, and anything
else is still a violation."""
from pyopenapi.errs import FieldNotExist
from . import grammar as g
from .core import same


def view(spec, kind, obj):
    """ the counterpart of grammar.prune: what attributes of an object say """
    if kind[0] == 'b':
        if isinstance(obj, bool):
            return obj
        kind = kind[1]
    if kind[0] == 'r':
        kind = ('o', spec.refname if type(obj).__name__ == spec.refname or (
            type(obj).__name__ == 'ProxyType' and obj.dump.__self__.__class__.__name__ == spec.refname) else kind[1])
    if kind[0] == 'o':
        kind = g.CONTAINER_OBJECTS.get((spec.version, kind[1]), kind)
    t = kind[0]
    if t == 'p':
        return obj
    if t == 'l':
        return [view(spec, kind[1], x) for x in obj]
    if t == 'm':
        return {k: view(spec, kind[1], obj[k]) for k in obj.keys()}
    ret = {}
    for key, sub in spec.objects[kind[1]].items():
        if sub[0] == 'p':
            if obj.is_set(key):
                v = getattr(obj, key)
                if v is not None:
                    ret[key] = v
            continue
        try:
            v = getattr(obj, key)
        except FieldNotExist:
            continue
        if v is None:
            continue
        v = view(spec, sub, v)
        if isinstance(v, (list, dict)) and not v and not hasattr(getattr(obj, key), 'get_attrs') and \
                (spec.version, kind[1], key) not in g.KEEP_EMPTY:
            continue
        ret[key] = v
    return ret


def has_true(spec, kind, raw):
    """ is there a "true" in place of an object """
    for _, k, sub in g.walk(spec, kind, raw):
        if k[0] == 'o':
            for key, kk in spec.objects[k[1]].items():
                if kk[0] == 'b' and sub.get(key) is True:
                    return True
    return False


def prune_quirk(spec, kind, raw, empties=True, falses=True):
    """ prune, as dump() is known to do: additionalProperties: false and required
    containers that are empty get lost """
    kind = g.resolve_kind(spec, kind, raw)
    t = kind[0]
    if t == 'p':
        return raw
    if t == 'l':
        return [prune_quirk(spec, kind[1], x, empties, falses) for x in raw]
    if t == 'm':
        return {k: prune_quirk(spec, kind[1], v, empties, falses) for k, v in raw.items()}
    ret = {}
    for k, sub, v in g.fields(spec, kind[1], raw):
        if sub[0] in 'lm' and not v and (empties or (spec.version, kind[1], k) not in g.KEEP_EMPTY):
            continue
        if falses and v is False and spec.objects[kind[1]][k][0] == 'b':
            continue
        ret[k] = prune_quirk(spec, sub, v, empties, falses)
    return ret


def quirk_name(tokens, owner_is_object):
    """ name of an object (tokens away from its owner) in get_children() """
    if len(tokens) == 1:
        return tokens[0]
    return g.enc(tokens[0]) + '/' + g.enc(quirk_name(tokens[1:], False))


def quirk_pointer(tokens, object_tokens):
    """ path of an object in scanning: object_tokens holds the locations of all objects """
    cuts = [n for n in range(len(tokens) + 1) if tokens[:n] in object_tokens]
    out = ['#']
    for a, b in zip(cuts, cuts[1:]):
        out.append(quirk_name(tokens[a:b], True))
    return '/'.join(out)


def dump_of(mon, spec, kind, raw, obj):
    """ dump an object loaded from raw -> the dump, or None when it is known not to work """
    if has_true(spec, kind, raw):
        try:
            return obj.dump()
        except AttributeError as e:
            if "'bool' object has no attribute 'dump'" not in str(e):
                raise
            mon.known_finding('dump-bool-true')
            return None
    return obj.dump()


def judge_dump(mon, spec, kind, raw, obj, what):
    """ the dump of obj has to say what raw says """
    dumped = dump_of(mon, spec, kind, raw, obj)
    if dumped is None:
        return None
    got, full = g.prune(spec, kind, dumped), g.prune(spec, kind, raw)
    mon.count('oracle_decisions')
    if not same(got, full):
        if same(got, prune_quirk(spec, kind, raw)):
            if not same(prune_quirk(spec, kind, raw, empties=False), full):
                mon.known_finding('dump-bool-false')
            if not same(prune_quirk(spec, kind, raw, falses=False), full):
                mon.known_finding('dump-required-empty')
        else:
            mon.equal(got, full, what)
    return dumped
