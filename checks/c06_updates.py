"""C06: objects stay coherent under any history of updates."""
import copy
from vlib import grammar as g
from vlib.core import same
from vlib.drive import build
from vlib.gen import BlankGen, prim
from vlib.graph import live
from vlib.view import view, prune_quirk

ID = 'C06'
TITLE = 'histories of updates'
BUDGET = {'quick': 800, 'thorough': 30000}
NEED = {'attach': 1500, 'set': 800, 'append': 150, 'extend': 150, 'rewrite': 150, 'merge': 1200, 'sources': 5000,
        'steps': 4000, 'listings': 80000, 'parents': 80000, 'pointers': 80000, 'containers': 30000}
RULE = ('random histories of updates (attaching children, setting and appending elements, extending lists, merging, '
        'rewriting references) on random objects of every type; after each step everything that can be read of the tree, '
        'and of the objects merged from, is compared with a model of plain dictionaries and lists.')


def plain(node):
    """ names without special characters, those are left to C03 """
    if isinstance(node, dict):
        return {k.replace('/', '_').replace('~', '-') if isinstance(k, str) else k: plain(v) for k, v in node.items()}
    if isinstance(node, list):
        return [plain(v) for v in node]
    return node


class History(object):
    def __init__(self, mon, rng, version, spec, name):
        self.mon, self.rng, self.version, self.spec = mon, rng, version, spec
        self.gen = BlankGen(rng, version, density=rng.choice([0.2, 0.5]), refs=0.2, bools=0, empties=0.1)
        self.kept = []              # keeps identities apart
        self.raw = self.fresh(name, 25)
        self.trees = [(name, build(version, name, copy.deepcopy(self.raw)), self.raw)]
        self.loose = {}             # id(obj) -> finding, for parents
        self.stale = {}             # id(obj) -> its listing before an update further down
        self.seen = {}              # id(obj) -> listing when looked at last
        self.note_empty(*self.trees[0])

    def fresh(self, name, size=6):
        self.gen.budget = size
        return plain(self.gen.obj(name, 0))

    def nodes(self, tree):
        """ objects along with their part of the model """
        name, obj, raw = tree
        for tokens, kind, o in live(self.spec, ('o', name), obj):
            node = raw
            for t in tokens:
                node = node[int(t)] if isinstance(node, list) else node[t]
            yield tokens, kind, o, node

    def note_empty(self, name, obj, raw):
        """ containers that are empty do not know where they belong to """
        for tokens, kind, o, node in self.nodes((name, obj, raw)):
            self.kept.append(o)
            if kind[0] in 'lm' and not node:
                self.loose[id(o)] = 'parent-of-empty-container'

    # updates

    def element(self, kind):
        """ something to be put in a container -> (raw, obj) """
        if kind[0] == 'p':
            raw = prim(self.rng, kind[1])
            return raw, raw
        if kind[0] not in 'or' or (self.version, kind[1]) in g.CONTAINER_OBJECTS:
            return None
        name = kind[1]
        if kind[0] == 'r' and self.rng.random() < 0.3:
            name = self.spec.refname
        raw = self.fresh(name)
        obj = build(self.version, name, copy.deepcopy(raw), '#/fresh')
        self.note_empty(name, obj, raw)
        self.loose[id(obj)] = 'parent-of-elements'
        return raw, obj

    def outdated(self, container):
        """ listings of what holds this container keep what they were """
        for tree in self.trees:
            nodes = list(self.nodes(tree))
            at = {t: (k, o) for t, k, o, _ in nodes}
            for tokens, kind, o, _ in nodes:
                if o is not container:
                    continue
                for n in range(len(tokens) - 1, -1, -1):
                    k, holder = at[tokens[:n]]
                    self.stale[id(holder)] = True
                    if k[0] == 'o':
                        break

    def renewed(self, obj):
        """ listings are made anew, of what is below as they are """
        for tree in self.trees:
            nodes = list(self.nodes(tree))
            for tokens, kind, o, _ in nodes:
                if o is not obj:
                    continue
                inner = [x for t, k, x, _ in nodes if len(t) > len(tokens) and t[:len(tokens)] == tokens and
                         not any(len(t2) > len(tokens) and t2 == t[:len(t2)] and k2[0] == 'o' for t2, k2, _, _ in nodes)]
                if any(id(x) in self.stale for x in inner):
                    return
        self.stale.pop(id(obj), None)

    def step(self):
        rng = self.rng
        tokens, kind, obj, raw = rng.choice(list(self.nodes(self.trees[0])))
        if kind[0] == 'o':
            op = rng.choice(['attach', 'attach', 'merge', 'rewrite'])
        else:
            op = 'set' if kind[0] == 'm' else rng.choice(['append', 'extend'])
        done = getattr(self, op)(kind, obj, raw)
        if done is not None:
            self.mon.count(op)
            return [op, list(tokens), done]
        return None

    def attach(self, kind, obj, raw):
        keys = sorted(k for k, s in self.spec.objects[kind[1]].items() if s[0] != 'p')
        if not keys:
            return None
        key = self.rng.choice(keys)
        donor = self.fresh(kind[1])
        self.gen.budget = 6
        donor[key] = plain(self.gen.kind(self.spec.objects[kind[1]][key], 1))
        owner = build(self.version, kind[1], copy.deepcopy(donor), '#/donor')
        self.kept.append(owner)
        self.note_empty(kind[1], owner, donor)
        child = getattr(owner, key)
        self.loose.pop(id(child), None)
        # nothing below knows of the parents of what is attached
        obj.attach_child(key, child)
        raw[key] = donor[key]
        self.renewed(obj)
        return key

    def set(self, kind, obj, raw):
        made = self.element(kind[1])
        if made is None:
            return None
        key = self.rng.choice(sorted(raw) + ['new%d' % self.rng.randrange(100)])
        obj[key] = made[1]
        raw[key] = made[0]
        self.updated(obj)
        return key

    def append(self, kind, obj, raw):
        made = self.element(kind[1])
        if made is None:
            return None
        obj.append(made[1])
        raw.append(made[0])
        self.updated(obj)
        return 1

    def extend(self, kind, obj, raw):
        made = [self.element(kind[1]) for _ in range(self.rng.choice([0, 1, 2, 3]))]
        if None in made:
            return None
        obj.extend([m[1] for m in made])
        raw.extend([m[0] for m in made])
        self.updated(obj)
        return len(made)

    def updated(self, container):
        self.renewed(container)
        self.outdated(container)

    def rewrite(self, kind, obj, raw):
        if self.version == '1.2' or '$ref' not in self.spec.objects[kind[1]]:
            return None
        value = '#/rewritten/%d' % self.rng.randrange(1000)
        if self.rng.random() < 0.5:
            obj.ref = value
        else:
            setattr(obj, '$ref', value)
        raw['$ref'] = value
        return value

    def merge(self, kind, obj, raw):
        if len(self.trees) > 4:
            return None
        name = kind[1]
        other = self.fresh(name, 10)
        source = build(self.version, name, copy.deepcopy(other), '#/source')
        self.note_empty(name, source, other)
        before = view(self.spec, ('o', name), source)
        self.trees.append((name, source, other))
        taken = []
        for key, sub in self.spec.objects[name].items():
            if sub[0] == 'p' or not raw_truth(sub, other.get(key)) or raw_truth(sub, raw.get(key)):
                continue
            taken.append(key)
        obj.merge_children(source)
        self.mon.equal(view(self.spec, ('o', name), source), before, 'merging modified the source')
        for key in taken:
            self.mon.check(getattr(obj, key) is getattr(source, key), 'what is merged is not taken from the source', key=key)
            self.loose[id(getattr(obj, key))] = 'parent-of-elements'
            raw[key] = other[key]
        self.renewed(obj)
        return taken

    # looking

    def look(self):
        mon, spec = self.mon, self.spec
        for number, tree in enumerate(self.trees):
            name, root, model = tree
            kind = ('o', name)
            full = g.prune(spec, kind, model)
            mon.equal(view(spec, kind, root), full, 'reads do not reflect the updates', tree=number)
            dumped = g.prune(spec, kind, root.dump())
            if not same(dumped, prune_quirk(spec, kind, model)):        # see the findings of C01
                mon.equal(dumped, full, 'the dump does not reflect the updates', tree=number)
            if number:
                mon.count('sources')
            nodes = list(self.nodes(tree))
            at = {t: (k, o) for t, k, o, _ in nodes}
            for tokens, k, o, node in nodes:
                if tokens:
                    parent = o.get_parent()
                    mon.count('parents')
                    if parent is not at[tokens[:-1]][1]:
                        if id(o) not in self.loose:
                            mon.fail('the parent is not what contains the object', tree=number, tokens=tokens,
                                     parent=parent and type(parent).__name__)
                        mon.known_finding(self.loose[id(o)])
                got = root.resolve(list(tokens))
                mon.count('pointers')
                mon.check(got is o, 'the pointer leads to another object', tree=number, tokens=tokens)
                if k[0] in 'lm':
                    self.container(k, o, node, tokens)
                self.listing(tokens, k, o, at)

    def container(self, kind, obj, raw, tokens):
        mon = self.mon
        mon.count('containers')
        mon.equal(len(obj), len(raw), 'length', tokens=tokens)
        if kind[0] == 'l':
            mon.check(all(a is obj[i] for i, a in enumerate(obj)), 'iteration and indexing differ', tokens=tokens)
            mon.equal(sum(1 for _ in obj), len(raw), 'number of elements', tokens=tokens)
            return
        mon.equal(sorted(obj.keys()), sorted(raw), 'keys', tokens=tokens)
        mon.equal(sorted(k for k, _ in obj.items()), sorted(raw), 'items', tokens=tokens)
        mon.check(all(k in obj for k in raw) and 'no such key' not in obj, 'membership', tokens=tokens)
        mon.check(all(obj.get(k) is obj[k] for k in raw) and obj.get('no such key') is None and obj.get('no such key', 1) == 1,
                  'get', tokens=tokens)

    def listing(self, tokens, kind, obj, at):
        """ objects right below, their names are left to C03 """
        below = set()
        for t, (k, o) in at.items():
            if k[0] == 'o' and len(t) > len(tokens) and t[:len(tokens)] == tokens and \
                    all(at[t[:n]][0][0] in 'lm' for n in range(len(tokens) + 1, len(t))):
                below.add(id(o))
        got = {id(o) for o in obj.get_children().values()}
        self.kept.extend(obj.get_children().values())
        self.mon.count('listings')
        if got != below:
            if id(obj) not in self.stale or not got <= below | self.seen.get(id(obj), set()):
                self.mon.fail('the listing of children does not reflect the updates', tokens=tokens,
                              missing=len(below - got), more=len(got - below))
            self.mon.known_finding('stale-listing')
        else:
            self.stale.pop(id(obj), None)
        self.seen[id(obj)] = got


def raw_truth(kind, raw):
    if raw is None:
        return False
    if isinstance(raw, list) or kind[0] == 'm':
        return bool(raw)
    return True


def case(mon, rng, index, tier):
    version = ('2.0', '3.0.0', '3.0.0', '1.2')[index % 4]
    spec = g.SPECS[version]
    names = sorted(n for n in spec.objects if (version, n) not in g.CONTAINER_OBJECTS)
    name = rng.choice(names + ['PathItem', 'Operation'] * 3 if version != '1.2' else ['ApiDeclaration', 'Operation', 'Model'])
    if name not in spec.objects:
        name = 'ApiDeclaration'
    h = History(mon, rng, version, spec, name)
    done = []
    mon.context = {'version': version, 'name': name, 'raw': copy.deepcopy(h.raw), 'history': done}
    h.look()
    for _ in range(rng.choice([3, 8, 20] if tier == 'quick' else [8, 30, 60])):
        what = h.step()
        if what is None:
            continue
        done.append(what)
        mon.count('steps')
        h.look()
    if len(done) > 2:
        mon.shape([mon.context['raw'], done])
        if index % 40 == 1:
            mon.sample(mon.context)
