"""C09: scoped names resolve exactly, uniquely, or not at all."""
from pyopenapi import consts
from pyopenapi.utils import ScopeDict, scope_compose, scope_split
from vlib.gen import ODD

ID = 'C09'
TITLE = 'scoped names'
BUDGET = {'quick': 12000, 'thorough': 300000}
NEED = {'exact': 50000, 'by_suffix': 10000, 'ambiguous': 5000, 'missing': 20000, 'tuples': 20000, 'splits': 10000}
RULE = ('random dictionaries of scoped names (few distinct tokens, so that they share suffixes) under default and '
        'custom separators; every query that is a token-aligned suffix of an entry, in both spellings, plus unknown '
        'ones, judged by a model on token tuples.')
SEPS = ['!##!', '!##!', '.', '##', '/', '||', '-_-', ' ', '!-!']
TOKENS = ['pet', 'user', 'get', 'Order', 'id', 'x', 'q', 'é', '0', 'getPet']


def aligned(query, name):
    return len(query) <= len(name) and name[len(name) - len(query):] == query


def case(mon, rng, index, tier):
    sep = rng.choice(SEPS)
    toks = [t for t in TOKENS + [o for o in ODD if o] if not any(c in sep for c in t)]
    toks = rng.sample(toks, min(len(toks), rng.randint(2, 6)))

    def rand(n=3):
        return tuple(rng.choice(toks) for _ in range(rng.randint(1, n)))

    # composing and splitting
    for _ in range(3):
        name = rand(5)
        composed = None
        for t in name:
            composed = scope_compose(composed, t, sep=sep)
        mon.equal(composed, sep.join(name), 'composing scopes', sep=sep)
        mon.equal(scope_split(composed, sep=sep), list(name), 'splitting a scope', sep=sep)
        mon.equal(scope_compose(composed, None, sep=sep), composed, 'composing nothing')
        mon.equal(scope_compose(None, composed, sep=sep), composed, 'composing below nothing')
        mon.equal(scope_compose('', composed, sep=sep), composed, 'composing below an empty scope')
        if sep == consts.SCOPE_SEPARATOR:
            mon.equal(scope_compose(name[0], 'z'), name[0] + '!##!z', 'default separator of compose')
            mon.equal(scope_split(composed), list(name), 'default separator of split')
        mon.count('splits')
    mon.equal(scope_split(None, sep=sep), [None], 'splitting nothing')

    # a history of updates and queries
    model, counter = {}, 0
    initial = {rand() for _ in range(rng.randint(0, 4))}
    for name in initial:
        model[name] = 'v%d' % counter
        counter += 1
    real = ScopeDict({sep.join(k): v for k, v in model.items()})
    if sep != consts.SCOPE_SEPARATOR or rng.random() < 0.5:
        real.sep = sep
    for _ in range(rng.randint(1, 12)):
        name = rand()
        r = rng.random()
        if r < 0.7:
            model[name] = 'v%d' % counter
            real[sep.join(name)] = 'v%d' % counter
            counter += 1
        elif r < 0.85 and model:
            name = rng.choice(sorted(model))
            del model[name]
            del real[sep.join(name)]
        queries = {n[i:] for n in model for i in range(len(n))}
        queries |= {rand(), rand(4), ('zz',), ('zz',) + rand()}
        queries = sorted(queries)
        rng.shuffle(queries)
        for q in queries[:8]:
            joined = sep.join(q)
            hits = [n for n in model if aligned(q, n)]
            others = [n for n in model if sep.join(n).endswith(joined) and n not in hits]
            spell = [joined, q] if len(q) > 1 else [joined, q]
            for key in spell:
                mon.context = {'sep': sep, 'names': sorted(sep.join(n) for n in model), 'query': key}
                if isinstance(key, tuple):
                    mon.count('tuples')
                try:
                    got = real[key]
                except ValueError:
                    got = ValueError
                except KeyError:
                    got = KeyError
                if q in model:
                    mon.count('exact')
                    mon.check(got == model[q], 'the exact name is not found first', got=got, want=model[q])
                elif len(hits) == 1 and not others:
                    mon.count('by_suffix')
                    mon.check(got == model[hits[0]], 'an unambiguous part is not found', got=got)
                elif len(hits) == 1:
                    # others end with the same characters, but not with the same token: the entry
                    # that matches, or a complaint, but never another entry
                    mon.count('partial')
                    mon.check(got == model[hits[0]] or got is ValueError, 'another entry is given', got=got)
                    if len(q) == 1:
                        mon.check(got == model[hits[0]], 'the last token is not preferred', got=got)
                elif len(hits) > 1:
                    mon.count('ambiguous')
                    mon.check(got is ValueError, 'an ambiguous part is not rejected', got=got)
                elif not others:
                    mon.count('missing')
                    mon.check(got is KeyError, 'an unknown name is not rejected', got=got)
        mon.check(dict(real) == {sep.join(k): v for k, v in model.items()} and len(real) == len(model),
                  'entries changed by looking them up')
    mon.shape([sep, sorted(model)])
    if index < 30:
        mon.sample(mon.context)
    try:
        real.sep
    except TypeError:
        mon.count('oracle_decisions')
    else:
        mon.fail('the separator can be read')
