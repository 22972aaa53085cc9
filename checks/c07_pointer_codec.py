"""C07: JSON pointer encoding is lossless."""
import itertools
from pyopenapi.utils import jp_compose, jp_split
from vlib.gen import word

ID = 'C07'
TITLE = 'pointer codec'
BUDGET = {'quick': 4000, 'thorough': 100000}
NEED = {'round_trips': 50000, 'exhaustive': 9000, 'split_limits': 5000, 'pairs': 5000}
RULE = ('random token sequences over hostile tokens and every string up to length 5 over the alphabet of ~ / 0 1 a #, '
        'composed and split again, with and without a base and split limits, against a codec written from RFC 6901.')

ALPHABET = '~/01a#'


def ref_enc(t):
    out = ''
    for ch in t:
        out += {'~': '~0', '/': '~1'}.get(ch, ch)
    return out


def ref_dec(t):
    out, i = '', 0
    while i < len(t):
        if t[i] == '~' and t[i + 1:i + 2] in ('0', '1'):
            out += '~' if t[i + 1] == '0' else '/'
            i += 2
        else:
            out += t[i]
            i += 1
    return out


def token(rng):
    r = rng.random()
    if r < 0.4:
        return ''.join(rng.choice(ALPHABET) for _ in range(rng.randint(0, 6)))
    if r < 0.9:
        return word(rng, 0.7)
    return ''.join(chr(rng.choice([rng.randrange(32, 127), rng.randrange(0xa0, 0x2fff), 0x1f600])) for _ in range(4))


def exhaustive(mon, n):
    for t in itertools.product(ALPHABET, repeat=n):
        t = ''.join(t)
        mon.equal(jp_compose(t), ref_enc(t), 'token is encoded wrong', token=t)
        mon.equal(jp_compose(t, base='#'), '#/' + ref_enc(t), 'token is appended wrong', token=t)
        mon.equal(jp_split('#/' + ref_enc(t)), ['#', t], 'token is decoded wrong', token=t)
        mon.equal(jp_compose([t, t]), ref_enc(t) + '/' + ref_enc(t), 'tokens are encoded wrong', token=t)
        # whatever comes in is decoded by the standard
        if t and not any(t[i] == '~' and t[i + 1:i + 2] not in ('0', '1') for i in range(len(t))):
            mon.equal(jp_split(t), [ref_dec(x) for x in t.split('/')], 'pointer is decoded wrong', pointer=t)
        mon.count('exhaustive')


def case(mon, rng, index, tier):
    if index < 7:
        exhaustive(mon, index) if index < 6 or tier == 'thorough' else exhaustive(mon, 5)
        if index == 6:
            mon.equal(jp_split(''), [], 'the empty pointer has tokens')
            mon.equal(jp_split(None), [], 'no pointer has tokens')
            mon.equal(jp_compose(None, base='#/a'), '#/a', 'appending nothing changes the base')
            mon.equal(jp_compose(None), None, 'composing nothing gives something')
        return
    for _ in range(20):
        toks = [token(rng) for _ in range(rng.randint(1, 6))]
        mon.context = toks
        base = rng.choice(['#', '#/x', None, 'http://h/a~0b.json#', '#/~1a'])
        given = list(toks)
        ptr = jp_compose(given if len(toks) > 1 or rng.random() < 0.5 else toks[0], base=base)
        exp = '/'.join(([base] if base else []) + [ref_enc(t) for t in toks])
        mon.equal(ptr, exp, 'pointer is composed wrong', base=base)
        mon.equal(given, toks, 'composing changes the tokens it was given')
        if base != 'http://h/a~0b.json#':
            head = {None: [], '#': ['#'], '#/x': ['#', 'x'], '#/~1a': ['#', '/a']}[base]
            got = jp_split(ptr)
            if ptr != '':
                mon.equal(got, head + toks, 'splitting does not give the tokens back', pointer=ptr)
            n = rng.randint(1, len(head) + len(toks) + 1)
            if ptr:
                parts = jp_split(ptr, n)
                flat = ptr.split('/')
                mon.equal(parts[:n], (head + toks)[:n], 'a limited split gives other tokens', pointer=ptr, n=n)
                mon.check(len(parts) <= n + 1, 'a limited split gives too many tokens', pointer=ptr, n=n)
                if len(flat) > n:
                    mon.equal(parts[n], '/'.join(flat[n:]), 'the rest of a limited split is wrong', n=n)
                mon.count('split_limits')
        # step by step is the same as at once
        step = base
        for t in toks:
            new = jp_compose(t, base=step)
            mon.check(not step or new.startswith(step + '/'), 'appending changes the base', base=step, token=t)
            step = new
        if toks[0] or base:
            mon.equal(step, exp, 'composing step by step differs from at once')
        mon.count('round_trips')
        # two pointers are the same only for the same tokens
        other = list(toks)
        i = rng.randrange(len(other))
        other[i] = rng.choice([other[i] + '~', other[i].replace('/', '~1'), other[i].replace('~', '~0'), '',
                               other[i] + '/', other[i].replace('~1', '/')])
        if rng.random() < 0.3:
            other = other[:i] + ['/'.join(other[i:i + 2])] + other[i + 2:]
        if other != toks:
            mon.check(jp_compose(other, base='#') != jp_compose(toks, base='#'), 'two locations have one pointer',
                      other=other)
            mon.count('pairs')
        mon.shape(toks)
    if index < 100:
        mon.sample(mon.context)
