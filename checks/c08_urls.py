"""C08: references and URLs are normalised as URLs."""
import os
import re
import posixpath
from urllib.parse import unquote, urlparse
from pyopenapi.utils import (normalize_jr, jr_split, url_dirname, url_join, derelativise_url, normalize_url, path2url)
from vlib.gen import word
from vlib import grammar as g

ID = 'C08'
TITLE = 'reference and url normalisation'
BUDGET = {'quick': 6000, 'thorough': 200000}
NEED = {'relative': 20000, 'absolute': 3000, 'local': 5000, 'splits': 20000, 'joins': 10000, 'file_paths': 3000}
RULE = ('random base urls (http, https, file, ports, user info, queries, with and without extension) times references '
        'of every shape (local pointer, sibling, sub folder, dot segments, absolute path, other host, absolute url, '
        'with query), judged by a resolver written from RFC 3986 section 5.')

RFC = re.compile(r'^(([^:/?#]+):)?(//([^/?#]*))?([^?#]*)(\?([^#]*))?(#(.*))?$', re.S)


def parts(u):
    m = RFC.match(u)
    return m.group(2), m.group(4), m.group(5), m.group(7), m.group(9)


def unparts(scheme, auth, path, query, frag):
    out = ''
    if scheme is not None:
        out += scheme + ':'
    if auth is not None:
        out += '//' + auth
    out += path
    if query is not None:
        out += '?' + query
    if frag is not None:
        out += '#' + frag
    return out


def remove_dots(path):
    out = []
    segs = path.split('/')
    for i, s in enumerate(segs):
        last = i == len(segs) - 1
        if s == '.':
            if last:
                out.append('')
        elif s == '..':
            if len(out) > 1:
                out.pop()
            if last:
                out.append('')
        else:
            out.append(s)
    return '/'.join(out)


def rfc_resolve(ref, base):
    s, a, p, q, f = parts(ref)
    bs, ba, bp, bq, _ = parts(base)
    if s is not None:
        return ref
    if a is not None:
        return unparts(bs, a, remove_dots(p), q, f)
    if p == '':
        return unparts(bs, ba, bp, q if q is not None else bq, f)
    if p.startswith('/'):
        return unparts(bs, ba, remove_dots(p), q, f)
    return unparts(bs, ba, remove_dots(bp.rsplit('/', 1)[0] + '/' + p), q, f)


def seg(rng):
    return rng.choice(['a', 'api', 'v1.2', 'json', 'my-api', 'p%20q', 'x_y', 'a.b', 'petstore', '1', 'r.json.d', '~u'])


def fname(rng):
    return seg(rng) + rng.choice(['.json', '.yaml', '.yml', '', '.txt', '.JSON', 'json', 'yaml'])


def host(rng):
    return rng.choice(['h', 'petstore.io', 'localhost:8080', 'user@h.io', 'u:p@h:1', '127.0.0.1', 'a.b.c.d', '[::1]:80'])


def base_url(rng, query=True):
    if rng.random() < 0.25:
        return 'file:///' + '/'.join([seg(rng) for _ in range(rng.randint(0, 3))] + [fname(rng)])
    u = rng.choice(['http', 'https']) + '://' + host(rng) + ''.join('/' + seg(rng) for _ in range(rng.randint(0, 3)))
    u += ('//' if u.count('/') > 2 and rng.random() < 0.1 else '/') + fname(rng)
    if query and rng.random() < 0.2:
        u += '?' + rng.choice(['a=b', 'token=x/y', 'v=1&w=2'])
    return u


def pointer(rng):
    toks = [g.enc(word(rng).replace('#', '')) for _ in range(rng.randint(1, 4))]
    if rng.random() < 0.2:
        # a member may be named by the empty string
        toks.insert(rng.randint(0, len(toks)), '')
    return '#/' + '/'.join(toks)


def rel_path(rng, empty=True):
    segs = []
    for _ in range(rng.randint(0, 3)):
        segs.append(rng.choice(['.', '..', '..', seg(rng), seg(rng), seg(rng)]))
    if empty and segs and rng.random() < 0.15:
        # empty ones count
        for _ in range(rng.randint(1, 3)):
            segs.insert(rng.randint(1, len(segs)), '')
        if segs[0].startswith('.'):
            segs[0] = 'a'                                           # not what looks like a host in the end
    # a folder, or a file
    segs.append(rng.choice(['.', '..'] + (['', ''] if segs else [])) if rng.random() < 0.15 else fname(rng))
    return '/'.join(segs)


def case(mon, rng, index, tier):
    for _ in range(10):
        base = base_url(rng)
        jp = rng.choice(['', pointer(rng), pointer(rng)])
        shape = rng.randrange(7)
        if shape == 0:
            ref = pointer(rng)
            exp = base + ref
            mon.count('local')
        else:
            if shape in (1, 2, 3):
                ref = rel_path(rng, not base.startswith('file:'))
            elif shape == 4:
                ref = '/' + rel_path(rng, not base.startswith('file:'))
            elif shape == 5:
                ref = base_url(rng)
            else:
                ref = '//' + host(rng) + '/' + rel_path(rng, not base.startswith('file:'))
            if shape not in (5,) and rng.random() < 0.15:
                ref += '?' + rng.choice(['x=1', 'k=v/w'])
            if shape == 6 and base.startswith('file:'):
                base = 'http://h/d/e.json'
            exp = rfc_resolve(ref, base) + jp
            ref += jp
            mon.count('absolute' if shape == 5 else 'relative')
        mon.context = {'ref': ref, 'base': base}
        got = normalize_jr(ref, base)
        mon.equal(got, exp, 'reference resolves to another place', ref=ref, base=base)
        mon.equal(normalize_jr(got, base), got, 'normalising twice is not the same as once', ref=ref, base=base)
        mon.equal(normalize_jr(got, base_url(rng)), got, 'what is normalised depends on another base', ref=ref)
        mon.equal(normalize_jr(got), got, 'what is normalised needs a base', ref=ref)
        mon.shape([ref, base])
        # split and join
        url, frag = jr_split(got)
        mon.equal(url + (frag if frag != '#' else ''), got, 'splitting a reference loses something', ref=got)
        mon.check('#' not in url and frag.startswith('#'), 'a reference is split at a wrong place', ref=got)
        mon.equal(normalize_url(url), url, 'an absolute url is changed by normalising')
        mon.count('splits')
        only = pointer(rng)
        mon.equal(jr_split(only), ('', only), 'a local pointer has an url')
        # without a base
        mon.equal(normalize_jr(only), only, 'a local pointer without a base')
        mon.equal(normalize_jr(None, base), None, 'no reference')
        # folders
        s, a, p, q, _ = parts(base)
        is_file = p.endswith(('.json', '.yaml', '.yml'))
        exp = unparts(s, a, posixpath.dirname(p) if is_file else p, q, None)
        # an empty path and '/' are the same place
        mon.check(url_dirname(base) in (exp, exp if p.count('/') > 1 else unparts(s, a, '/', q, None)),
                  'folder of %s is %s' % (base, url_dirname(base)))
        # join
        folder = base_url(rng)
        s, a, p, q, _ = parts(folder)
        if rng.random() < 0.3:
            p += '/'
        name = rng.choice(['', '/']) + '/'.join([seg(rng) for _ in range(rng.randint(0, 2))] + [fname(rng)])
        exp = unparts(s, a, p.rstrip('/') + '/' + name.lstrip('/'), q, None)
        mon.equal(url_join(unparts(s, a, p, q, None), name), exp, 'joining an url', folder=folder, name=name)
        s2, a2, p2, _, _ = parts(base)
        got = url_join(url_dirname(unparts(s2, a2, p2, None, None)), 'z.json')
        folder = posixpath.dirname(p2) if is_file else p2
        mon.equal(got, unparts(s2, a2, folder.rstrip('/') + '/z.json', None, None), 'joining a folder', base=base)
        mon.count('joins')
        # dot segments
        dots = '/' + rel_path(rng, s != 'file')
        u = unparts(s, a, dots, q, None)
        mon.equal(derelativise_url(u), unparts(s, a, remove_dots(dots), q, None), 'dot segments', url=u)
        mon.equal(derelativise_url(derelativise_url(u)), derelativise_url(u), 'dot segments removed twice', url=u)
    # paths of files
    name = '/'.join([rng.choice(['a', 'b c', 'd%e', 'ü', 'x#y', 'q?r', 'v1.2', "it's"]) for _ in range(rng.randint(1, 3))])
    path = '/' + name
    got = path2url(path)
    mon.check(got.startswith('file:///') and '#' not in got and '?' not in got and ' ' not in got, 'url of a path: %s' % got)
    mon.equal(unquote(urlparse(got).path), path, 'a path does not survive becoming an url', path=path)
    plain = '/'.join(rng.choice(['a', 'b c', 'ü', 'v1.2']) for _ in range(2)) + '.json'
    mon.equal(unquote(urlparse(normalize_url('/' + plain)).path), '/' + plain, 'absolute path', path=plain)
    mon.equal(unquote(urlparse(normalize_url(plain)).path), os.path.abspath(plain), 'relative path', path=plain)
    u, jp = jr_split('/' + plain + '#/a/b')
    mon.equal((unquote(urlparse(u).path), jp), ('/' + plain, '#/a/b'), 'reference into a file', path=plain)
    mon.count('file_paths')
    try:
        normalize_url('//host/x.json')
    except ValueError:
        mon.count('oracle_decisions')
    else:
        mon.fail('an url without scheme passes')
    if index < 20:
        mon.sample(mon.context)
