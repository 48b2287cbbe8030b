"""C22: converting between URIs and IRIs never changes what a URL names."""
import itertools
from urllib.parse import unquote, urlsplit

from verktyg.urls import (
    decode_idna, encode_idna, iri_to_uri, uri_to_iri, url_fix,
)

from mc.core import Check, Space, expect, same, words


def host_of(name):
    if not name:
        return ''
    return '.'.join(
        label if label.isascii() else label.encode('idna').decode('ascii')
        for label in name.lower().split('.'))


def meaning(url):
    """What the url names: everything a server takes it apart into."""
    parts = urlsplit(url)
    return {
        'scheme': parts.scheme,
        'user': unquote(parts.username or ''),
        'password': unquote(parts.password or ''),
        'host': host_of(parts.hostname),
        'port': parts.port,
        'path': [unquote(s) for s in parts.path.split('/')],
        'query': [[unquote(s) for s in pair.split('=')]
                  for pair in parts.query.split('&')],
        'plus': [pair.count('+') for pair in parts.query.split('&')],
        'fragment': unquote(parts.fragment),
    }


SAFE = set(
    'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'
    "-._~:/?#[]@!$&'()*+,;=%")


def run_convert(url, cx):
    """``url`` is a URI or an IRI."""
    want = meaning(url)
    uri = iri_to_uri(url)
    expect(set(uri) <= SAFE, 'iri_to_uri gave {!r}', uri)
    same(meaning(uri), want, 'iri_to_uri(%r) = %r' % (url, uri))
    same(iri_to_uri(uri), uri, 'iri_to_uri again')
    iri = uri_to_iri(url)
    same(meaning(iri), want, 'uri_to_iri(%r) = %r' % (url, iri))
    same(uri_to_iri(iri), iri, 'uri_to_iri again')
    there = uri_to_iri(uri)
    same(meaning(there), want, 'uri_to_iri(%r) = %r' % (uri, there))
    back = iri_to_uri(iri)
    same(meaning(back), want, 'iri_to_uri(%r) = %r' % (iri, back))
    expect(set(back) <= SAFE, 'iri_to_uri gave {!r}', back)
    # escaped letters of other languages become readable
    for escaped, letter in LETTERS:
        if escaped in url:
            expect(escaped not in iri and letter in iri,
                   'uri_to_iri({!r}) = {!r}', url, iri)
    # an escaped delimiter stays escaped, in every part
    if '%' in url:
        before, after = urlsplit(url), urlsplit(iri)
        for part, delimiters in DELIMITERS:
            old, new = getattr(before, part), getattr(after, part)
            for n in delimiters:
                same((new or '').upper().count(n),
                     (old or '').upper().count(n),
                     '%s in the %s of %r' % (n, part, iri))
    if '@' in uri:
        same(urlsplit(uri).netloc.count('@'),
             1 if urlsplit(url).username is not None else 0,
             'at signs in %r' % uri)
    cx.step(6)
    cx.outcome(len(uri) - len(url))
    cx.state(uri)


DELIMITERS = [(part, ['%%%02X' % ord(d) for d in text]) for part, text in (
    ('path', '%/;?#'), ('query', '%;/?:@&=+,$#'),
    ('fragment', '%;/?:@&=+,$#'), ('username', '/:%?#@[]'),
    ('password', '/:%?#@[]'))]

LETTERS = (('%C3%BC', '\xfc'), ('%E2%98%83', '\u2603'),
           ('%F0%9F%98%80', '\U0001f600'), ('%c3%bc', '\xfc'),
           ('%e2%98%83', '\u2603'), ('%f0%9F%98%80', '\U0001f600'))

ESCAPES = tuple(
    '%%%02X' % n for n in
    list(range(0x20)) + [ord(c) for c in ' !"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~aZ7']
    + [0x7f])
ESCAPES += tuple(e.lower() for e in ESCAPES if e != e.lower())
RAW = ('a', '\xfc', '\u2603', ' ', '"', '<', '\\', '|', '^', '`', '{', ':',
       ';', '+', '.', '~', '@', '=', '&', ',', '!', "'", '(', '*', '$')

SITES = ('http://:p%3A@h', 'http://h', 'https://h:8080', 'http://\u2603.net',
         'http://xn--n3h.net', 'http://u:p@h', 'http://%C3%BC:%40%3A@h:1',
         'http://\xfc@h', 'http://[::1]:80')


def urls(depth):
    few = ('a', '%2F', '/', '%25', '%C3%BC', '\xfc', ' ', '%23', '%3F', ';',
           '%3B', '+', '%2B', '%0A', '%20', ':', '%26', '%3D', '=', '&',
           '%E2%98%83', '\U0001f600', '%F0%9F%98%80', '%5B', '.', '%41',
           '%2f', '%3d')

    def gen():
        # every escape and every character, in every part
        for token in ESCAPES + RAW + tuple(e for e, _ in LETTERS):
            if token == '%00':
                continue
            for around in ('%s', 'a%s', '%sa', 'a%sa', '%s%s', '%%25%s'):
                text = around.replace('%s', token) if '%%' not in around \
                    else '%25' + token
                yield 'http://h/' + text
                yield 'http://h/?' + text
                yield 'http://h/?k=' + text + '&l=1'
                yield 'http://h/#' + text
                yield '/' + text
                if token not in ('%2F', '%2f', '\\'):
                    yield 'http://h/a/' + text + '/b'
        for word in words(few, depth):
            text = ''.join(word)
            yield 'http://h/' + text
            yield 'http://h/?' + text
            yield 'http://h/#' + text
            if not text.startswith('/'):
                yield '/' + text
        for site in SITES:
            for word in words(few, depth - 1):
                text = ''.join(word)
                yield site + '/' + text + '?' + text + '#' + text
            yield site
        # long ones
        for n in tuple(range(5, 21)) + (33, 65, 129):
            for token in few + ('%C3%BCa', 'a%2Fb', '%41%2F', '%2F/'):
                for last in ('%2F', '%C3%BC', 'z'):
                    text = token * n + last
                    yield 'http://h/' + text
                    yield 'http://h/?k=' + text + '&l=1'
                    yield 'http://h/#' + text
            if n < 40:
                yield 'http://' + '.'.join(['\xfc'] * n) + '/'
                yield 'http://' + '.'.join(['a'] * n + ['\xfc']) + '/'
    return gen


def users(depth):
    tokens = ('a', '%40', '%3A', '%2F', '%25', '%C3%BC', '\xfc', '%23', '%3F',
              '%20', '%5B', '%3a', '%2f')

    def gen():
        for user in words(tokens, depth, 1):
            yield 'http://:%s@h/' % ''.join(user)
            yield 'http://%s@b@h/' % ''.join(user)
            yield 'http://%s@b:c@h/' % ''.join(user)
            for password in words(tokens + ('@',), 1):
                for host in ('h', '\u2603.net', 'h:1'):
                    yield 'http://%s%s@%s/' % (
                        ''.join(user),
                        ':' + ''.join(password) if password else '', host)
    return gen


def run_idna(name, cx):
    encoded = encode_idna(name)
    expect(isinstance(encoded, bytes), 'encoded {!r}', encoded)
    same(encoded.decode('ascii'), '.'.join(
        p if name.isascii() else p.encode('idna').decode('ascii')
        for p in name.split('.')), 'encoded %r' % name)
    same(decode_idna(encoded), name, 'decoded %r' % encoded)
    same(decode_idna(encoded.decode('ascii')), name, 'decoded text')
    same(decode_idna(name), name, 'decoded already')
    same(encode_idna(encoded), encoded, 'encoded already')
    cx.step()
    cx.outcome(name.isascii())
    cx.state(name)


def names(depth):
    def gen():
        labels = ['a', 'b-1', '\xfc', '\u2603', 'a\xfc', '\u043f\u0440']
        for word in words(labels, depth, 1):
            yield '.'.join(word)
        for n in range(4, 9):
            for at in range(n):
                yield '.'.join('\xfc' if i == at else 'a%d' % i
                               for i in range(n))
                yield '.'.join('a%d' % i if i == at else '\u2603'
                               for i in range(n))
        for n in tuple(range(9, 21)) + (25, 28):
            yield '.'.join(['\xfc'] * n)
            yield '.'.join(['a'] * n + ['\xfc'])
            yield '.'.join(['\xfc'] + ['a'] * n)
    return gen


def run_broken_name(case, cx):
    """A label that is no IDNA leaves the others readable"""
    name = '.'.join(case)
    want = '.'.join({'xn--n3h': '\u2603'}.get(label, label)
                    for label in case)
    same(decode_idna(name), want, 'decoded %r' % name)
    same(decode_idna(name.encode('ascii')), want, 'decoded bytes')
    cx.step()
    cx.outcome(len(case))
    cx.state(case)


def broken_names(depth):
    def gen():
        return words(('xn--n3h', 'a', 'xn--0', 'x' * 64), depth, 1)
    return gen


def run_errors(case, cx):
    """What cannot be decoded is treated as asked for"""
    part, text, errors = case
    url = 'http://h/' + {'path': '', 'query': '?', 'fragment': '#'}[
        part] + text
    try:
        want = unquote(text, errors=errors)
    except UnicodeDecodeError:
        want = None
    try:
        got = getattr(urlsplit(uri_to_iri(url, errors)), part)
    except UnicodeDecodeError:
        got = None
    same(got and got.lstrip('/'), want, 'uri_to_iri(%r, %r)' % (url, errors))
    cx.step()
    cx.outcome(got)
    cx.state(case)


def error_cases():
    return itertools.product(
        ('path', 'query', 'fragment'),
        ('%FFa', 'a%FF', 'a%C3%28b', '%C3%BC', 'a%E2%98'),
        ('replace', 'ignore', 'strict'))


def run_fix(url, cx):
    """A url as somebody typed it"""
    fixed = url_fix(url)
    expect(set(fixed) <= SAFE, 'url_fix({!r}) = {!r}', url, fixed)
    same(url_fix(fixed), fixed, 'url_fix again')
    want = meaning(url.replace('\\', '/'))
    got = meaning(fixed)
    for part in ('scheme', 'user', 'password', 'host', 'port', 'path'):
        same(got[part], want[part], '%s of %r' % (part, fixed))

    def plain(query):
        return [[s.replace('+', ' ') for s in pair] for pair in query]
    same(plain(got['query']), plain(want['query']), 'query of %r' % fixed)
    same(got['fragment'], want['fragment'], 'fragment of %r' % fixed)
    if not url.isascii():
        # in another encoding
        try:
            url.encode('latin1')
        except UnicodeEncodeError:
            pass
        else:
            other = url_fix(url, charset='latin1')
            expect(set(other) <= SAFE, 'url_fix({!r}) = {!r}', url, other)
            parts = urlsplit(url.replace('\\', '/'))
            got = urlsplit(other)
            if not parts.username:
                for part in ('path', 'query', 'fragment'):
                    have, given = getattr(got, part), getattr(parts, part)
                    if part == 'query':
                        have, given = (t.replace('+', ' ')
                                       for t in (have, given))
                    same(unquote(have, 'latin1'), unquote(given, 'latin1'),
                         '%s of %r' % (part, other))
    cx.step()
    cx.outcome(len(fixed) - len(url))
    cx.state(fixed)


def run_ports(first, cx):
    """Every port there is"""
    for port in range(first, min(first + 64, 65536)):
        for site in ('h', 'u@h', '\u2603.net', '[::1]'):
            url = 'ftp://%s:%d/a' % (site, port)
            for convert in (uri_to_iri, iri_to_uri, url_fix):
                got = urlsplit(convert(url))
                same((got.scheme, got.port, got.path), ('ftp', port, '/a'),
                     '%s(%r)' % (convert.__name__, url))
                cx.step()
    cx.outcome('ok')
    cx.state(first)


def run_drive(case, cx):
    """A path on Windows is no host"""
    drive, sign, slash, rest = case
    want = 'file:///' + drive + {':': ':', '|': '%7C'}[sign] + '/' + rest
    for start in ('file://', 'file:///', 'file:\\\\', 'file:///'):
        url = start + drive + sign + slash + rest.replace('/', slash)
        got = url_fix(url)
        same(got.replace('%3A', ':'), want.replace(' ', '%20'),
             'url_fix(%r)' % url)
        same(url_fix(got), got, 'url_fix again')
        cx.step()
    cx.outcome(drive)
    cx.state(case)


def drives():
    return itertools.product(
        'aCz', ':|', '/\\', ('', 'x', 'x y/z', 'a/b/c', '/'.join('abcdefghijklmn')))


def fixes(depth):
    tokens = ('a', '/', '\\', ' ', '\xfc', '%20', '(', '&', '=', '"', '+',
              '\u2603', '%C3%BC', ':', '%2f', '%26')

    def gen():
        for word in words(tokens, depth):
            text = ''.join(word)
            yield 'http://h/' + text
            yield 'http://\u2603.net:81/x?' + text.replace('\\', '').replace(
                '/', '').replace('"', '')
            if len(word) < 4:
                yield 'http://h/x?k=' + text.replace('\\', '')
                yield 'http://h/?k#' + text.replace('\\', '')
                yield 'http://\xfc:' + ''.join(
                    c for c in word if c not in '/\\:') + '@h/' + text
    return gen


check = Check('C22', [
    Space('conversions', run_convert, urls(3), urls(4)),
    Space('users', run_convert, users(2), users(4)),
    Space('host names', run_idna, names(3), names(5)),
    Space('broken host names', run_broken_name, broken_names(4),
          broken_names(6)),
    Space('undecodable', run_errors, error_cases),
    Space('drives', run_drive, drives),
    Space('ports', run_ports, lambda: range(1, 65536, 64)),
    Space('typed urls', run_fix, fixes(4), fixes(5)),
], bounds='conversions: every ASCII escape and every kind of raw character '
   'in every part, and every text of up to 3 (thorough 4) of 26 tokens as '
   'path, query and fragment of 8 sites; users: up to 2 (4) of 11 tokens; '
   'host names: up to 3 (5) labels of 6; typed urls: up to 4 (5) tokens',
   assumptions=[
       'escapes are valid UTF-8, no bare percent signs',
       'host names in lower case; a path without a host does not begin with '
       'two slashes',
   ])
