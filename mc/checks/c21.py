"""C21: a request tells the application where it came from and what it asked
for, and nothing about an untrusted host gets through."""
import itertools
from datetime import datetime
from urllib.parse import (
    parse_qsl, quote, quote_plus, unquote, unquote_plus, unquote_to_bytes,
    urlsplit,
)

from verktyg.datastructures import (
    ImmutableDict, ImmutableMultiDict, ImmutableOrderedMultiDict, MultiDict,
    OrderedMultiDict,
)
from verktyg.exceptions import SecurityError
from verktyg.requests import PlainRequest, Request
from verktyg.urls import iri_to_uri
from verktyg.wsgi import (
    get_current_url, get_host, get_path_info, get_query_string,
    get_script_name, host_is_trusted,
)

from mc.core import Check, Space, expect, same, words
from mc.wsgi_client import environ


# -- which hosts are trusted -------------------------------------------------

def without_port(host):
    name, colon, port = host.rpartition(':')
    return name if colon else host


def labels(host):
    host = without_port(host)
    return [
        label if label.isascii() else
        label.encode('idna').decode('ascii') for label in host.split('.')
    ]


def trusted(host, refs):
    if not host:
        return False
    host = labels(host)
    for ref in refs:
        below = ref.startswith('.')
        ref = labels(ref[1:] if below else ref)
        if host == ref:
            return True
        if below and len(host) > len(ref) and host[-len(ref):] == ref:
            return True
    return False


ATTRIBUTES = ('host', 'host_url', 'url_root', 'base_url', 'url')


def run_trust(case, cx):
    host, refs = case
    want = trusted(host, refs)
    for given in (list(refs), tuple(refs)) + (
            (refs[0],) if len(refs) == 1 else ()):
        same(bool(host_is_trusted(host, given)), want,
             '%r trusted by %r' % (host, given))
        cx.step()

    class Strict(Request):
        trusted_hosts = list(refs)

    for env in (
        environ('/x', host=host or 'ignored', HTTP_HOST=host),
        environ('/x', host='a', HTTP_X_FORWARDED_HOST=host),
        environ('/x', host='a', HTTP_X_FORWARDED_HOST=host + ', a'),
    ):
        try:
            got = get_host(env, list(refs))
        except SecurityError:
            expect(not want, 'refused {!r}', host)
        else:
            expect(want, 'accepted {!r} with {!r}', host, refs)
            same(got, host, 'host')
        same(get_host(env), host, 'host without a list')
        cx.step()
        if not host:
            continue
        for attribute in ATTRIBUTES:
            try:
                got = getattr(Strict(env), attribute)
            except SecurityError:
                expect(not want, '{} refused {!r}', attribute, host)
            else:
                expect(want, '{} accepted {!r} with {!r}', attribute, host,
                       refs)
                if attribute != 'host' and host.isascii():
                    expect(got.startswith('http://' + host + '/') or
                           'xn--' in host, '{} is {}', attribute, got)
    cx.outcome(want)
    cx.state((labels(host), want))


def hosts(depth, count):
    def gen():
        names = ['.'.join(w) for w in words(('a', 'b', 'ba'), depth, 1)]
        names += ['\xfc.a', 'xn--tda.a', 'b.\xfc.a', '127.0.0.1', '10.127.0.0.1']
        given = names + [n + ':8080' for n in names] + ['']
        refs = [dot + n for n in names for dot in ('', '.')]
        refs += [n + ':80' for n in names[:4]]
        for n in range(0, count + 1):
            short = refs if n <= 1 else refs[:8]
            for chosen in itertools.product(short, repeat=n):
                for host in given:
                    yield host, chosen
        # long lists and deep domains
        for n in tuple(range(3, 21)) + (33, 65):
            chosen = tuple('%sh%d.a' % ('.' * (i % 2), i) for i in range(n))
            for i in (0, n // 2, n - 1, n):
                for host in ('h%d.a' % i, 'x.h%d.a' % i, 'h%d.a:80' % i):
                    yield host, chosen
            deep = '.'.join('d%d' % i for i in range(n))
            for ref in ('.d%d' % (n - 1), '.d0', '.' + deep, deep,
                        '.x.d%d' % (n - 1), '.' + deep[3:]):
                yield deep, (ref,)
                yield 'x.' + deep, (ref,)
    return gen


# -- which host it is --------------------------------------------------------

def run_host(case, cx):
    forwarded, header, name, port, scheme = case
    env = environ('/p', scheme=scheme)
    for key in ('HTTP_HOST', 'HTTP_X_FORWARDED_HOST'):
        env.pop(key, None)
    if forwarded is not None:
        env['HTTP_X_FORWARDED_HOST'] = forwarded
    if header is not None:
        env['HTTP_HOST'] = header
    env['SERVER_NAME'] = name
    env['SERVER_PORT'] = port
    if forwarded is not None:
        want = forwarded.split(',')[0].strip()
    elif header is not None:
        want = header
    elif (scheme, port) in (('http', '80'), ('https', '443')):
        want = name
    else:
        want = '%s:%s' % (name, port)
    same(get_host(env), want, 'host')
    request = Request(env)
    same(request.host, want, 'host of the request')
    same(request.host_url, '%s://%s/' % (scheme, want), 'host url')
    same(request.url, '%s://%s/p' % (scheme, want), 'url')
    same(request.is_secure, scheme == 'https', 'secure')
    same(request.scheme, scheme, 'scheme')
    cx.step()
    cx.outcome(want)
    cx.state(case)


def host_cases():
    return itertools.product(
        (None, 'f', 'f:81', 'f, g', ' f:81 ,g:82, h', 'f,g'),
        (None, 'h', 'h:80', 'h:443', 'h:8080'),
        ('s', 's.t'), ('80', '443', '8080'), ('http', 'https'))


# -- the url -----------------------------------------------------------------

def decoded(url):
    parts = urlsplit(iri_to_uri(url))
    return parts.scheme, parts.netloc, unquote(parts.path), parts.query, (
        parts.fragment)


def run_url(case, cx):
    script, path, query, host, scheme = case
    env = environ(path, script=script.encode('utf-8').decode('latin1'),
                  query=query.encode('utf-8').decode('latin1'),
                  host=host, scheme=scheme)
    request = Request(env)
    root = script.rstrip('/') + '/'
    whole = root + path.lstrip('/')
    idna = host.encode('idna').decode('ascii') if not host.isascii() else host
    pairs = parse_qsl(query, keep_blank_values=True)
    for url, want, has_query in (
        (request.host_url, '/', False), (request.url_root, root, False),
        (request.base_url, whole, False), (request.url, whole, True),
    ):
        got = decoded(url)
        same(got[0], scheme, 'scheme of %r' % url)
        same(got[1], idna, 'host of %r' % url)
        same(got[2], want, 'path of %r' % url)
        same(got[4], '', 'fragment of %r' % url)
        if has_query:
            same(parse_qsl(got[3], keep_blank_values=True), pairs,
                 'query of %r' % url)
        else:
            same(got[3], '', 'query of %r' % url)
    same(request.url, get_current_url(env), 'current url')
    same(request.base_url, get_current_url(env, strip_querystring=True),
         'current url')
    same(request.url_root, get_current_url(env, root_only=True),
         'current url')
    same(request.host_url, get_current_url(env, host_only=True),
         'current url')
    same(request.path, '/' + path.lstrip('/'), 'path')
    same(request.script_root, script.rstrip('/'), 'script root')
    same(request.query_string, query, 'query string')
    same(request.full_path, '/' + path.lstrip('/') + '?' + query, 'full path')
    same(get_path_info(env), path, 'path info')
    same(get_path_info(env, charset=None), path.encode('utf-8'), 'path info')
    same(get_script_name(env), script, 'script name')
    same(get_script_name(env, charset=None), script.encode('utf-8'),
         'script name')
    qs = get_query_string(env)
    expect(qs.isascii(), 'query string {!r}', qs)
    same(unquote_to_bytes(qs), unquote_to_bytes(query.encode('utf-8')),
         'bytes of the query string')
    same(unquote(decoded(request.url)[3]), unquote(query),
         'query of the url')
    same(parse_qsl(qs, keep_blank_values=True), pairs, 'query string')
    cx.step()
    cx.outcome(len(pairs))
    cx.state(case)


CHARS = ('a', '/', '%', ' ', '?', '#', ';', '&', '+', ':', '@', '\xfc', '\u2603',
         '%41', '%2F', '"', '\\', '[', '=', '\t', '\n', '\x01', '\x7f', '~', '.')


def urls(depth):
    def gen():
        for script in ('', '/', '/app', '/app/', '/\xfc b', '/a%20/b', '/a?'):
            for word in words(CHARS, depth):
                path = '/' + ''.join(word)
                yield script, path, '', 'h', 'http'
        for query in (''.join(w) for w in words(
                ('a', '=', '&', '%26', '+', '\xfc', '%', '/', '?', '%3D',
                 '#', '%23', ';'), depth + 1)):
            yield '', '/', query, 'h', 'http'
        for host in ('h', 'h:8080', 'h.example', 'xn--tda.example',
                     '127.0.0.1:80'):
            for scheme in ('http', 'https'):
                for path in ('', '/', '//', '/a', '/a//b/', '/a/../b'):
                    yield '/app', path, 'q=1&q=2', host, scheme
    return gen


# -- the query ---------------------------------------------------------------

def run_args(case, cx):
    plus, pairs = case
    encode = quote_plus if plus else quote
    query = '&'.join('%s=%s' % (encode(k), encode(v)) for k, v in pairs)
    request = Request(environ(query=query))
    keys = []
    for key, value in pairs:
        if key not in keys:
            keys.append(key)
    same(sorted(request.args.keys()), sorted(keys), 'keys of %r' % query)
    for key in keys:
        values = [v for k, v in pairs if k == key]
        same(request.args.getlist(key), values, 'values of %r' % query)
        same(request.args[key], values[0], 'first value of %r' % query)
    cx.step()
    cx.outcome(len(keys))
    cx.state(case)


def args(depth, size):
    def gen():
        chars = ('a', '&', '=', '+', ' ', '%', '\xfc', '\u2603', ';', '#',
                 '%41', '\n', '"')
        for plus in (False, True):
            for text in words(chars, size, 1):
                yield plus, (('k', ''.join(text)),)
                yield plus, ((''.join(text), 'v'),)
            pairs = [(k, v) for k in ('a', 'b', 'a&') for v in ('1', '2', '=')]
            for word in words(pairs, depth):
                yield plus, word
            yield plus, tuple(('k%d' % (n % 50), str(n)) for n in range(3000))
            yield plus, (('k', 'v' * 100000), ('l', '1'))
    return gen


# -- everything else ---------------------------------------------------------

def attribute(name, key, given, missing=None, get=None):
    """(name, environment key, [(value, result)...], result without it)"""
    return name, key, given, missing, get or (
        lambda request: getattr(request, name))


DATE = 'Sun, 06 Nov 1994 08:49:37 GMT'
WHEN = datetime(1994, 11, 6, 8, 49, 37)

TABLE = [
    attribute('method', 'REQUEST_METHOD', [
        ('POST', 'POST'), ('get', 'GET')], 'GET'),
    attribute('access_route', 'HTTP_X_FORWARDED_FOR', [
        ('1.1.1.1, 2.2.2.2,3.3.3.3', ['1.1.1.1', '2.2.2.2', '3.3.3.3']),
        ('1.1.1.1', ['1.1.1.1']),
        ('unknown, _hidden,1.1.1.1 ,1.1.1.1', [
            'unknown', '_hidden', '1.1.1.1', '1.1.1.1']),
        ('::1, ' * 40 + '10.0.0.1', ['::1'] * 40 + ['10.0.0.1'])],
        ..., lambda r: list(r.access_route)),
    attribute('kind of access_route', 'HTTP_X_FORWARDED_FOR', [
        ('1.1.1.1, 2.2.2.2', Request.list_storage_class),
        ('1.1.1.1', Request.list_storage_class)],
        Request.list_storage_class, lambda r: type(r.access_route)),
    attribute('remote_addr', 'REMOTE_ADDR', [('9.9.9.9', '9.9.9.9')]),
    attribute('remote_user', 'REMOTE_USER', [('joe', 'joe'), ('', '')]),
    attribute('is_xhr', 'HTTP_X_REQUESTED_WITH', [
        ('XMLHttpRequest', True), ('xmlhttprequest', True), ('no', False),
        ('XMLHTTPREQUEST', True), ('NoXMLHttpRequest', False),
        ('xmlhttprequest2', False)],
        False),
    attribute('content_type', 'CONTENT_TYPE', [
        ('text/HTML; Charset="a b"; x=1', 'text/HTML; Charset="a b"; x=1')]),
    attribute('content_length', 'CONTENT_LENGTH', [
        ('7', 7), ('x', None), ('-3', 0), ('', None), ('0', 0),
        ('4294967296', 4294967296)]),
    attribute('content_encoding', 'HTTP_CONTENT_ENCODING', [('gzip', 'gzip')]),
    attribute('content_md5', 'HTTP_CONTENT_MD5', [('m', 'm')]),
    attribute('referrer', 'HTTP_REFERER', [('http://r/', 'http://r/')]),
    attribute('date', 'HTTP_DATE', [(DATE, WHEN), ('x', None)]),
    attribute('max_forwards', 'HTTP_MAX_FORWARDS', [
        ('5', 5), ('x', None), ('0', 0)]),
    attribute('pragma', 'HTTP_PRAGMA', [
        ('no-cache, "a b"', ['no-cache', 'a b']),
        ('No-Cache, "a B"', ['No-Cache', 'a B'])], [],
        lambda r: list(r.pragma)),
    attribute('if_modified_since', 'HTTP_IF_MODIFIED_SINCE', [(DATE, WHEN)]),
    attribute('if_unmodified_since', 'HTTP_IF_UNMODIFIED_SINCE', [
        (DATE, WHEN)]),
    attribute('if_match', 'HTTP_IF_MATCH', [('"m"', ['m'])], [],
              lambda r: sorted(r.if_match.as_set())),
    attribute('if_none_match', 'HTTP_IF_NONE_MATCH', [('"n", "o"',
                                                       ['n', 'o']),
        (', '.join('"tag-%d"' % n for n in range(99)),
         sorted('tag-%d' % n for n in range(99)))], [],
              lambda r: sorted(r.if_none_match.as_set())),
    attribute('cookies', 'HTTP_COOKIE', [('a=b; c=d', {'a': 'b', 'c': 'd'})],
              {}, lambda r: dict(r.cookies)),
    attribute('cache_control', 'HTTP_CACHE_CONTROL', [
        ('no-cache, max-age=5', ('*', 5, False, None, None, False)),
        ('max-age=0,no-store, max-stale , min-fresh=7',
         (None, 0, True, '*', 7, False)),
        ('only-if-cached, max-stale=60, no-cache="a, b"',
         ('a, b', None, False, 60, None, True))],
        (None, None, False, None, None, False),
        lambda r: (r.cache_control.no_cache, r.cache_control.max_age,
                   r.cache_control.no_store, r.cache_control.max_stale,
                   r.cache_control.min_fresh,
                   r.cache_control.only_if_cached)),
    attribute('authorization', 'HTTP_AUTHORIZATION', [
        ('Basic dTpw', ('basic', 'u', 'p')), ('Other x', None)], None,
        lambda r: r.authorization and (
            r.authorization.type, r.authorization.username,
            r.authorization.password)),
    attribute('range', 'HTTP_RANGE', [
        ('bytes=0-4,7-', ('bytes', [(0, 5), (7, None)])), ('x', None)], None,
        lambda r: r.range and (r.range.units, r.range.ranges)),
    attribute('if_range', 'HTTP_IF_RANGE', [
        ('"i"', ('i', None)), (DATE, (None, WHEN))], (None, None),
        lambda r: (r.if_range.etag, r.if_range.date)),
    attribute('mimetype', 'CONTENT_TYPE', [
        ('text/HTML; Charset="a b"; x=1', 'text/html')], '',
        lambda r: r.mimetype or ''),
    attribute('mimetype_params', 'CONTENT_TYPE', [
        ('text/HTML; charset="a b"; x=1', {'charset': 'a b', 'x': '1'}),
        ('Multipart/Form-Data; boundary=AaBb', {'boundary': 'AaBb'})], {}),
    attribute('is_multithread', 'wsgi.multithread', [
        (True, True), (False, False)]),
    attribute('is_multiprocess', 'wsgi.multiprocess', [
        (True, True), (False, False)]),
    attribute('is_run_once', 'wsgi.run_once', [(True, True), (False, False)]),
    attribute('scheme', 'wsgi.url_scheme', [
        ('https', 'https'), ('http', 'http')], None),
]


def run_attributes(case, cx):
    """``case`` gives a value number for some rows of the table."""
    env = environ('/')
    for row in TABLE:
        env.pop(row[1], None)
    for index, number in case:
        env[TABLE[index][1]] = TABLE[index][2][number][0]
    before = dict(env)
    chosen = dict(case)
    keys = {TABLE[i][1] for i in chosen}
    for twice in range(2):
        request = Request(env) if not twice else request
        for index, (name, key, given, missing, get) in enumerate(TABLE):
            if key in keys and index not in chosen:
                continue
            want = given[chosen[index]][1] if index in chosen else missing
            if want is ...:
                want = [env['REMOTE_ADDR']] if 'REMOTE_ADDR' in env else []
            got = get(request)
            expect(got == want and isinstance(got, type(want)),
                   '{}: implementation gave {!r}, model says {!r}', name,
                   got, want)
            cx.step()
    expect(env.pop('verktyg.request') is request, 'request in the environ')
    same(env, before, 'environ')
    cx.outcome(len(case))
    cx.state(case)


# headers which have nothing to do with any of the attributes
NOISE = {
    'HTTP_PROXY_AUTHORIZATION': 'Basic YTpi', 'HTTP_CONTENT_TYPE': 'a/b; c=d',
    'HTTP_CONTENT_LENGTH': '99', 'HTTP_X_REAL_IP': '8.8.8.8',
    'HTTP_FORWARDED': 'for=7.7.7.7;host=f;proto=https',
    'HTTP_CLIENT_IP': '6.6.6.6', 'HTTP_X_HTTP_METHOD_OVERRIDE': 'PUT',
    'HTTP_X_FORWARDED_PROTO': 'https', 'HTTP_X_FORWARDED_PORT': '81',
    'HTTP_X_FORWARDED_SSL': 'on', 'HTTPS': 'on', 'SERVER_PORT': '443',
    'HTTP_REFERRER': 'http://other/', 'HTTP_X_REMOTE_USER': 'mallory',
    'HTTP_REMOTE_USER': 'mallory', 'HTTP_REMOTE_ADDR': '5.5.5.5',
    'HTTP_X_REQUESTED_FOR': 'XMLHttpRequest', 'HTTP_COOKIE2': 'e=f',
    'HTTP_ETAG': '"e"', 'HTTP_LAST_MODIFIED': DATE, 'HTTP_EXPIRES': DATE,
    'HTTP_X_CACHE_CONTROL': 'no-store', 'HTTP_CONTENT_RANGE': 'bytes 1-2/3',
    'HTTP_ACCEPT': 'text/plain', 'HTTP_USER_AGENT': 'agent',
    'wsgi.errors': None, 'REQUEST_URI': '/other?x=y', 'AUTH_TYPE': 'digest',
    'QUERY_STRING': '_method=PUT&max-age=3',
}


def run_noise(case, cx):
    """As above, with another header that isn't about the same."""
    chosen, noise = case
    env = environ('/')
    for row in TABLE:
        env.pop(row[1], None)
    plain = dict(env)
    for index, number in chosen:
        plain[TABLE[index][1]] = env[TABLE[index][1]] = (
            TABLE[index][2][number][0])
    env[noise] = NOISE[noise]
    for name, key, given, missing, get in TABLE:
        same(repr(get(Request(env))), repr(get(Request(plain))),
             '%s with %s' % (name, noise))
        cx.step()
    cx.outcome(len(chosen))
    cx.state(case)


def noises():
    for noise in NOISE:
        yield (), noise
        for index, row in enumerate(TABLE):
            for number in range(len(row[2])):
                yield ((index, number),), noise


# -- one request does not change what the next one sees -----------------------

def mutate(value):
    for change in (
        lambda: value.update({'changed': 'x'}),
        lambda: value.__setitem__('other', 'x'),
        lambda: value.add('added'), lambda: value.append('added'),
        lambda: setattr(value, 'max_age', 77),
        lambda: value.ranges.append((1, 2)),
        lambda: value.clear(), lambda: value._strong.clear(),
        lambda: setattr(value, 'etag', 'changed'),
    ):
        try:
            change()
        except Exception:
            pass


RAW = ('access_route', 'pragma', 'if_match', 'if_none_match', 'cookies',
       'cache_control', 'authorization', 'range', 'if_range',
       'mimetype_params', 'headers', 'args')


def run_isolated(case, cx):
    env = environ('/', query='a=b')
    for index, number in case:
        env[TABLE[index][1]] = TABLE[index][2][number][0]

    def seen(request):
        return [repr(get(request)) for _, _, _, _, get in TABLE] + [
            sorted(request.args.items(multi=True)),
            sorted(request.headers)]
    want = seen(Request(dict(env)))
    first = Request(dict(env))
    for name in RAW:
        mutate(getattr(first, name))
    same(seen(Request(dict(env))), want, 'what the second request sees')
    cx.step(2)
    cx.outcome(len(case))
    cx.state(case)


# -- bytes that aren't UTF-8 --------------------------------------------------

def run_bytes(case, cx):
    errors, data = case

    class Lenient(Request):
        encoding_errors = errors
    text = data.decode('latin1')
    escaped = ''.join('%%%02X' % b for b in data)

    def get(name, **env):
        try:
            request = Lenient(dict(environ('/'), **env))
            return name(request) if callable(name) else getattr(
                request, name)
        except UnicodeDecodeError:
            return UnicodeDecodeError
    try:
        want = data.decode('utf-8', errors)
    except UnicodeDecodeError:
        want = None
    for name, given, result in (
        ('path', {'PATH_INFO': '/' + text}, lambda: '/' + want),
        (lambda r: get_path_info(r.environ, errors=errors),
         {'PATH_INFO': '/' + text}, lambda: '/' + want),
        (lambda r: get_script_name(r.environ, 'utf-8', errors),
         {'SCRIPT_NAME': '/x' + text}, lambda: '/x' + want),
        (lambda r: get_path_info(r.environ, None, errors),
         {'PATH_INFO': '/' + text}, lambda: b'/' + data),
        (lambda r: get_script_name(r.environ, None),
         {'SCRIPT_NAME': '/x' + text}, lambda: b'/x' + data),
        ('script_root', {'SCRIPT_NAME': '/x' + text}, lambda: '/x' + want),
        ('query_string', {'QUERY_STRING': 'k=' + text}, lambda: 'k=' + want),
        ('full_path', {'PATH_INFO': '/' + text, 'QUERY_STRING': text},
         lambda: '/%s?%s' % (want, want)),
        ('args', {'QUERY_STRING': 'k=x' + text},
         lambda: ImmutableMultiDict({'k': 'x' + want})),
        ('args', {'QUERY_STRING': 'k=x' + escaped},
         lambda: ImmutableMultiDict({'k': 'x' + want})),
        ('cookies', {'HTTP_COOKIE': 'k=x' + text}, lambda: {'k': 'x' + want}),
    ):
        result = (result() if want is not None or
                  result.__code__.co_freevars == ('data',)
                  else UnicodeDecodeError)
        same(get(name, **given), result,
             '%s of %r, errors %s' % (name, data, errors))
        cx.step()
    cx.outcome(want)
    cx.state(case)


def raw_bytes(depth):
    def gen():
        for errors in ('strict', 'replace', 'ignore', 'backslashreplace'):
            for word in words((b'a', b'\xc3', b'\xbc', b'\xff', b'\xe2\x98'),
                              depth):
                yield errors, b''.join(word)
    return gen


def attributes(most):
    def gen():
        rows = range(len(TABLE))
        for n in range(0, most + 1):
            for chosen in itertools.combinations(rows, n):
                if len({TABLE[i][1] for i in chosen}) < n:
                    continue
                for numbers in itertools.product(*(
                        range(len(TABLE[i][2])) for i in chosen)):
                    yield tuple(zip(chosen, numbers))
    return gen


def run_shallow(case, cx):
    shallow, populate = case
    env = environ('/', method='POST', body=b'body')
    request = Request(env, populate_request=populate, shallow=shallow)
    same('verktyg.request' in env, populate and not shallow, 'populated')
    for read in (lambda: request.stream, request.get_data):
        if shallow:
            try:
                read()
            except RuntimeError:
                pass
            else:
                expect(False, 'a shallow request gave its body away')
    if shallow:
        same(env['wsgi.input'].read(), b'body', 'body left in the environ')
    else:
        same(request.get_data(), b'body', 'body')
    cx.step()
    cx.outcome(case)
    cx.state(case)


# -- classes of one's own ------------------------------------------------------

class OwnList(list):
    pass


class OwnDict(dict):
    pass


PARAMETERS = [ImmutableMultiDict, ImmutableOrderedMultiDict, MultiDict,
              OrderedMultiDict, ImmutableDict, dict, OwnDict, list, OwnList,
              tuple]
LISTS = [list, OwnList, tuple, frozenset]
DICTS = [dict, OwnDict, ImmutableDict, MultiDict, list]


def run_own_classes(case, cx):
    base, parameters, lists, dicts, query = case
    base = {'Request': Request, 'PlainRequest': PlainRequest}[base]
    own = type('Own', (base,), {
        'parameter_storage_class': PARAMETERS[parameters],
        'list_storage_class': LISTS[lists],
        'dict_storage_class': DICTS[dicts]})
    pairs = parse_qsl(query)
    cookies = [('x', 'y'), ('z', '1')]
    route = ['1.1.1.1', '2.2.2.2']
    for cls in (own, base, own):
        env = environ('/', query=query, headers=[
            ('Cookie', 'x=y; z=1'), ('X-Forwarded-For', ', '.join(route))])
        for keys, want in ((3, route), (2, ['9.9.9.9']), (1, [])):
            if keys < 3:
                env.pop('HTTP_X_FORWARDED_FOR', None)
                env['REMOTE_ADDR'] = '9.9.9.9'
            if keys < 2:
                env.pop('REMOTE_ADDR', None)
            got = cls(env).access_route
            same(type(got), cls.list_storage_class, 'kind of access_route')
            same(got, cls.list_storage_class(want), 'access_route')
            cx.step()
        request = cls(env)
        same(type(request.args), cls.parameter_storage_class, 'kind of args')
        same(request.args, cls.parameter_storage_class(pairs), 'args')
        same(type(request.cookies), cls.dict_storage_class,
             'kind of cookies')
        same(request.cookies, cls.dict_storage_class(cookies), 'cookies')
        cx.step(2)
    cx.outcome(case[1:4])
    cx.state(case)


def own_classes():
    for case in itertools.product(
            ('Request', 'PlainRequest'), range(len(PARAMETERS)),
            range(len(LISTS)), range(len(DICTS)), ('', 'b=1&a=2&b=3')):
        yield case


# -- a request can always be shown, and hands out its input -------------------

BROKEN = {
    'fine': {}, 'no scheme': {'wsgi.url_scheme': ...},
    'no host': {'HTTP_HOST': ..., 'SERVER_NAME': ...},
    'no port': {'HTTP_HOST': ..., 'SERVER_PORT': ...},
    'not encodable': {'PATH_INFO': '\u2603'}, 'path': {'PATH_INFO': None},
    'query': {'QUERY_STRING': '\u2603'}, 'method': {'REQUEST_METHOD': None},
    'scheme': {'wsgi.url_scheme': None}, 'bad host': {'HTTP_HOST': '\ud800'},
    'long label': {'HTTP_HOST': 'a' * 100 + '.\xfc'}, 'empty': None,
    'host': {'HTTP_HOST': 3}, 'dots': {'HTTP_HOST': '..\xfc'},
}


def run_shown(case, cx):
    names, hosts, name = case
    env = environ('/p', query='a=b')
    for broken in names:
        if BROKEN[broken] is None:
            env = {}
            continue
        for key, value in BROKEN[broken].items():
            if value is ...:
                env.pop(key, None)
            else:
                env[key] = value
    own = type(name, (Request,), {'trusted_hosts': hosts})
    text = repr(own(env))
    expect(isinstance(text, str) and name in text, 'shown as {!r}', text)
    if set(names) == {'fine'} and not hosts:
        expect('http://example.com/p?a=b' in text and 'GET' in text,
               'shown as {!r}', text)
    if 'wsgi.input' in env:
        same(own(env).input_stream is env['wsgi.input'], True, 'input')
    else:
        same(own(env).input_stream, None, 'input')
    cx.step(2)
    cx.outcome('invalid' in text)
    cx.state(case)


def shown():
    for names in itertools.product(BROKEN, repeat=2):
        for hosts in (None, ['example.org']):
            for name in ('Request', 'Own'):
                yield names, hosts, name


check = Check('C21', [
    Space('trusted hosts', run_trust, hosts(3, 2), hosts(4, 2)),
    Space('host', run_host, host_cases),
    Space('urls', run_url, urls(3), urls(4)),
    Space('arguments', run_args, args(4, 3), args(5, 4)),
    Space('attributes', run_attributes, attributes(3), attributes(4)),
    Space('noise', run_noise, noises),
    Space('isolated', run_isolated, attributes(2)),
    Space('bytes', run_bytes, raw_bytes(4), raw_bytes(6)),
    Space('classes', run_own_classes, own_classes, chunk=20),
    Space('shown', run_shown, shown, chunk=20),
    Space('shallow', run_shallow, lambda: itertools.product(
        (False, True), (False, True))),
], bounds='trusted hosts: every host name of up to 3 (thorough 4) labels, '
   'with and without a port, against every list of up to 2 entries; urls: '
   'every path of up to 3 (4) of 25 characters below 7 script names, every '
   'query of up to 4 (5) of 13; arguments: every sequence of up to 4 (5) '
   'pairs; attributes: every combination of up to 3 (4) headers',
   assumptions=[
       'host names in lower case, ports are decimal numbers, no IPv6',
       'paths are UTF-8',
       'query arguments with an empty value are not claimed',
   ])
