"""C01: URL matching."""
import itertools

from mc.core import Check, Space, fail, same
from mc.own_converters import REFERENCE, REFUSED, TEXTS, own_cases, own_map
from mc.routing_common import (
    Route, compare_match, impl, impl_map, model, observe,
)

UUID = '12345678-9abc-def0-1234-56789ABCDEF0'

CATALOGUE = [
    Route('/', 'root'),
    Route('/a', 'a'),
    Route('/a/', 'a/'),
    Route('/<x>', 'x'),
    Route('/<x>/', 'x/'),
    Route('/<int:x>', 'int'),
    Route('/<int:x>/', 'int/'),
    Route('/<path:x>', 'path'),
    Route('/<path:x>/', 'path/'),
    Route('/a/<x>', 'a/x'),
    Route('/<x>/b', 'x/b'),
    Route('/<path:x>/b', 'path/b'),
    Route('/a/b', 'a/b'),
    Route('/a/b/', 'a/b/'),
    Route('/<any(a,bb,"c,d"):x>', 'any'),
    Route('/<any(bb,a):x>/', 'any/'),
    Route('/<float:x>', 'float'),
    Route('/<string(length=2):x>', 'len2'),
    Route('/<string(minlength=2, maxlength=3):x>', 'len23'),
    Route('/<int(min=2, max=12):x>', 'minmax'),
    Route('/<int(min=2):x>/', 'min/'),
    Route('/<int(fixed_digits=2):x>', 'fixed'),
    Route('/<float(min=1.5):x>', 'floatmin'),
    Route('/<odd:x>/', 'odd/'),
    Route('/<uuid:x>', 'uuid'),
    Route('/a-<x>', 'a-x'),
    Route('/<x>.b', 'x.b'),
    Route('/<x>-<y>', 'x-y'),
    Route('/<int:x>/<y>', 'int/y'),
    Route('/<x>/<int:y>', 'x/int'),
    Route('/<x>/<y>/', 'x/y/'),
    Route('/a/<int:x>/b', 'a/int/b'),
    Route('/a/<path:x>', 'a/path'),
    Route('/\xe9', 'e-acute'),
    Route('/a.b', 'a.b'),
    Route('/a', 'a-lax', strict_slashes=False),
    Route('/a/', 'a/-lax', strict_slashes=False),
    Route('/<x>', 'x-lax', strict_slashes=False),
    Route('/<path:x>/', 'path/-lax', strict_slashes=False),
    Route('/a/', 'a/-strict', strict_slashes=True),
    Route('/a', 'build-only', build_only=True),
    Route('/<x>', 'x-defaults', defaults={'y': 1}),
    Route('/bb', 'bb-defaults', defaults={'y': 1, 'z': None}),
    Route('/<words:x>', 'words'),
    Route('/<int(min=2):x>/<y>/', 'min/y/'),
]

SEGMENTS = ['a', 'b', 'bb', 'A', '1', '2', '12', '07', '1.5', 'a-b', '\xe9',
            'a.b', 'axb', 'c,d', 'a+b', '\u2603\U0001f600', 'a\n', 'aaaa']
SHORT = ['a', 'b', 'bb', '1', '2', '1.5']


def paths(full):
    out = ['/', '', 'a', '//a', '//', '/' + UUID, '/' + UUID[:-1],
           '/1/\n', '/a/\n', '/a//', '/a//b', '/a|b', '/a b', '/a%2Fb',
           '/a/b/b', '/a/1/b', '/a/1/b/', '/a/b/1/b', '/1/a/', '/bb/1/2/b']
    for seg in SEGMENTS:
        out += ['/' + seg, '/' + seg + '/']
    two = SEGMENTS if full else SHORT
    for s, t in itertools.product(two, SHORT):
        out += ['/%s/%s' % (s, t), '/%s/%s/' % (s, t)]
    if full:
        for s, t, u in itertools.product(SHORT, SHORT, SHORT):
            out += ['/%s/%s/%s' % (s, t, u)]
    return list(dict.fromkeys(out))


FULL = paths(True)
SMALL = paths(False)


def run_map(case, cx):
    indices, strict, size = case
    routes = [CATALOGUE[i] for i in indices]
    config = {'strict_slashes': strict}
    adapter = impl_map(routes, **config).bind('example.com')
    mm = model.Map(routes, **config)
    for path in (FULL if size else SMALL):
        want = compare_match(
            observe(adapter, path), mm, '', path, cx,
            'routes %r strict=%r path %r' % (
                [r.path for r in routes], strict, path))
        cx.state((indices, strict, want[:2] if want[0] == 'ok' else want[0]))


def one_and_two():
    n = len(CATALOGUE)
    for strict in (True, False):
        for i in range(n):
            yield (i,), strict, 1
        for i, j in itertools.product(range(n), repeat=2):
            if i != j:
                yield (i, j), strict, 0


def deep_pairs():
    n = len(CATALOGUE)
    for strict in (True, False):
        for i in range(n):
            yield (i,), strict, 1
        for i, j in itertools.product(range(n), repeat=2):
            yield (i, j), strict, 1


def triples(count, strictness):
    def gen():
        pick = range(min(count, len(CATALOGUE)))
        for strict in strictness:
            for t in itertools.permutations(pick, 3):
                yield t, strict, 0
    return gen


def whole():
    n = len(CATALOGUE)
    order = list(range(n))
    for strict in (True, False):
        for k in range(n):
            yield tuple(order[k:] + order[:k]), strict, 1
            yield tuple((order[k:] + order[:k])[::-1]), strict, 1


# -- precedence: every pair (thorough: triple) of routes whose parts are of
# every kind, with paths that many of them match

PARTS = ['a', 'aa', '<%s>', '<int:%s>', '<path:%s>', 'a<%s>']


def deep_routes(least, depth, kinds=PARTS):
    out = []
    for n in range(least, depth + 1):
        for parts in itertools.product(kinds, repeat=n):
            path = ''.join('/' + (p % 'xyzuvw'[k] if '%' in p else p)
                           for k, p in enumerate(parts))
            out.append(Route(path, path))
    return out


DEEP = deep_routes(1, 3)
DEEPEST = deep_routes(4, 4, ['a', '<%s>', '<int:%s>', '<path:%s>'])
DEEP_PATHS = ['/' + '/'.join(w)
              for n in range(1, 5)
              for w in itertools.product(['a', 'aa', '7'], repeat=n)]


def run_deep(case, cx):
    pool, first, second, paths = case
    pool = {'deep': DEEP, 'deepest': DEEPEST}[pool]
    routes = [pool[first], pool[second]]
    adapter = impl_map(routes).bind('example.com')
    mm = model.Map(routes)
    for path in DEEP_PATHS[paths:]:
        want = compare_match(
            observe(adapter, path), mm, '', path, cx,
            'routes %r path %r' % ([r.path for r in routes], path))
        cx.state((first, second, want[0]))


# parts of all lengths: what counts is the number of characters

LENGTHS = ['/<x>%s<y>' % s for s in (
    '-', '\xe9', '--', '\u2603', '\U0001f600', '-\xe9', 'a' * 15, 'b' * 16,
    'c' * 17, 'd' * 63, 'e' * 64, 'f' * 300, '\u2603' * 10)]


def run_length(case, cx):
    first, second, frame = case
    inner = [LENGTHS[i][4:-3] for i in (first, second)]
    routes = [Route(frame % LENGTHS[i][1:], str(i)) for i in (first, second)]
    adapter = impl_map(routes).bind('example.com')
    mm = model.Map(routes)
    for words in itertools.product(inner, repeat=2):
        path = frame % '1'.join(('0',) + words + ('2',))
        for path in (path, path + '/', '/' + path):
            want = compare_match(
                observe(adapter, path), mm, '', path, cx,
                'routes %r path %r' % ([r.path for r in routes], path))
            cx.state((case, words, want[:2]))


def length_cases():
    for i, j in itertools.permutations(range(len(LENGTHS)), 2):
        for frame in ('/%s', '/a/%s', '/%s/a', '/%s/', '/a-%s'):
            yield i, j, frame


def deep_cases():
    for i in range(len(DEEP)):
        for j in range(len(DEEP)):
            if i != j:
                # paths with less parts than both routes can't match
                least = min(DEEP[i].path.count('/'), DEEP[j].path.count('/'))
                yield 'deep', i, j, (0, 3, 12)[least - 1]


def deepest_cases():
    yield from deep_cases()
    for i in range(len(DEEPEST)):
        for j in range(len(DEEPEST)):
            if i != j:
                yield 'deepest', i, j, 39


# -- converters: every short text over an alphabet that includes everything a
# converter could be confused about

CONVERTERS = [
    'default', 'string', 'string(minlength=2)', 'string(maxlength=2)',
    'string(length=3)', 'string(minlength=2,maxlength=3)', 'path', 'int',
    'int(min=10)', 'int(max=10)', 'int(fixed_digits=3)',
    'int(fixed_digits=2,min=5,max=20)', 'float', 'float(min=1.0)',
    'float(max=1.5)', 'float(min=0.5, max=1.1)', 'any(a,1)'.replace(
        ',1', ',"1"'), 'any("a/1", "a")', 'any(a, aa, "a.1")', 'odd',
    'words', 'any("1.", "-")', 'int(max=0)', 'int(min=0, max=1)',
    'float(max=0.0)', 'int(min=10, max=100)', 'any("\'a\'", \'"1\', a)',
]
FRAMES = ['/<%s:v>', '/<%s:v>/', '/a<%s:v>', '/<%s:v>a', '/a/<%s:v>',
          '/<%s:v>/a']


def converter_cases(length):
    def gen():
        for conv in range(len(CONVERTERS)):
            for frame in range(len(FRAMES)):
                for strict in (True, False):
                    yield conv, frame, strict, length
    return gen


def run_converter(case, cx):
    conv, frame, strict, length = case
    route = Route(FRAMES[frame] % CONVERTERS[conv], 'e')
    adapter = impl_map([route], strict_slashes=strict).bind('example.com')
    mm = model.Map([route], strict_slashes=strict)
    head = route.path.split('<')[0]
    for n in range(length + 1):
        for word in itertools.product('a1/.-0', repeat=n):
            for path in {'/' + ''.join(word), head + ''.join(word)}:
                want = compare_match(
                    observe(adapter, path), mm, '', path, cx,
                    'route %r strict=%r path %r' % (
                        route.path, strict, path))
    for value in ['\xe9', '\u2603', 'a b', 'a?b', 'a#b', 'a%20', '\n', 'a\n',
                  '1\n', '\U0001f600', '1' * 30, 'a' * 300, '|', '<', '\\',
                  '0.5', '1.0', '1.50', '1.2', '10', '010', '9', '11', '005',
                  '020', '021', "'a'", '"1', '1"', "'a", "a'",
                  '1.' + '0' * 30, '0.' + '1' * 40, '1e5', '-1', '+1', ' 1', '1_0', '0x1']:
        for path in (head + value, head + value + '/', head + value + '/a',
                     head + value + 'a'):
            compare_match(
                observe(adapter, path), mm, '', path, cx,
                'route %r strict=%r path %r' % (route.path, strict, path))
    cx.state((conv, frame, strict))


# -- every pair of converters: as alternatives, side by side in one map and
# in one route

def pair_cases(length):
    def gen():
        for i in range(len(CONVERTERS)):
            for j in range(len(CONVERTERS)):
                if i != j:
                    yield i, j, length
    return gen


def run_pair(case, cx):
    i, j, length = case
    first, second = CONVERTERS[i], CONVERTERS[j]
    for paths in (['/<%s:v>' % first, '/<%s:v>' % second],
                  ['/a/<%s:v>' % first, '/1/<%s:w>/' % second],
                  ['/<%s:v>-<%s:w>' % (first, second)]):
        routes = [Route(p, p) for p in paths]
        adapter = impl_map(routes).bind('example.com')
        mm = model.Map(routes)
        heads = ['/', '/a/', '/1/'] if '/a/' in paths[0] else ['/']
        for n in range(1, length + 1):
            for word in itertools.product('a1.-0', repeat=n):
                for head in heads:
                    path = head + ''.join(word)
                    want = compare_match(
                        observe(adapter, path), mm, '', path, cx,
                        'routes %r path %r' % (paths, path))
        for text in ('10', '11', '007', '1.50', '0.5', '100', '101'):
            for head in heads:
                for path in (head + text, head + text + '/',
                             head + text + '-' + text):
                    want = compare_match(
                        observe(adapter, path), mm, '', path, cx,
                        'routes %r path %r' % (paths, path))
        cx.state((paths, want[0]))


# -- domains

DOMAIN_ROUTES = [
    Route('/', 'd'), Route('/a', 'a'),
    Route('/', 'www', subdomain='www'), Route('/a', 'www-a', subdomain='www'),
    Route('/', 'var', subdomain='<u>'), Route('/<x>', 'var-x',
                                              subdomain='<u>'),
    Route('/', 'any', subdomain='<any(www,de):u>'),
    Route('/<x>', 'none', subdomain=''),
    Route('/a', 'len', subdomain='<string(length=2):u>.www'),
    Route('/a/', 'pre', subdomain='m-<u>'),
]
HOST_ROUTES = [
    Route('/', 'h', host='example.com'), Route('/a', 'ha',
                                               host='example.com'),
    Route('/', 'www', host='www.example.com'),
    Route('/', 'var', host='<u>.example.com'),
    Route('/<x>', 'var-x', host='<u>'),
    Route('/a/', 'port', host='example.com:8080'),
    Route('/a', 'nohost'),
]


def domain_cases(size):
    def gen():
        for n in range(1, size + 1):
            for picked in itertools.permutations(
                    range(len(DOMAIN_ROUTES)), n):
                for default in ('', 'www'):
                    yield 'sub', picked, default
            for picked in itertools.permutations(range(len(HOST_ROUTES)), n):
                yield 'host', picked, None
    return gen


def run_domain(case, cx):
    kind, picked, default = case
    tests = ['/', '/a', '/a/', '/b', '/a/b']
    if kind == 'sub':
        routes = [DOMAIN_ROUTES[i] for i in picked]
        config = {'default_subdomain': default}
        um = impl_map(routes, **config)
        mm = model.Map(routes, **config)
        for sub in (None, '', 'www', 'WWW', 'de', 'de.www', 'm-x', 'b'):
            adapter = um.bind('Example.com', subdomain=sub)
            domain = (default if sub is None else sub).lower()
            for path in tests:
                want = compare_match(
                    observe(adapter, path), mm, domain, path, cx,
                    'routes %r default=%r subdomain %r path %r' % (
                        [(r.subdomain, r.path) for r in routes], default,
                        sub, path))
                cx.state((case, sub, path, want[0]))
    else:
        routes = [HOST_ROUTES[i] for i in picked]
        um = impl_map(routes, host_matching=True)
        mm = model.Map(routes, host_matching=True)
        for host in ('example.com', 'EXAMPLE.com', 'www.example.com',
                     'x.example.com', 'example.com:8080', 'other.org'):
            adapter = um.bind(host)
            for path in tests:
                want = compare_match(
                    observe(adapter, path), mm, host.lower(), path, cx,
                    'routes %r host %r path %r' % (
                        [(r.host, r.path) for r in routes], host, path))
                cx.state((case, host, path, want[0]))


# -- binding to a WSGI environment

def environ_cases():
    for scheme, port in (('http', '80'), ('https', '443'), ('http', '8080'),
                         ('https', '80'), ('http', '443')):
        for host in (None, 'example.com', 'Example.COM', 'www.example.com',
                     'a.b.example.com', 'x.y.a.b.example.com',
                     'example.com:8080', 'other.org',
                     'badexample.com', 'com'):
            for name in ('example.com', 'www.example.com', '10.0.0.1'):
                for given in (None, 'example.com', 'EXAMPLE.com',
                              'example.com:8080'):
                    yield scheme, port, host, name, given


ENV_ROUTES = [
    Route('/', 'root'), Route('/a/', 'a'), Route('/\xe9', 'e'),
    Route('/<x>', 'x'), Route('/', 'www', subdomain='www'),
    Route('/', 'deep', subdomain='<u>.b'),
]


def run_environ(case, cx):
    scheme, port, host, name, given = case
    for charset in ('utf-8', 'latin-1', 'cp1251'):
        environ_charset(case, charset, cx)


def environ_charset(case, charset, cx):
    scheme, port, host, name, given = case
    um = impl_map(ENV_ROUTES, charset=charset)
    mm = model.Map(ENV_ROUTES, charset=charset)
    for script in ('', '/app', '/app/'):
        for query in (None, 'x=1&y=2', 'x=%s&y=2' % ('long' * 1500)):
            for path in ('/', '', '/a', '/a/', '/\xe9', '/\u2603', '/no/no',
                         '/\u0436'):
                try:
                    path.encode(charset)
                except UnicodeEncodeError:
                    continue
                environ = {
                    'wsgi.url_scheme': scheme, 'SERVER_PORT': port,
                    'SERVER_NAME': name, 'SCRIPT_NAME': script,
                    'PATH_INFO': path.encode(charset).decode('latin1'),
                }
                if query is not None:
                    environ['QUERY_STRING'] = query
                if host is not None:
                    environ['HTTP_HOST'] = host
                default_port = (scheme, port) in (
                    ('http', '80'), ('https', '443'))
                actual = host if host is not None else (
                    name if default_port else name + ':' + port)
                actual = actual.lower()
                if given is None:
                    server, sub = actual, ''
                else:
                    server = given.lower()
                    if actual == server:
                        sub = ''
                    elif actual.endswith('.' + server):
                        sub = actual[:-len(server) - 1]
                    else:
                        sub = None
                for env in (environ, type('Req', (), {'environ': environ})):
                    adapter = um.bind_to_environ(env, server_name=given)
                    for explicit in (None, path):
                        got = observe(adapter, explicit)
                        if sub is None:
                            cx.step()
                            same(got, ('missing',), 'foreign host %r' % (
                                case,))
                        else:
                            want = compare_match(
                                got, mm, sub, path, cx,
                                'environ %r' % environ, server=server,
                                scheme=scheme, script=script or '/',
                                query=query)
                            cx.state((sub, path, want[0]))


# -- the other ways of asking

def ask_cases():
    for i in range(len(CATALOGUE)):
        for j in range(len(CATALOGUE)):
            yield i, j


def run_ask(case, cx):
    routes = [CATALOGUE[i] for i in sorted(set(case))]
    built = {}
    um = impl.URLMap(converters=__import__(
        'mc.routing_common', fromlist=['x']).CONVERTERS)
    for r in routes:
        from mc.routing_common import impl_route
        built[r.endpoint] = impl_route(r)
        um.add_routes(built[r.endpoint])
    mm = model.Map(routes)
    for path in SMALL[:60]:
        for script in ('/', '/app'):
            bound = um.bind('example.com', script, path_info=path)
            want = mm.match('', path)
            cx.step(3)
            cx.outcome(want[0])
            got = observe(bound, None)
            compare_match(got, mm, '', path, cx, 'bound path %r' % path,
                          script=script)
            other = um.bind('example.com', script, path_info='/no/such/x/y')
            same(other.test(path), want[0] != 'missing',
                 'test(%r) for %r' % (path, [r.path for r in routes]))
            same(bound.test(), want[0] != 'missing',
                 'test() bound to %r' % path)
            if want[0] == 'ok':
                route, values = bound.match(return_route=True)
                if route is not built[want[1]]:
                    fail('return_route gave %r for %r' % (route, path))
                cx.state((case, path, want[1]))


# -- converters of one's own

def run_own(case, cx):
    chosen, frame = case
    adapter = own_map(chosen, frame).bind('example.com')
    order = sorted(range(len(chosen)),
                   key=lambda i: (REFERENCE[chosen[i]][0], i))
    for text in TEXTS:
        want = ('missing',)
        for i in order:
            value = REFERENCE[chosen[i]][1](text)
            if value is not REFUSED:
                want = 'ok', str(i), {'x': value}
                break
        cx.step()
        cx.outcome(want[0])
        got = observe(adapter, frame % text)
        cx.state((case, text, want[0]))
        if got != want or (
            got[0] == 'ok' and type(got[2]['x']) is not type(want[2]['x'])
        ):
            fail('%r with %r: %r, expected %r' % (
                frame % text, chosen, got, want))


check = Check('C01', [
    Space('maps-of-one-and-two', run_map, one_and_two, deep_pairs, chunk=20,
          rule='ordered pairs of catalogue routes x strictness x paths'),
    Space('maps-of-three', run_map, triples(24, (True,)),
          triples(99, (True, False)), chunk=50,
          rule='ordered triples of catalogue routes x paths'),
    Space('whole-catalogue', run_map, whole, chunk=1,
          rule='all routes at once, every rotation of the registration '
               'order and its reverse'),
    Space('precedence', run_deep, deep_cases, deepest_cases, chunk=50),
    Space('lengths', run_length, length_cases, chunk=10),
    Space('converters', run_converter, converter_cases(4),
          converter_cases(6), chunk=1,
          rule='every text up to the length bound over a1/.-0'),
    Space('converter-pairs', run_pair, pair_cases(2), pair_cases(4),
          chunk=10),
    Space('domains', run_domain, domain_cases(2), domain_cases(3), chunk=10),
    Space('environ', run_environ, environ_cases, chunk=10),
    Space('ask', run_ask, ask_cases, chunk=20),
    Space('own-converters', run_own, own_cases(2), own_cases(3), chunk=20,
          rule='ordered choices of placeholders with converters the map was '
               'given, some of them for names that exist'),
], bounds='maps of 1-3 routes from a catalogue of %d (quick: triples over '
    'the first 14), plus the whole catalogue; every pair of routes of up to '
    '3 (4) parts of every kind; paths of up to 4 segments; '
    'converter texts of up to 4 (thorough: 6) symbols' % len(CATALOGUE),
    assumptions=['the model in mc/model_routing.py states what the '
                 'documentation promises'])
