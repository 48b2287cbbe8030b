"""C03: redirects issued by the router."""
import itertools
from urllib.parse import unquote, urlsplit

from mc.core import Check, Space, fail
from mc.routing_common import (
    Route, compare_match, impl, impl_map, impl_route, model, observe,
    CONVERTERS, domain_host,
)

CATALOGUE = [
    Route('/a/', 'a'),
    Route('/<x>/', 'x'),
    Route('/<path:x>/', 'p'),
    Route('/a/b/', 'ab'),
    Route('/', 'all', defaults={'page': 1}),
    Route('/page/<int:page>', 'all'),
    Route('/page/<int:page>/', 'all'),
    Route('/p1', 'all', defaults={'page': 1, 'size': 2}),
    Route('/page/<int:page>/<int:size>', 'all'),
    Route('/one/<int:size>/', 'all', defaults={'page': 1}),
    Route('/two/<int:page>/', 'all', defaults={'size': 2}),
    Route('/old/<int:page>', 'all', alias=True),
    Route('/older/', 'all', alias=True, defaults={'page': 1}),
    Route('/kb/', 'all', subdomain='kb', defaults={'page': 2}),
    Route('/<x>', 'leaf'),
    Route('/\xe9/', 'e-acute'),
    Route('/<int(min=5):x>/', 'min'),
    Route('/lax/', 'lax', strict_slashes=False),
    Route('/u/', 'user', subdomain='<u>'),
    Route('/old/u', 'user', subdomain='<u>', alias=True),
    Route('/bo', 'all', defaults={'page': 1}, build_only=True),
    Route('/<int(min=5):x>/<int:y>/', 'min2'),
]
PATHS = ['/', '/a', '/a/', '//a', '/a/b', '//a//b', '/\xe9', '/\u2603',
         '/a b', '/a?b', '/a#b', '/a%2Fb', '/a;b', '/a:b', '/a&b=c', '/a+b',
         '/\\evil.org', '//evil.org', '///evil.org/x', '/@evil.org',
         '/:80', '/a\r\nX: y', '/a\tb', '/"<>', '/page/1', '/page/1/',
         '/page/2', '/page/2/', '/page/01', '/page/1/2', '/page/1/3',
         '/page/2/2', '/page/3/3/', '/one/2', '/one/2/', '/one/3/', '/two/1',
         '/two/1/', '/two/2/', '/old/1', '/old/2', '/old/3', '/old/0', '/page/0', '/older',
         '/older/', '/p1', '/p1/', '/kb', '/kb/', '/4', '/7', '/lax', '/u',
         '/old/u', 'a', 'evil.org', '/http://evil.org', '/a/..', '/.', '/..',
         '/|', '/x|y/z']
QUERIES = [None, '', 'x=1', 'q=a%20b&q=c', 'a=b?c&d', {'x': '1'},
           {'q': ['a', 'b'], 'r': '\xe9 &=#'},
           'x=%s&y=2' % ('long' * 1500)]


def follow(um, mm, path, query, server, script, scheme, sub, cx, what):
    """Follow redirects until the router gives a final answer."""
    hops = 0
    domain = sub
    visited = []
    while True:
        key = (domain, path)
        if key in visited:
            fail('%s: redirect loop %r' % (what, visited))
        visited.append(key)
        adapter = um.bind(server, script, domain, url_scheme=scheme)
        got = observe(adapter, path, query)
        want = compare_match(
            got, mm, domain, path, cx, '%s at %r' % (what, key),
            server=server, scheme=scheme, script=script, query=query)
        cx.state((what, domain, path))
        if got[0] != 'redirect':
            # a redirect the router issued always leads somewhere
            if hops and got[0] != 'ok':
                fail('%s: redirects to a missing page: %r' % (what, visited))
            return hops
        hops += 1
        url = urlsplit(got[1])
        host = url.netloc
        if host == server:
            domain = ''
        elif host.endswith('.' + server):
            domain = host[:-len(server) - 1]
        else:
            fail('%s: redirect leaves the site: %r' % (what, got[1]))
        prefix = script.rstrip('/')
        full = unquote(url.path or '/', encoding=mm.charset)
        if not full.startswith(prefix + '/'):
            fail('%s: redirect leaves the application: %r' % (what, got[1]))
        path = full[len(prefix):]
        query = url.query or None
        if hops > 4:
            fail('%s: endless redirects %r' % (what, visited))


def sane(routes):
    """An alias needs a canonical route for its endpoint, subdomain
    placeholders included."""
    for r in routes:
        if r.alias:
            names = _names(r)
            if any(o.build_only and o.endpoint == r.endpoint
                   for o in routes):
                return False    # leads outside the application
            if not any(
                    not o.alias and o.endpoint == r.endpoint and
                    _names(o) <= names
                    and (not o.defaults or r.defaults == o.defaults)
                    for o in routes):
                return False
    return True


def _names(route):
    out = set(route.defaults or ())
    for part in (route.path + (route.subdomain or '')).split('<')[1:]:
        out.add(part.split('>')[0].split(':')[-1])
    return out


def map_cases(size, all_queries):
    def gen():
        for n in range(1, size + 1):
            for picked in itertools.permutations(range(len(CATALOGUE)), n):
                if n == 3 and list(picked[:2]) != sorted(picked[:2]) and (
                        not all_queries):
                    continue
                if sane([CATALOGUE[i] for i in picked]):
                    yield picked, n == 1 or all_queries
    return gen


def run_map(case, cx):
    picked, everything = case
    routes = [CATALOGUE[i] for i in picked]
    configs = [{'redirect_defaults': True}, {'redirect_defaults': False}]
    if len(picked) < 3:
        configs.append({'default_subdomain': 'kb'})
        configs.append({'strict_slashes': False})
        configs.append({'charset': 'latin-1'})
    for config in configs:
        um = impl_map(routes, **config)
        mm = model.Map(routes, **config)
        for path in PATHS:
            if 'charset' in config and '\u2603' in path:
                continue
            for sub in ('', 'kb'):
                queries = QUERIES if everything else QUERIES[2:3]
                for query in queries:
                    for script in (('/', '/app', '/app/v1/') if everything
                                   else ('/app',)):
                        follow(um, mm, path, query, 'example.com', script,
                               'https' if sub else 'http', sub, cx,
                               'routes %r %r path %r query %r' % (
                                   [r.path for r in routes],
                                   config, path, query))


# -- host matching

HOSTS = [
    Route('/a/', 'a', host='example.com'),
    Route('/a/', 'b', host='<u>.example.com'),
    Route('/', 'all', host='example.com', defaults={'u': 'x'}),
    Route('/', 'all', host='<u>.example.com'),
    Route('/old', 'all', host='<u>.example.com', alias=True),
]


def host_cases():
    for n in range(1, 4):
        for picked in itertools.permutations(range(len(HOSTS)), n):
            if 4 in picked and 3 not in picked:
                continue
            yield (picked,)


def run_hosts(case, cx):
    picked, = case
    routes = [HOSTS[i] for i in picked]
    um = impl_map(routes, host_matching=True)
    mm = model.Map(routes, host_matching=True)
    for host in ('example.com', 'x.example.com', 'y.example.com',
                 'other.org'):
        for path in ('/', '/a', '/old', '/a/', '//a'):
            for query in (None, 'k=v', {'k': '\xe9'}):
                for script in ('/', '/app/'):
                    adapter = um.bind(host, script)
                    want = compare_match(
                        observe(adapter, path, query), mm, host, path, cx,
                        'hosts %r %r %r' % (
                            [r.host + r.path for r in routes], host, path),
                        server=host, script=script, query=query)
                    cx.state((picked, host, path, want[0]))


# -- the whole way: an application, its redirect responses and a client

APP_QUERIES = ['', 'x=1', 'q=a%20b&q=c', 'a=b?c&d', '%C3%A9=%26%3D%23+',
               'a=1&b=2&a=3', 'n=%0D%0Ax', 'u=http://evil.org/?a=b',
               'x=%s&y=2' % ('long' * 1500)]
APP_PATHS = ['/', '/a', '/a/b', '/\xe9', '/a b', '/a?b', '/a%2Fb', '/a;b',
             '/\u2603', '//evil.org', '/page/1', '/page/2', '/page/1/2',
             '/one/2', '/old/1', '/old/3', '/older/', '/p1', '/7', '/lax',
             '/kb', '/nothing/at/all']


def app_cases():
    usable = [i for i, r in enumerate(CATALOGUE) if not r.subdomain]
    for n in (1, 2):
        for picked in itertools.permutations(usable, n):
            if sane([CATALOGUE[i] for i in picked]):
                for root in ('http://example.com',
                             'https://example.com/app'):
                    yield picked, root, n == 1


def run_app(case, cx):
    from urllib.parse import parse_qsl
    from verktyg.application import ApplicationBuilder
    from verktyg.responses import Response
    from mc.wsgi_client import call, environ
    picked, root, everything = case
    routes = [CATALOGUE[i] for i in picked]
    builder = ApplicationBuilder()
    builder.add_converters(**CONVERTERS)
    builder.add_routes(*[impl_route(r) for r in routes])
    for endpoint in {r.endpoint for r in routes}:
        def view(app, req, endpoint=endpoint, **values):
            return Response(repr((endpoint, sorted(values.items()))))
        builder.expose(endpoint)(view)
    app = builder(root)
    mm = model.Map(routes)
    scheme, _, rest = root.partition('://')
    host, _, script = rest.partition('/')
    script = script and '/' + script
    for start in APP_PATHS:
        want = mm.match('', start)
        for query in (APP_QUERIES if everything else APP_QUERIES[2:5]):
            path, sent = start, query
            what = 'application with %r at %r: %s?%s' % (
                [r.path for r in routes], root, start, query)
            for hop in range(5):
                cx.step()
                try:
                    result = call(app, environ(
                        path, query=sent, scheme=scheme, host=host,
                        script=script), catch=False)
                except Exception as e:
                    if getattr(e, 'code', None) != 404:
                        raise
                    got = 'notfound'
                    break
                if result.code != 301:
                    got = (result.code, result.body.decode())
                    break
                location = result.get('Location')
                url = urlsplit(location)
                full = unquote(url.path or '/')
                if (url.scheme, url.netloc) != (scheme, host) or not (
                        full.startswith(script + '/')):
                    fail('%s: redirected to %r' % (what, location))
                path, sent = full[len(script):], url.query
                if parse_qsl(sent, True) != parse_qsl(query, True):
                    fail('%s: the query is lost: %r' % (what, location))
            else:
                fail('%s: redirects without end' % what)
            cx.state((case, start, got))
            cx.outcome((want[0], hop))
            if want[0] == 'missing':
                if got != 'notfound' or hop:
                    fail('%s: %r after %d redirects' % (what, got, hop))
                continue
            if want[0] == 'ok':
                if hop:
                    fail('%s: redirected needlessly to %r' % (what, path))
                expected = want
            else:
                if not hop:
                    fail('%s: not redirected, got %r' % (what, got))
                final = mm.match('', path)
                if final[0] != 'ok':
                    fail('%s: ends at %r, which is %r' % (
                        what, path, final))
                expected = final
            if got not in [(200, repr((expected[1], sorted(v.items()))))
                           for v in expected[2]]:
                fail('%s: ends at %r with %r' % (what, path, got))


# -- redirect_to

VALUES = {
    'default': ['a', '\xe9', '\u2603', 'a b', 'a?b', 'a#b', 'a%2Fb', 'a&b',
                'a+b', 'a;b', 'a:b', '\U0001f600', '"', '<', '\\'],
    'int': ['7', '007'],
    'path': ['a', 'a/b', '\xe9/x y', 'a?b/c'],
    'int(fixed_digits=3)': ['007', '123', '000'],
    'float': ['1.50', '007.0'],
    'any(x,"y z")': ['x', 'y z'],
    'uuid': ['12345678-1234-1234-1234-123456789abc',
             'ABCDEF78-1234-1234-1234-123456789ABC'],
    'words': ['a', 'a+b', 'a+\xe9+c'],
}
TARGETS = ['foo/<v>', 'foo/<v>/', 'foo/<v>/bar', '/abs/<v>', 'plain', '/',
           'http://other.org/<v>']


def to_cases():
    for kind in VALUES:
        for target in range(len(TARGETS)):
            for call in (False, True):
                for script in ('/', '/app', '/app/v1', '/app/v1/'):
                    for sub in ('', 'kb', 'default'):
                        yield kind, target, call, script, sub


def run_to(case, cx):
    kind, number, call, script, sub = case
    target = TARGETS[number]
    name, _, args = kind.partition('(')
    conv = model.Conv(name, args[:-1] or None)
    seen = []

    def redirect(adapter, **values):
        from urllib.parse import quote
        seen.append((adapter, values))
        return target.replace('<v>', quote(
            conv.text(values['v']), safe='/:+'))

    route = impl.Route(
        '/go/<%s:v>' % kind, endpoint='go',
        subdomain='<s>' if sub == 'kb' else None,
        redirect_to=redirect if call else target)
    other = impl.Route('/go/<path:v>/no', endpoint='other')
    um = impl.URLMap(
        [other, route], converters=CONVERTERS,
        default_subdomain='default' if sub == 'default' else '')
    for text in VALUES[kind]:
        adapter = um.bind('example.com', script,
                          None if sub == 'default' else sub,
                          url_scheme='https')
        got = observe(adapter, '/go/' + text, 'dropped=1')
        cx.step()
        what = 'redirect_to %r for %r' % (target, text)
        if got[0] != 'redirect':
            fail('%s: %r' % (what, got))
        value = conv.value(text)[1]
        filled = target.replace('<v>', conv.text(value))
        host = (sub + '.' if sub else '') + 'example.com'
        scheme = 'https'
        if filled.startswith('http://other.org'):
            scheme, host = 'http', 'other.org'
            path = filled[len('http://other.org'):]
        elif filled.startswith('/'):
            path = filled
        else:
            path = script.rstrip('/') + '/' + filled
        model.check_url(got[1], scheme, host, path, '', 'utf-8', what, fail)
        if call:
            values = {'v': value}
            if sub == 'kb':
                values['s'] = sub
            if seen[-1] != (adapter, values):
                fail('%s: called with %r' % (what, seen[-1]))
        cx.state((what, got[1]))
        cx.outcome(path.split('/')[1])


check = Check('C03', [
    Space('maps', run_map, map_cases(3, False), map_cases(3, True),
          chunk=2, rule='ordered maps from %d routes, followed from every '
          'path to a final answer' % len(CATALOGUE)),
    Space('hosts', run_hosts, host_cases, chunk=2),
    Space('application', run_app, app_cases, chunk=2),
    Space('redirect-to', run_to, to_cases, chunk=5),
], bounds='maps of up to 3 routes (thorough: with every query form), %d start paths, 7 query '
    'forms, 3 mount points' % len(PATHS),
    assumptions=['aliases have a canonical route, as documented'])
