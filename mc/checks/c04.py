"""C04: a map behaves as the set of its routes, whatever its history."""
import itertools
from urllib.parse import unquote, urlsplit

from mc.core import Check, Space, fail, same
from mc.routing_common import (
    Route, CONVERTERS, compare_match, impl, impl_map, impl_route, model,
    observe, domain_host, query_pairs,
)

POOL = [
    Route('/<x>', 'x'),
    Route('/a', 'a'),
    Route('/a/', 'a/'),
    Route('/<path:x>', 'p'),
    Route('/<int:x>', 'x'),
    Route('/', 'x', defaults={'x': 1}),
    Route('/d', 'x', defaults={'x': 1}),
    Route('/bo/<x>/<y>', 'x', build_only=True),
]
PATHS = ['/', '/a', '/a/', '/1', '/d', '/b/c']
BUILDS = [('x', {'x': 1}), ('x', {}), ('a', {}), ('p', {'x': 'b/c'}),
          ('a/', {'q': 'z'}), ('x', {'x': 2, 'y': 3})]

OPS = [('add', i) for i in range(len(POOL))] + [
    ('match',), ('build',), ('iter',), ('bind',), ('spoil',),
]


def verify(um, adapters, mm, cx, what):
    for adapter in adapters:
        for path in PATHS:
            want = compare_match(
                observe(adapter, path), mm, '', path, cx,
                '%s: match %r' % (what, path))
        for endpoint, values in BUILDS:
            cx.step()
            check_build(adapter, mm, endpoint, values, what)
    state = []
    for path in PATHS:
        result = mm.match('', path)
        state.append(result[:2] if result[0] == 'ok' else result[0])
    cx.state((sorted(b.route.path for b in mm.routes), state))


def check_build(adapter, mm, endpoint, values, what, server='example.com',
                sub=''):
    want = mm.build(endpoint, values)
    what = '%s: build %r %r' % (what, endpoint, values)
    try:
        got = adapter.build(endpoint, dict(values))
    except impl.BuildError:
        if want is not None:
            fail('%s: BuildError, model builds %r' % (what, want))
        return
    if want is None:
        fail('%s: built %r, model has no route' % (what, got))
    domain, path, extra = want
    model.check_url(
        got, 'http', None if domain == sub else domain_host(
            mm, domain, server), path, query_pairs(extra), mm.charset, what,
        fail)


def history_cases(depth):
    def gen():
        for n in range(1, depth + 1):
            for word in itertools.product(range(len(OPS)), repeat=n):
                yield (word,)
    return gen


def run_history(case, cx):
    """Operations interleaved in any order; the observations of the step are
    compared right there, everything is compared at the end."""
    word, = case
    um = impl.URLMap(converters=CONVERTERS)
    mm = model.Map([])
    mm.ordered = []
    early = um.bind('example.com')
    adapters = [early]
    what = 'history %r' % ([OPS[i] for i in word],)
    for code in word:
        op = OPS[code]
        cx.step()
        if op[0] == 'add':
            um.add_routes(impl_route(POOL[op[1]]))
            mm.add(POOL[op[1]])
        elif op[0] == 'match':
            for path in PATHS:
                compare_match(observe(early, path), mm, '', path, cx,
                              '%s: match %r' % (what, path))
        elif op[0] == 'build':
            for endpoint, values in BUILDS:
                check_build(early, mm, endpoint, values, what)
        elif op[0] == 'iter':
            listed = sorted(r.route for r in um.iter_routes())
            same(listed, sorted(b.route.path for b in mm.routes), what)
            for endpoint in {b.route.endpoint for b in mm.routes}:
                same(sorted(r.route for r in um.iter_routes(endpoint)),
                     sorted(b.route.path for b in mm.routes
                            if b.route.endpoint == endpoint), what)
                for names in ((), ('x',), ('y',), ('x', 'y')):
                    same(um.is_endpoint_expecting(endpoint, *names),
                         any(set(names) <= b.arguments for b in mm.routes
                             if b.route.endpoint == endpoint),
                         '%s: expecting %r %r' % (what, endpoint, names))
        elif op[0] == 'bind':
            adapters.append(um.bind('example.com'))
        elif op[0] == 'spoil':
            # callers own what they get back
            for path in PATHS:
                got = observe(early, path)
                if got[0] == 'ok':
                    got[2]['x'] = 'spoiled'
                    got[2]['extra'] = 'spoiled'
    verify(um, adapters, mm, cx, what)


# -- orders: batches of add_routes calls with every split and every order

def order_cases(size):
    def gen():
        for n in range(2, size + 1):
            for picked in itertools.permutations(range(len(POOL)), n):
                for cuts in range(2 ** (n - 1)):
                    yield picked, cuts
    return gen


def run_order(case, cx):
    picked, cuts = case
    batches, current = [], []
    for position, i in enumerate(picked):
        current.append(POOL[i])
        if position == len(picked) - 1 or cuts >> position & 1:
            batches.append(current)
            current = []
    um = impl.URLMap([impl_route(r) for r in batches[0]],
                     converters=CONVERTERS)
    mm = model.Map(batches[0])
    adapter = um.bind('example.com')
    what = 'batches %r' % [[r.path for r in b] for b in batches]
    for batch in [None] + batches[1:]:
        if batch:
            cx.step()
            um.add_routes(*[impl_route(r) for r in batch])
            for r in batch:
                mm.add(r)
        verify(um, [adapter], mm, cx, what)


# -- refused: a batch of routes which fails half way

class Broken(impl.RouteFactory):
    def get_routes(self, router):
        raise ZeroDivisionError


def bound():
    route = impl.Route('/z', endpoint='z')
    impl.URLMap([route])
    return route


REFUSED = {
    'bound': (bound, RuntimeError),
    'converter': (lambda: impl.Route('/<nope:x>'), LookupError),
    'twice': (lambda: impl.Route('/<x>/<x>'), ValueError),
    'malformed': (lambda: impl.Route('/a/<x'), ValueError),
    'argument': (lambda: impl.Route('/<int(z=1):x>'), TypeError),
    'factory': (Broken, ZeroDivisionError),
}


def refused_cases(size):
    def gen():
        for n in range(1, size + 1):
            for picked in itertools.permutations(range(len(POOL)), n):
                for first in range(n + 1):
                    for place in range(first, n + 1):
                        for bad in sorted(REFUSED):
                            yield picked, first, place, bad
    return gen


def run_refused(case, cx):
    """The routes before the one which was refused are in the map"""
    picked, first, place, bad = case
    pool = [POOL[i] for i in picked]
    um = impl.URLMap([impl_route(r) for r in pool[:first]],
                     converters=CONVERTERS)
    mm = model.Map([])
    mm.ordered = []
    for r in pool[:first]:
        mm.add(r)
    adapter = um.bind('example.com')
    verify(um, [adapter], mm, cx, 'before')
    make, error = REFUSED[bad]
    batch = [impl_route(r) for r in pool[first:]]
    batch.insert(place - first, make())
    try:
        um.add_routes(*batch)
    except error:
        pass
    else:
        fail('%s route was accepted' % bad)
    for r in pool[first:place]:
        mm.add(r)
    verify(um, [adapter], mm, cx, 'refused (%s)' % bad)
    um.add_routes(*[impl_route(r) for r in pool[place:]])
    for r in pool[place:]:
        mm.add(r)
    verify(um, [adapter], mm, cx, 'after it was refused (%s)' % bad)


# -- factories

LEAVES = [
    Route('/', 'index'),
    Route('/<int:n>', 'show'),
    Route('/s/', 'sub', strict_slashes=False),
    Route('/d', 'show', defaults={'n': 1}),
    Route('/bo', 'bo', build_only=True),
    Route('/old/<int:n>', 'show', alias=True),
    Route('/here', 'here', subdomain='kb'),
    Route('/go/<n>', 'go', redirect_to='there/<n>'),
]
WRAPPERS = ['submount', 'submount/', 'submount-var', 'subdomain',
            'subdomain-var', 'prefix', 'template', 'host']


def copy(route, **changes):
    data = dict(
        path=route.path, endpoint=route.endpoint,
        defaults=dict(route.defaults) if route.defaults else None,
        subdomain=route.subdomain, host=route.host,
        strict_slashes=route.strict_slashes, build_only=route.build_only,
        alias=route.alias, redirect_to=route.redirect_to)
    data.update(changes)
    return Route(data.pop('path'), data.pop('endpoint'), **data)


def wrap(name, routes):
    """What the documentation says the factory stands for."""
    if name == 'submount':
        return [copy(r, path='/m' + r.path) for r in routes]
    if name == 'submount/':
        return [copy(r, path='/m/\xe9' + r.path) for r in routes]
    if name == 'submount-var':
        return [copy(r, path='/v/<lang>' + r.path) for r in routes]
    if name == 'subdomain':
        return [copy(r, subdomain='kb') for r in routes]
    if name == 'subdomain-var':
        return [copy(r, subdomain='<user>') for r in routes]
    if name == 'prefix':
        return [copy(r, endpoint='pre.' + r.endpoint) for r in routes]
    if name == 'template':
        return routes
    return routes


def wrap_impl(name, factories):
    if name == 'submount':
        return impl.Submount('/m', factories)
    if name == 'submount/':
        return impl.Submount('/m/\xe9/', factories)
    if name == 'submount-var':
        return impl.Submount('/v/<lang>', factories)
    if name == 'subdomain':
        return impl.Subdomain('kb', factories)
    if name == 'subdomain-var':
        return impl.Subdomain('<user>', factories)
    if name == 'prefix':
        return impl.EndpointPrefix('pre.', factories)
    if name == 'template':
        return impl.RouteTemplate(factories)(name='t')
    return impl.Submount('', factories)


FACTORY_PATHS = ['/', '/1', '/2', '/d', '/s', '/s/', '/old/2', '/old/1',
                 '/bo', '/here', '/go/7']
FACTORY_PREFIXES = ['', '/m', '/m/\xe9', '/v/de', '/m/m', '/v/de/m', '/m/v/x']


def factory_cases(depth, size):
    def gen():
        for d in range(1, depth + 1):
            for names in itertools.product(range(len(WRAPPERS)), repeat=d):
                if names.count(WRAPPERS.index('submount-var')) > 1:
                    continue        # would use one placeholder name twice
                for n in range(1, size + 1):
                    for leaves in itertools.combinations(
                            range(len(LEAVES)), n):
                        if 5 in leaves and 1 not in leaves:
                            continue
                        yield names, leaves
    return gen


def run_factory(case, cx):
    names, leaves = case
    sources = [LEAVES[i] for i in leaves]
    expanded = sources
    factories = [impl_route(r) for r in sources]
    for number in names:
        expanded = wrap(WRAPPERS[number], expanded)
        factories = [wrap_impl(WRAPPERS[number], factories)]
    plain = Route('/plain/<x>', 'plain')
    mm = model.Map([plain] + expanded)
    what = 'factories %r over %r' % (
        [WRAPPERS[i] for i in names], [r.path for r in sources])
    # The same factories can be used for several maps, in any order.
    first = impl.URLMap([impl_route(plain)] + factories,
                        converters=CONVERTERS)
    second = impl.URLMap([impl_route(plain)], converters=CONVERTERS)
    second.add_routes(*factories)
    for um in (first, second):
        for sub in ('', 'kb', 'joe'):
            adapter = um.bind('example.com', subdomain=sub)
            for prefix in FACTORY_PREFIXES:
                for path in FACTORY_PATHS:
                    want = compare_match(
                        observe(adapter, prefix + path), mm, sub,
                        prefix + path, cx, '%s: match %r on %r' % (
                            what, prefix + path, sub))
                    cx.state((names, leaves, sub, want[0]))
            for pre in ('', 'pre.', 'pre.pre.'):
                for name in ('index', 'show', 'sub', 'bo', 'here', 'go'):
                    for values in ({}, {'n': 1}, {'n': 2, 'lang': 'de'},
                                   {'n': 1, 'user': 'joe'},
                                   {'n': 2, 'lang': 'de', 'user': 'ann'}):
                        cx.step()
                        check_build(adapter, mm, pre + name, values, what,
                                    sub=sub)


# -- templates

TEMPLATED = [
    lambda f: Route(f('/{name}/'), f('{name}.list')),
    lambda f: Route(f('/{name}/<int:id>'), f('{name}.show')),
    lambda f: Route(f('/{name}/first'), f('{name}.show'),
                    defaults={'id': 1, 'kind': f('{name}')}),
    lambda f: Route('/', f('{name}.home'), subdomain=f('{name}')),
    lambda f: Route(f('/x/{other}-{name}'), f('{other}')),
    lambda f: Route(f('/old/{name}'), f('{name}.list'), alias=True),
    lambda f: Route(f('/lax/{name}/'), f('{name}.lax'),
                    strict_slashes=False),
    lambda f: Route(f('/bo/{name}'), f('{name}.bo'), build_only=True),
    lambda f: Route(f('/go/{name}'), f('{name}.go'), redirect_to='there'),
]


def template_cases(size):
    def gen():
        for n in range(1, size + 1):
            for picked in itertools.combinations(range(len(TEMPLATED)), n):
                if 5 in picked and 0 not in picked:
                    continue
                for names in (('user',), ('user', 'page'), ('\xe9', 'a.b')):
                    yield picked, names
    return gen


def run_template(case, cx):
    picked, names = case
    template = impl.RouteTemplate(
        [impl_route(TEMPLATED[i](lambda s: s)) for i in picked])
    factories = []
    expanded = []
    for number, name in enumerate(names):
        context = {'name': name, 'other': 'o%d' % number}
        factories.append(template(context) if number else
                         template(**context))
        expanded += [
            TEMPLATED[i](lambda s: s.format(**context)) for i in picked]
    mm = model.Map(expanded)
    what = 'template %r for %r' % (picked, names)
    for um in (impl.URLMap(factories), impl.URLMap(factories)):
        for sub in ('',) + tuple(n for n in names if n.isascii()):
            adapter = um.bind('example.com', subdomain=sub)
            for name in names + ('nobody',):
                for path in ('/%s/', '/%s', '/%s/1', '/%s/2', '/%s/first',
                             '/x/o0-%s', '/x/o1-%s', '/old/%s', '/lax/%s',
                             '/lax/%s/', '/bo/%s', '/go/%s'):
                    path = path % name
                    want = compare_match(
                        observe(adapter, path), mm, sub, path, cx,
                        '%s: match %r' % (what, path))
                    cx.state((case, path, want[0]))
                if not name.isascii():
                    continue
                for endpoint in ('%s.list', '%s.show', '%s.home', '%s.bo',
                                 '%s.lax'):
                    for values in ({}, {'id': 1, 'kind': name}, {'id': 2}):
                        cx.step()
                        check_build(adapter, mm, endpoint % name, values,
                                    what, sub=sub)


# -- every combination of options of a route, through every factory

def option_cases():
    for defaults in (None, {'k': 1}, {'n': 1}):
        for build_only in (False, True):
            for alias in (False, True):
                for strict in (None, False, True):
                    for domain in (None, '', 'kb'):
                        for to in (None, 'there'):
                            for path in ('/q/<int:n>', '/q/'):
                                if (path == '/q/') != (
                                        defaults == {'n': 1}):
                                    continue
                                yield (defaults, build_only, alias, strict,
                                       domain, to, path)


def run_option(case, cx):
    defaults, build_only, alias, strict, domain, to, path = case
    base = [
        Route(path, 'e', defaults=defaults, build_only=build_only,
              alias=alias, strict_slashes=strict, subdomain=domain,
              host=domain, redirect_to=to),
        Route('/c' + path, 'e', defaults=defaults, subdomain=domain,
              host=domain, strict_slashes=strict),
    ]
    for name in [None] + WRAPPERS:
        for config in ({}, {'default_subdomain': 'www'},
                       {'strict_slashes': False},
                       {'redirect_defaults': False},
                       {'host_matching': True}):
            expanded = wrap(name, base) if name else base
            factories = [impl_route(r) for r in base]
            if name:
                factories = [wrap_impl(name, factories)]
            um = impl.URLMap(factories, converters=CONVERTERS, **config)
            mm = model.Map(expanded, **config)
            what = '%r in %r of %r' % (case, name, config)
            for sub in ('', 'kb', 'www', 'joe'):
                if config.get('host_matching'):
                    adapter = um.bind(sub or 'example.com')
                    bound = sub or 'example.com'
                else:
                    adapter = um.bind('example.com', subdomain=sub)
                    bound = sub
                for prefix in ('', '/m', '/m/\xe9', '/v/de'):
                    if name and prefix != {
                            'submount': '/m', 'submount/': '/m/\xe9',
                            'submount-var': '/v/de'}.get(name, ''):
                        continue
                    for tail in ('/q/1', '/q/1/', '/q/2', '/q', '/q/',
                                 '/c/q/1', '/c/q/2/', '/c/q'):
                        want = compare_match(
                            observe(adapter, prefix + tail), mm, bound,
                            prefix + tail, cx, '%s: match %r on %r' % (
                                what, prefix + tail, sub), server=bound
                            if config.get('host_matching') else
                            'example.com')
                        cx.state((case, name, sub, want[0]))
                if config.get('host_matching'):
                    continue
                for values in ({}, {'n': 1}, {'n': 2}, {'n': 1, 'k': 1},
                               {'n': 2, 'k': 2}):
                    for more in ({'lang': 'de', 'user': 'joe'}, {}):
                        cx.step()
                        values = dict(values, **more)
                        check_build(
                            adapter, mm, 'pre.e' if name == 'prefix' else
                            'e', values, what, sub=sub)


# -- one adapter, asked any sequence of questions, answers like a new one

ASKED = [
    ('match', '/a', None), ('match', '/a', 'q=1'), ('match', '/b/', {'r': 2}),
    ('match', None, None), ('match', None, 'q=3'), ('match', '/p/1', None),
    ('match', '/p/1', 's=4'), ('match', '/p/2', None),
    ('match', '/old/2', None), ('match', '/old/2', 't=5'),
    ('match', '/none', 'u=6'), ('match', '/go/x', 'v=7'),
    ('test', '/a'), ('test', '/none'), ('test', None),
    ('build', 'all', {'page': 3}), ('build', 'all', {'page': 1, 'z': 1}),
    ('build', 'kb', {'x': 'y'}), ('build', 'all', {}),
    ('route', '/p/2'), ('external', 'all', {'page': 2}),
]


def asked_map():
    return impl_map([
        Route('/a/', 'a'), Route('/b/', 'b'),
        Route('/', 'all', defaults={'page': 1}),
        Route('/p/<int:page>', 'all'),
        Route('/old/<int:page>', 'all', alias=True),
        Route('/go/<x>', 'go', redirect_to='b/?x=<x>'),
        Route('/<x>', 'kb', subdomain='kb'),
    ])


def ask(adapter, question):
    if question[0] == 'match':
        return observe(adapter, question[1], question[2])
    if question[0] == 'test':
        return adapter.test(question[1])
    if question[0] == 'route':
        route, values = adapter.match(question[1], return_route=True)
        return route.route, values
    return adapter.build(question[1], dict(question[2]),
                         force_external=question[0] == 'external')


def adapter_cases(length):
    def gen():
        for bound in ({}, {'path_info': '/a', 'query_args': 'w=8'},
                      {'path_info': '/p/1', 'query_args': {'w': '9'}},
                      {'script_name': '/app/v1', 'url_scheme': 'https'}):
            for first in range(len(ASKED)):
                for rest in itertools.product(range(len(ASKED)),
                                              repeat=length - 1):
                    yield bound, (first,) + rest
    return gen


def run_adapter(case, cx):
    bound, word = case
    um = asked_map()
    adapter = um.bind('example.com', **bound)
    other = um.bind('example.com')
    for n, code in enumerate(word):
        cx.step(2)
        what = 'asked %r, bound with %r' % (
            [ASKED[i] for i in word[:n + 1]], bound)
        got = ask(adapter, ASKED[code])
        same(got, ask(asked_map().bind('example.com', **bound),
                      ASKED[code]), what)
        cx.state((tuple(sorted(bound)), code, got))
    same(ask(other, ('match', '/a', None)),
         ('redirect', 'http://example.com/a/'), 'another adapter after ' +
         what)


# -- many endpoints

def wide_cases():
    for count in (1, 2, 7, 8, 9, 16, 33, 64):
        for looked in (False, True):
            for backwards in (False, True):
                yield count, looked, backwards


def run_wide(case, cx):
    count, looked, backwards = case
    routes = []
    for n in range(count):
        routes += [Route('/%d/<int:p>/' % n, 'e%d' % n),
                   Route('/%d/first' % n, 'e%d' % n, defaults={'p': 1}),
                   Route('/%d/<x>' % n, 'x%d' % n)]
    if backwards:
        routes.reverse()
    um = impl.URLMap()
    mm = model.Map([])
    adapter = um.bind('example.com')
    for n, r in enumerate(routes):
        um.add_routes(impl_route(r))
        mm.add(r)
        if looked:
            check_build(adapter, mm, r.endpoint, {'p': 1, 'x': 'y'}, 'wide')
    for n in range(count):
        for path in ('/%d/1', '/%d/2', '/%d/2/', '/%d/first', '/%d/z'):
            want = compare_match(
                observe(adapter, path % n), mm, '', path % n, cx,
                '%d endpoints: %r' % (count, path % n))
            cx.state((case, want[0]))
        for values in ({}, {'p': 1}, {'p': 2}, {'x': 'y'}):
            for endpoint in ('e%d' % n, 'x%d' % n):
                cx.step()
                check_build(adapter, mm, endpoint, values, 'wide')
    same(len(list(um.iter_routes())), len(routes), 'number of routes')


# -- many routes in a factory

FACTORIES = {
    'submount': lambda routes: impl.Submount('/p', routes),
    'prefix': lambda routes: impl.EndpointPrefix('p', routes),
    'subdomain': lambda routes: impl.Subdomain('p', routes),
    'template': lambda routes: impl.RouteTemplate(routes)(name='p'),
    'nothing': lambda routes: routes,
}


def full_cases():
    return itertools.product(FACTORIES, ('flat', 'nested', 'apart', 'inside'),
                             tuple(range(1, 21)) + (33, 65))


def run_full(case, cx):
    kind, shape, n = case
    make = FACTORIES[kind]
    routes = [impl.Route('/r%d/<x>' % i, endpoint='e%d' % i,
                         defaults={'d%d' % k: k for k in range(i % 20)})
              for i in range(n)]
    if shape == 'flat':
        factories = [make(routes)]
    elif shape == 'nested':
        factories = [make([impl.Submount('', routes)])]
    elif shape == 'apart':
        factories = [make([route]) for route in routes]
    else:
        factories = [make([impl.Submount('', [route]) for route in routes])]
    if kind == 'nothing':
        factories = [f for group in factories for f in group]
    um = impl.URLMap()
    um.add_routes(*factories)
    before = '/p' if kind == 'submount' else ''
    name = 'p' if kind == 'prefix' else ''
    adapter = um.bind('example.com', subdomain='p' if kind == 'subdomain'
                      else '')
    for i in range(n):
        cx.step()
        want = dict({'d%d' % k: k for k in range(i % 20)}, x='v')
        path = '%s/r%d/v' % (before, i)
        same(adapter.match(path), ('%se%d' % (name, i), want),
             'match of %r' % path)
        same(adapter.build('%se%d' % (name, i), {'x': 'v'}), path, 'build')
        same([r.endpoint for r in um.iter_routes('%se%d' % (name, i))],
             ['%se%d' % (name, i)], 'routes of the endpoint')
    # the same number of routes for one endpoint
    again = impl.URLMap(make([
        impl.Route('/s%d' % i, endpoint='s') for i in range(n)])
        if kind == 'nothing' else [make([
            impl.Route('/s%d' % i, endpoint='s') for i in range(n)])])
    same(sorted(r.route for r in again.iter_routes(name + 's')),
         sorted('%s/s%d' % (before, i) for i in range(n)), 'of one endpoint')
    same(len(list(again.iter_routes())), n, 'number of routes')
    same(sorted(r.endpoint for r in um.iter_routes()),
         sorted('%se%d' % (name, i) for i in range(n)), 'all routes')
    cx.state(case)
    cx.outcome(kind)


# -- what an endpoint expects

EXPECT = [
    Route('/<x>', 'e'), Route('/y/<y>', 'e'), Route('/<x>/<y>', 'e'),
    Route('/d', 'e', defaults={'x': 1}), Route('/z/<z>/<x>', 'e'),
    Route('/s/<w>', 'e', subdomain='<y>'), Route('/', 'e'),
    Route('/bo/<v>/<y>', 'e', build_only=True), Route('/o/<v>', 'other'),
]


def expect_cases():
    for n in range(1, len(EXPECT) + 1):
        for picked in itertools.combinations(range(len(EXPECT)), n):
            yield (picked,)


def run_expect(case, cx):
    picked, = case
    routes = [EXPECT[i] for i in picked]
    um = impl.URLMap()
    mm = model.Map([])
    for r in routes:
        um.add_routes(impl_route(r))
        mm.add(r)
    for endpoint in {r.endpoint for r in routes}:
        sets = [b.arguments for b in mm.routes
                if b.route.endpoint == endpoint]
        for n in range(4):
            for names in itertools.combinations('vwxyz', n):
                cx.step()
                same(um.is_endpoint_expecting(endpoint, *names),
                     any(set(names) <= s for s in sets),
                     '%r expecting %r' % ([r.path for r in routes], names))
        cx.state((picked, endpoint))


check = Check('C04', [
    Space('histories', run_history, history_cases(4), history_cases(6),
          chunk=100, rule='every sequence over %d operations' % len(OPS)),
    Space('batches', run_order, order_cases(4), order_cases(5), chunk=50),
    Space('refused', run_refused, refused_cases(3), refused_cases(4),
          chunk=50),
    Space('factories', run_factory, factory_cases(2, 2),
          factory_cases(3, 3), chunk=5),
    Space('templates', run_template, template_cases(3), template_cases(5),
          chunk=5),
    Space('options', run_option, option_cases, chunk=5,
          rule='every combination of route options x factory x map '
               'options'),
    Space('adapter', run_adapter, adapter_cases(2), adapter_cases(3),
          chunk=100),
    Space('wide', run_wide, wide_cases, chunk=1),
    Space('full factories', run_full, full_cases, chunk=4),
    Space('expecting', run_expect, expect_cases, chunk=20),
], bounds='histories of up to 4 (thorough: 5) operations; up to 4 (5) routes '
    'in every order and split; factories nested up to 2 (3) deep')
