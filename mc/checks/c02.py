"""C02: building URLs and matching them again."""
import itertools
import uuid
from urllib.parse import parse_qsl, quote, unquote, urlsplit

from verktyg.datastructures import MultiDict

from mc.core import Check, Space, fail, same
from mc.own_converters import (
    REFERENCE, REFUSED as NO_TEXT, VALUES as OWN_VALUES, own_cases, own_map,
)
from mc.routing_common import (
    Route, domain_host, impl, impl_map, model, observe, query_pairs, typed,
)

UUIDS = ['12345678-9abc-def0-1234-56789abcdef0',
         'ffffffff-ffff-ffff-ffff-ffffffffffff']

TEXTS = ['a', 'A', '1', 'a b', 'a?b', 'a#b', 'a%2Fb', 'a+b', 'a;b', 'a:b',
         'a&b', 'a=b', 'a@b', 'a,b', 'a$b', 'a!*\'()', '~', '"', '<', '>',
         '|', '\\', '^', '`', '{', '}', '[', ']', '%', '%%41', '.a', 'a.',
         '..', '.', '\n', '\r\n', '\t', '\x7f', '\x00', '\xe9', '\xff',
         '\u2603', '\U0001f600', '\xe9\u2603/'.strip('/'), ' ', 'a' * 300,
         '__suffix__', '-', '_', 'http:', '+', '++', '\x1f\x1e']
VALUES = {
    'string': TEXTS,
    'default': TEXTS,
    'path': TEXTS + ['a/b', 'a//b', '\xe9/\u2603', 'a/', 'a/../b', 'a?b/c',
                     './a', 'a/.', 'a///b//', 'http://x/y', 'a b/c d'],
    'int': [0, 1, 7, 42, 10 ** 30],
    'int(fixed_digits=3)': [0, 1, 42, 999],
    'int(min=2, max=9)': [2, 5, 9],
    'float': [0.0, 1.5, 0.25, 100.0, 123456.789],
    'float(max=2.0)': [0.5, 2.0],
    'uuid': [('uuid', u) for u in UUIDS],
    'any(a, "b c", "\xe9")': ['a', 'b c', '\xe9'],
    'string(length=2)': ['ab', '\xe9\u2603', '%4'],
    'words': [['a'], ['a', 'b'], ['\xe9', 'x y', 'a&b']],
}
FRAMES = ['/<%s:v>', '/<%s:v>/', '/x/<%s:v>/y', '/x-<%s:v>', '/<%s:v>.y/',
          '/\xe9\u2603/<%s:v>', '/a b?#&=;+:@%%25/<%s:v>', '/x/<%s:v>/<w>']
SCRIPTS = ['/', '/app', '/app/', '/app/v1']
EXTRAS = [
    {}, {'q': 'x'}, {'q': '\xe9 &=+#?/;%\n'}, {'q': ['b', 'a', 'b']},
    {'q': None, 'r': ''}, {'b': 1, 'a': 2.5, 'c': True},
    {'\xe9 &': 'x', 'q': ('1', 2)},
]


def real(value):
    if isinstance(value, tuple) and value[0] == 'uuid':
        return uuid.UUID(value[1])
    return value


def round_trip(um, mm, adapter_args, endpoint, values, external, append, cx,
               what, as_multi=False, cross=True):
    server, script, sub, scheme = adapter_args
    adapter = um.bind(server, script, subdomain=sub, url_scheme=scheme)
    if mm.host_matching:
        bound_domain = server
    else:
        bound_domain = mm.default_subdomain if sub is None else sub
    want = mm.build(endpoint, values)
    passed = MultiDict(values) if as_multi else dict(values)
    before = repr(passed)
    cx.step()
    try:
        url = adapter.build(endpoint, passed, force_external=external,
                            append_unknown=append)
    except impl.BuildError as e:
        cx.outcome('BuildError')
        if want is not None:
            fail('%s: BuildError, model builds %r' % (what, want))
        if e.endpoint != endpoint:
            fail('%s: BuildError for %r' % (what, e.endpoint))
        return
    if repr(passed) != before:
        fail('%s: build changed its argument from %s to %r' % (
            what, before, passed))
    if want is None:
        fail('%s: built %r, model has no route' % (what, url))
    domain, path, extra = want
    relative = not external and domain == bound_domain
    cx.outcome(('relative', 'absolute')[not relative])
    model.check_url(
        url, scheme, None if relative else domain_host(mm, domain, server),
        script.rstrip('/') + path, query_pairs(extra) if append else '',
        mm.charset, what, fail)
    if not cross:
        return
    # and back again
    split = urlsplit(url)
    inner = unquote(split.path, encoding=mm.charset)[
        len(script.rstrip('/')):]
    target = um.bind(
        *((domain, script) if mm.host_matching else (server, script, domain)))
    expected = mm.match(domain, inner)
    if expected[0] != 'ok':
        return          # another route takes precedence
    cx.step()
    got = observe(target, inner)
    if expected[1] == endpoint:
        wanted = [dict((k, v) for k, v in expected[2][0].items())]
        mine = {k: v for k, v in values.items()
                if k in wanted[0] and v is not None}
        for k, v in mine.items():
            if wanted[0][k] != v and str(wanted[0][k]) != str(v):
                fail('%s: model does not round trip %r' % (what, k))
        if got[0] != 'ok' or got[1] != endpoint or typed(got[2]) not in [
                typed(w) for w in expected[2]]:
            fail('%s: %r matches as %r instead of %r' % (
                what, url, got, (endpoint, values)))
        cx.state((what, url))
    elif got[:2] != ('ok', expected[1]):
        fail('%s: %r matches as %r instead of %r' % (
            what, url, got, expected))


# -- every value of every converter through every frame and configuration

def value_cases():
    for conv in VALUES:
        for frame in range(len(FRAMES)):
            for charset in ('utf-8', 'latin-1', 'cp1252'):
                if charset != 'utf-8' and frame in (1, 3, 4):
                    continue
                yield conv, frame, charset


def encodable(value, charset):
    try:
        repr(value) and str(value).encode(charset)
        if isinstance(value, list):
            ''.join(value).encode(charset)
    except UnicodeEncodeError:
        return False
    return True


def run_values(case, cx):
    conv, frame, charset = case
    path = FRAMES[frame] % conv if '%25' not in FRAMES[frame] else (
        FRAMES[frame] % conv)
    if not encodable(path, charset):
        return
    route = Route(path, 'e')
    um = impl_map([route], charset=charset)
    mm = model.Map([route], charset=charset)
    for value in VALUES[conv]:
        value = real(value)
        if not encodable(value, charset):
            continue
        if route.path.endswith('/') and str(value).endswith('/'):
            continue        # a branch can't follow an empty segment
        values = {'v': value}
        if '<w>' in route.path:
            values['w'] = 'w\xe9'
        for script in SCRIPTS[:2] + SCRIPTS[3:]:
            for external in (False, True):
                for number, extra in enumerate(EXTRAS[:4]):
                    if not encodable(str(extra), charset):
                        continue
                    for append in (True, False):
                        if number and not append and script != '/':
                            continue
                        full = dict(values)
                        full.update(extra)
                        round_trip(
                            um, mm, ('example.com', script, None, 'http'),
                            'e', full, external, append, cx,
                            'route %r %r script=%r external=%r' % (
                                route.path, full, script, external))


# -- which route of an endpoint gets built, over every subset of values

SHARED = [
    Route('/s', 'e'),
    Route('/s/<x>', 'e'),
    Route('/s/<x>/<y>', 'e'),
    Route('/d/', 'e', defaults={'x': '1'}),
    Route('/d/<y>', 'e', defaults={'x': '1'}),
    Route('/dd', 'e', defaults={'x': '1', 'y': '2'}),
    Route('/al/<x>', 'e', alias=True),
    Route('/bo/<x>/<y>/', 'e', build_only=True),
    Route('/t/<int:x>', 'e'),
    Route('/sub', 'e', subdomain='kb'),
    Route('/<y>', 'e', subdomain='<x>'),
    Route('/s/<x>', 'other'),
]


def select_cases(size):
    def gen():
        for n in range(0, size + 1):
            for picked in itertools.permutations(range(len(SHARED)), n):
                yield (picked,)
    return gen


def run_select(case, cx):
    picked, = case
    routes = [SHARED[i] for i in picked]
    um = impl_map(routes)
    mm = model.Map(routes)
    for x, y, z in itertools.product(
            ('absent', None, '1', '2'), ('absent', None, '2', '3'),
            ('absent', 'q')):
        values = {k: v for k, v in (('x', x), ('y', y), ('z', z))
                  if v != 'absent'}
        if any('int' in r.path for r in routes):
            values = {k: int(v) if k == 'x' and v is not None else v
                      for k, v in values.items()}
        for endpoint in ('e', 'other', 'nosuch'):
            for sub in ((None,) if len(picked) > 2 else (None, 'kb')):
                for append in (True, False):
                    for multi in (False, True):
                        round_trip(
                            um, mm, ('example.com', '/', sub, 'https'),
                            endpoint, values, False, append, cx,
                            'routes %r %r %r' % (
                                [r.path for r in routes], endpoint, values),
                            as_multi=multi)


# -- values that are false, and defaults that are

FALSY = [0, 1, 2, 0.0, False, True, '', None, 'absent']


def falsy_cases():
    for default in (0, 1, '', False, None):
        for order in (0, 1):
            yield default, order


def run_falsy(case, cx):
    default, order = case
    routes = [Route('/all', 'e', defaults={'page': default}),
              Route('/p/<int:page>', 'e'),
              Route('/o/<int:page>/<int(fixed_digits=2):size>', 'e'),
              Route('/plain', 'other')]
    if order:
        routes.reverse()
    um = impl_map(routes)
    mm = model.Map(routes)
    for page, size, flag in itertools.product(
            FALSY, ('absent', 0, None, 7), FALSY):
        values = {k: v for k, v in (
            ('page', page), ('size', size), ('flag', flag))
            if v != 'absent'}
        if page in ('', 0.0) and type(page) in (str, float, bool):
            # no value of the converter: may only fit the default
            if page != default or 'size' in values:
                continue
        for endpoint in ('e', 'other'):
            if endpoint == 'other' and page == '':
                continue
            for multi in (False, True):
                if multi and None in values.values():
                    continue
                round_trip(um, mm, ('example.com', '/app/v1', None, 'http'),
                           endpoint, values, False, True, cx,
                           'default %r build %r %r' % (
                               default, endpoint, values), as_multi=multi)


# -- values the converter would refuse when matching: building may fail, or
# give a URL that leads nowhere, but never one that means another value

REFUSED = {
    'int(fixed_digits=2)': [100, 12345, 1000, 10 ** 12],
    'int(min=5)': [0, 4], 'int(max=5)': [6, 55, 50, 10 ** 12],
    'int(min=2, max=9)': [1, 10, 22, 99],
    'float(max=1.5)': [2.0, 15.0, 1.75], 'float(min=1.5)': [0.5, 1.25],
    'string(length=2)': ['a', 'abc', 'abab'],
    'string(minlength=3)': ['a', 'ab'], 'string(maxlength=2)': ['abc'],
    'any(a,bb)': ['b', 'abb', 'bba', 'A', 'c'],
    'default': ['a/b', '/', 'a/'], 'uuid': ['1234', 'x' * 36],
}


def refused_cases():
    for conv in REFUSED:
        for frame in ('/<%s:v>', '/<%s:v>/', '/x/<%s:v>/y', '/x-<%s:v>'):
            yield conv, frame


def run_refused(case, cx):
    conv, frame = case
    um = impl_map([Route(frame % conv, 'e')])
    adapter = um.bind('example.com', '/app')
    for value in REFUSED[conv]:
        cx.step(2)
        try:
            url = adapter.build('e', {'v': value})
        except impl.BuildError:
            cx.outcome('BuildError')
            continue
        got = observe(adapter, unquote(url)[len('/app'):])
        cx.outcome(got[0])
        cx.state((case, value, got[0]))
        if got[0] == 'ok' and got[2] != {'v': value}:
            fail('%r built for %r means %r' % (url, value, got))


# -- domains

DOMAINS = [
    Route('/a', 'plain'), Route('/a/<x>', 'www', subdomain='www'),
    Route('/', 'user', subdomain='<u>'), Route('/b', 'empty', subdomain=''),
    Route('/c', 'multi', subdomain='<u>.x'),
]
HOSTS = [
    Route('/a', 'plain', host='example.com'),
    Route('/a/<x>', 'www', host='www.example.com'),
    Route('/', 'user', host='<u>.example.com'),
    Route('/b', 'empty', host='example.com:8080'),
    Route('/c', 'multi', host='<u>'),
]


def domain_cases():
    for matching in (False, True):
        for default in ('', 'www'):
            for scheme in ('http', 'https'):
                for script in SCRIPTS:
                    yield matching, default, scheme, script


def run_domain(case, cx):
    matching, default, scheme, script = case
    routes = HOSTS if matching else DOMAINS
    config = {'host_matching': matching}
    if not matching:
        config['default_subdomain'] = default
    um = impl_map(routes, **config)
    mm = model.Map(routes, **config)
    servers = ['example.com', 'www.example.com', 'other.org',
               'example.com:8080']
    for server in servers:
        for sub in ((None,) if matching else (None, '', 'www', 'joe')):
            for external in (False, True):
                for endpoint in ('plain', 'www', 'user', 'empty', 'multi'):
                    for values in ({'u': 'joe'}, {'x': 'y'},
                                   {'u': 'www', 'x': '\xe9'}, {}):
                        round_trip(
                            um, mm, (server, script, sub, scheme), endpoint,
                            values, external, True, cx,
                            'matching=%r default=%r server=%r sub=%r '
                            'build %r %r' % (
                                matching, default, server, sub, endpoint,
                                values))


# -- extra values

def extra_cases():
    for n in range(len(EXTRAS)):
        for m in range(len(EXTRAS)):
            for charset in ('utf-8', 'latin-1'):
                for multi in (False, True):
                    for mode in ('none', 'sort', 'key'):
                        yield n, m, charset, multi, mode


def run_extra(case, cx):
    n, m, charset, multi, mode = case
    routes = [Route('/', 'root'), Route('/p/<v>', 'p')]
    options = {}
    if mode != 'none':
        options['sort_parameters'] = True
    if mode == 'key':
        options['sort_key'] = lambda item: str(item[0])[::-1]
    um = impl_map(routes, charset=charset, **options)
    mm = model.Map(routes, charset=charset)
    values = dict(EXTRAS[n])
    values.update(EXTRAS[m])
    if multi and any(v is None or isinstance(v, tuple) and not v
                     for v in values.values()):
        values = {k: v for k, v in values.items() if v is not None}
    for endpoint in ('root', 'p'):
        full = dict(values)
        if endpoint == 'p':
            full['v'] = 'x'
        if multi:
            # a MultiDict carries one value per key through build()
            full = {k: v for k, v in full.items()
                    if not isinstance(v, (list, tuple))}
        for external in (False, True):
            round_trip(um, mm, ('example.com', '/', None, 'http'), endpoint,
                       full, external, True, cx, 'extra %r' % (full,),
                       as_multi=multi)
        if mode == 'none':
            continue
        url = um.bind('example.com').build(endpoint, full)
        keys = [unquote(p.partition('=')[0].replace('+', ' '),
                        encoding=charset)
                for p in urlsplit(url).query.split('&') if p]
        key = (lambda k: k[::-1]) if mode == 'key' else (lambda k: k)
        same(keys, sorted(keys, key=key), 'parameter order of %r' % url)


# -- many placeholders, routes, values

def many_cases():
    return itertools.product(
        ('placeholders', 'routes', 'extras', 'defaults', 'any', 'literals'),
        tuple(range(1, 21)) + (33, 65))


def run_many(case, cx):
    what, n = case
    names = ['a%d' % i for i in range(n)]
    um = impl.URLMap()
    adapter = um.bind('example.com')

    def trip(endpoint, values, want=None):
        cx.step()
        url = adapter.build(endpoint, values)
        path, _, query = url.partition('?')
        got_endpoint, got = adapter.match(unquote(path))
        got = dict(got, **dict(parse_qsl(query)))
        same((got_endpoint, got), (endpoint, want or values),
             'what %r leads to' % url)

    if what == 'placeholders':
        um.add_routes(impl.Route(
            '/' + '/'.join('<%s>' % a for a in names), endpoint='e'))
        trip('e', {a: 'v' + a for a in names})
        for a in {names[0], names[n // 2], names[-1]}:
            few = {b: 'v' for b in names if b != a}
            try:
                got = adapter.build('e', few)
            except impl.BuildError:
                continue
            fail('built %r without %r' % (got, a))
    elif what == 'routes':
        for a in names:
            um.add_routes(impl.Route('/%s/<%s>' % (a, a), endpoint='e'))
        for a in names:
            trip('e', {a: 'v'})
    elif what == 'extras':
        um.add_routes(impl.Route('/x/<x>', endpoint='e'))
        trip('e', dict({a: 'v' + a for a in names}, x='y'))
    elif what == 'defaults':
        defaults = {a: i for i, a in enumerate(names)}
        um.add_routes(impl.Route('/d', endpoint='e', defaults=defaults),
                      impl.Route('/d/' + '/'.join(
                          '<int:%s>' % a for a in names), endpoint='e'))
        trip('e', defaults)
        same(adapter.build('e', defaults), '/d', 'URL of the defaults')
        for a in {names[0], names[n // 2], names[-1]}:
            other = dict(defaults, **{a: 999})
            same(adapter.build('e', other), '/d/' + '/'.join(
                str(other[b]) for b in names), 'URL of other values')
            trip('e', other)
        try:
            adapter.match('/d/' + '/'.join(str(i) for i in range(n)))
        except impl.RequestRedirect as e:
            same(urlsplit(e.new_url).path, '/d', 'redirect')
        else:
            fail('no redirect to the defaults')
    elif what == 'any':
        um.add_routes(impl.Route('/<any(%s):x>' % ', '.join(names),
                                 endpoint='e'))
        for a in names:
            trip('e', {'x': a})
    else:
        um.add_routes(impl.Route('/' + '/'.join(
            '%s/<%s>' % (a, a) for a in names) + '/', endpoint='e'))
        trip('e', {a: 'v' + a for a in names})
    cx.state(case)
    cx.outcome(what)


# -- literal text in routes: every string over special characters

def literal_cases(length):
    def gen():
        for n in range(1, length + 1):
            for word in itertools.product('a/%?#+:; &.\xe9|', repeat=n):
                text = '/' + ''.join(word)
                if '//' in text:
                    continue
                yield (text,)
    return gen


def run_literal(case, cx):
    text, = case
    for path in (text, text.rstrip('/') + '/<x>'):
        route = Route(path, 'e')
        for charset in ('utf-8', 'latin-1') if '\xe9' in text else ('utf-8',):
            um = impl_map([route], charset=charset)
            mm = model.Map([route], charset=charset)
            values = {'x': '\xe9%'} if '<' in path else {}
            for external in (False, True):
                round_trip(um, mm, ('example.com', '/s', None, 'http'), 'e',
                           values, external, True, cx,
                           'literal route %r (%s)' % (path, charset))


# -- converters of one's own

def run_own(case, cx):
    chosen, frame = case
    # all routes lead to the same endpoint: the first that takes the value
    adapter = own_map(chosen, frame, lambda i: 'e').bind('example.com')
    for value in OWN_VALUES:
        want = None
        for placeholder in chosen:
            text = REFERENCE[placeholder][2](value)
            if text is not NO_TEXT:
                want = frame % quote(text, safe='/:')
                break
        cx.step()
        cx.state((case, str(value), want))
        cx.outcome(want is None)
        try:
            got = adapter.build('e', {'x': value})
        except impl.BuildError:
            got = None
        same(got, want, 'build of %r with %r' % (value, chosen))


check = Check('C02', [
    Space('values', run_values, value_cases, chunk=1),
    Space('select', run_select, select_cases(3), select_cases(4), chunk=5),
    Space('falsy', run_falsy, falsy_cases, chunk=1),
    Space('refused', run_refused, refused_cases, chunk=1),
    Space('domains', run_domain, domain_cases, chunk=1),
    Space('extras', run_extra, extra_cases, chunk=10),
    Space('literals', run_literal, literal_cases(4), literal_cases(5),
          chunk=50),
    Space('many', run_many, many_cases, chunk=5),
    Space('own-converters', run_own, own_cases(2), own_cases(3), chunk=20),
], bounds='%d converters x %d frames x all listed values; endpoints with up '
    'to 3 (thorough 4) routes x 32 value sets; literal routes of up to 4 '
    '(thorough 5) symbols over 12' % (len(VALUES), len(FRAMES)),
    assumptions=['values are ones the converter of the placeholder accepts'])
