"""C14: headers are an ordered list of pairs with case insensitive names that
never contains a line break."""
import copy
import itertools

from verktyg.exceptions import BadRequest
from verktyg.http import (
    Headers, is_entity_header, is_hop_by_hop_header, remove_entity_headers,
    remove_hop_by_hop_headers,
)
from verktyg.requests import Request
from verktyg.responses import Response
from verktyg.wsgi import EnvironHeaders

from mc.core import Check, Space, caught, expect, fail, same, strings, words
from mc.wsgi_client import call, environ

NAMES = ('a', 'A', 'X-b', 'x-B', 'c', 'X_b')


def key_error(function, *args):
    try:
        got = function(*args)
    except KeyError as e:
        expect(isinstance(e, BadRequest), 'KeyError is not a bad request')
        return
    fail('{}{!r} gave {!r} for a missing name', function.__name__, args, got)


def _wrapped(value):
    return [value]


def observe(h, model, cx):
    same(list(h), model, 'contents')
    same(len(h), len(model), 'len')
    same(list(h.items()), model, 'items')
    same(list(h.items(lower=True)), [(k.lower(), v) for k, v in model],
         'items(lower)')
    same(list(h.keys()), [k for k, v in model], 'keys')
    same(list(h.keys(lower=True)), [k.lower() for k, v in model],
         'keys(lower)')
    same(list(h.values()), [v for k, v in model], 'values')
    wsgi = h.to_wsgi_list()
    same(wsgi, model, 'to_wsgi_list')
    wsgi.append(('leak', 'leak'))
    same(str(h), ''.join('%s: %s\r\n' % p for p in model) + '\r\n', 'str')
    for name in NAMES:
        values = [v for k, v in model if k.lower() == name.lower()]
        same(name in h, bool(values), 'in')
        same(h.getlist(name), values, 'getlist')
        same(h.get_all(name), values, 'get_all')
        same(h.getlist(name, as_bytes=True),
             [v.encode('latin1') for v in values], 'getlist bytes')
        ints = [int(v) for v in values if v.isdigit()]
        same(h.getlist(name, type=int), ints, 'getlist(type)')
        same(h.getlist(name, type=_wrapped, as_bytes=True),
             [[v.encode('latin1')] for v in values], 'getlist(type) of bytes')
        if values:
            same(h.get(name, type=_wrapped, as_bytes=True),
                 [values[0].encode('latin1')], 'get(type) of bytes')
            same(h.get(name, 'z', type=_wrapped), [values[0]], 'get(type)')
            same(h[name], values[0], 'h[%r]' % name)
            same(h.get(name, 'z'), values[0], 'get')
            same(h.get(name, as_bytes=True), values[0].encode('latin1'),
                 'get bytes')
            same(h.get(name, -1, type=int),
                 int(values[0]) if values[0].isdigit() else -1, 'get(type)')
        else:
            key_error(h.__getitem__, name)
            same(h.get(name), None, 'get missing')
            same(h.get(name, 'z', type=int), 'z', 'get missing')
    for index in range(-len(model), len(model)):
        same(h[index], model[index], 'index')
    for index in (len(model), -len(model) - 1):
        same(caught(h.__getitem__, index), ('raised', 'IndexError'),
             'index out of range')
    for part in (slice(None), slice(1, None), slice(None, -1),
                 slice(None, None, 2)):
        sub = h[part]
        same(list(sub), model[part], 'slice')
        same(type(sub), type(h), 'class of a slice')
        sub.add('leak', 'x')
    for other in (h.copy(), copy.copy(h), Headers(h), Headers(list(model)),
                  copy.deepcopy(h), Headers(iter(model))):
        same(list(other), model, 'copy')
        expect(other == h and h == other and not h != other,
               'copy is unequal')
        other.add('Leak', 'x')
        expect(other != h, 'equal after a change')
        other.set('a', 'leak')
        other.remove('c')
        same(list(h), model, 'changed through a copy')
    cx.step()


# -- histories ---------------------------------------------------------------

OPS = []
for _name in ('a', 'A', 'X-b'):
    OPS += [('add', _name, '1'), ('set', _name, '2'), ('item', _name, 'x'),
            ('del', _name), ('remove', _name), ('pop', _name),
            ('pop default', _name), ('setdefault', _name, '4')]
OPS += [
    ('add_header', 'c', 'y'), ('add', 'c', 7), ('set', 'a', b'\xe9'),
    ('add params', 'c'), ('set params', 'A'),
    ('extend', 'pairs', (('a', '5'), ('c', '6'))),
    ('extend', 'dict', (('A', ('5', '6')), ('c', '7'))),
    ('extend', 'tuples', (('A', ('5', '6', '5')), ('c', ()))),
    ('extend', 'headers', (('a', '5'), ('a', '6'))),
    ('add', 'X_b', ''), ('set', 'a', ''),
    ('index', 0), ('index', -1), ('del index', 0), ('del index', 1),
    ('slice', 0, 2), ('del slice', 1, None), ('pop index', 0),
    ('pop index', 5), ('pop last',), ('popitem',), ('clear',),
]
BAD = ['1\n2', '1\r2', '\n', '\r\nX: y', b'a\nb']
for _value in BAD[:1]:
    OPS += [('bad add', _value), ('bad set', _value), ('bad extend', _value)]


def drop(model, name):
    model[:] = [p for p in model if p[0].lower() != name.lower()]


def put(model, name, value):
    for index, (k, v) in enumerate(model):
        if k.lower() == name.lower():
            rest = [p for p in model[index + 1:]
                    if p[0].lower() != name.lower()]
            model[index:] = [(name, value)] + rest
            return
    model.append((name, value))


def text(value):
    return value.decode('latin1') if isinstance(value, bytes) else str(value)


def refused(function, *args, **kwargs):
    try:
        function(*args, **kwargs)
    except ValueError:
        return
    fail('a line break was accepted by {}', function.__name__)


def apply(h, model, op):
    kind, rest = op[0], op[1:]
    name = rest[0] if rest else None
    have = [v for k, v in model if isinstance(name, str)
            and k.lower() == name.lower()]
    if kind in ('add', 'add_header'):
        getattr(h, kind)(name, rest[1])
        model.append((name, text(rest[1])))
    elif kind == 'set':
        h.set(name, rest[1])
        put(model, name, text(rest[1]))
    elif kind == 'item':
        h[name] = rest[1]
        put(model, name, rest[1])
    elif kind == 'add params':
        h.add(name, 'v', foo_bar='q r', baz='s')
        expect(list(h)[-1][1] in ('v; foo-bar="q r"; baz=s',
                                  'v; baz=s; foo-bar="q r"'),
               'parameters dumped as {!r}', list(h)[-1][1])
        model.append((name, list(h)[-1][1]))
    elif kind == 'set params':
        h.set(name, 'v', foo_bar_baz_='q;r')
        put(model, name, 'v; foo-bar-baz-="q;r"')
    elif kind == 'del':
        if have:
            del h[name]
        drop(model, name)
    elif kind == 'remove':
        if have:
            h.remove(name)
        drop(model, name)
    elif kind == 'pop':
        if have:
            same(h.pop(name), have[0], 'pop')
            drop(model, name)
        else:
            key_error(h.pop, name)
    elif kind == 'pop default':
        same(h.pop(name, None), have[0] if have else None, 'pop')
        drop(model, name)
        same(h.pop(name, 'dflt'), 'dflt', 'pop again')
    elif kind == 'setdefault':
        same(h.setdefault(name, rest[1]), have[0] if have else rest[1],
             'setdefault')
        if not have:
            put(model, name, rest[1])
    elif kind == 'extend':
        pairs = rest[1]
        if rest[0] in ('dict', 'tuples'):
            h.extend({k: list(v) if isinstance(v, tuple)
                      and rest[0] == 'dict' else v
                      for k, v in pairs})
            for k, v in pairs:
                for x in (v if isinstance(v, tuple) else (v,)):
                    model.append((k, x))
        else:
            h.extend(Headers(list(pairs)) if rest[0] == 'headers'
                     else list(pairs))
            model.extend(pairs)
    elif kind == 'index':
        if not model:
            kind, _ = caught(h.__setitem__, name, ('c', '8'))
            same(kind, 'raised', 'setting an index of nothing')
        else:
            h[name] = ('c', 8)
            model[name] = ('c', '8')
    elif kind == 'del index':
        got = caught(h.__delitem__, name)[0]
        if name >= len(model):
            same(got, 'raised', 'del index')
        else:
            del model[name]
    elif kind == 'slice':
        h[rest[0]:rest[1]] = [('a', '9'), ('c', 9)]
        model[rest[0]:rest[1]] = [('a', '9'), ('c', '9')]
    elif kind == 'del slice':
        del h[rest[0]:rest[1]]
        del model[rest[0]:rest[1]]
    elif kind == 'pop index':
        if name >= len(model):
            same(caught(h.pop, name), ('raised', 'IndexError'), 'pop index')
        else:
            same(h.pop(name), model.pop(name), 'pop index')
    elif kind in ('pop last', 'popitem'):
        function = h.pop if kind == 'pop last' else h.popitem
        if model:
            same(function(), model.pop(), kind)
        else:
            same(caught(function)[0], 'raised', kind)
    elif kind == 'clear':
        h.clear()
        del model[:]
    elif kind == 'bad add':
        refused(h.add, 'a', name)
    elif kind == 'bad set':
        refused(h.set, 'a', name)
    elif kind == 'bad extend':
        refused(h.extend, [('c', name)])
    else:
        raise AssertionError(kind)


def run_history(case, cx):
    initial, history = case
    h = Headers(list(initial))
    model = list(initial)
    for number, op in enumerate(history):
        apply(h, model, op)
        same(list(h), model, 'contents')
        if number == len(history) - 1:
            observe(h, model, cx)
        cx.step()
        cx.state(tuple(model))
    if not history:
        observe(h, model, cx)
    cx.outcome(len(model))


def histories(depth):
    def gen():
        for initial in ((), (('a', '1'), ('x-B', '2'), ('A', '3'),
                             ('X-b', 'y'))):
            for history in words(OPS, depth):
                yield initial, history
    return gen


# -- line breaks -------------------------------------------------------------

def run_breaks(case, cx):
    value, present = case
    initial = [('a', '1'), ('b', '2')] if present else []
    bad = '\r' in value or '\n' in value

    def attempts():
        yield 'constructor list', lambda h: Headers([('a', value)])
        yield 'constructor dict', lambda h: Headers({'a': value})
        yield 'constructor lists', lambda h: Headers({'a': ['1', value]})
        yield 'constructor iterator', lambda h: Headers(iter([('a', value)]))
        yield 'constructor bytes', lambda h: Headers(
            [('a', value.encode('latin1'))])
        yield 'add', lambda h: h.add('a', value)
        yield 'add bytes', lambda h: h.add('a', value.encode('latin1'))
        yield 'add params', lambda h: h.add('a', value, x='y')
        yield 'add param value', lambda h: h.add('a', 'v', x=value)
        yield 'add_header', lambda h: h.add_header('a', value)
        yield 'add_header param', lambda h: h.add_header('a', 'v', x=value)
        yield 'set', lambda h: h.set('a', value)
        yield 'set new', lambda h: h.set('z', value)
        yield 'set bytes', lambda h: h.set('a', value.encode('latin1'))
        yield 'set param', lambda h: h.set('a', 'v', x=value)
        yield 'item', lambda h: h.__setitem__('a', value)
        yield 'new item', lambda h: h.__setitem__('z', value)
        if present:
            yield 'index', lambda h: h.__setitem__(0, ('a', value))
            yield 'last', lambda h: h.__setitem__(-1, ('a', value))
        yield 'slice', lambda h: h.__setitem__(
            slice(0, 1), [('a', 'ok'), ('b', value)])
        yield 'setdefault', lambda h: h.setdefault('z', value)
        yield 'extend', lambda h: h.extend([('a', value)])
        yield 'extend dict', lambda h: h.extend({'a': value})
        yield 'extend lists', lambda h: h.extend({'a': [value]})
        yield 'response', lambda h: Response(headers=[('X', value)]).headers
        yield 'response dict', lambda h: Response(
            headers={'X': value}).headers
        yield 'response type', lambda h: Response(
            content_type=value).headers
        yield 'response item', lambda h: _response_item(value)
        yield 'location', lambda h: _response_attr('location', value)

    for name, attempt in attempts():
        h = Headers(list(initial))
        try:
            got = attempt(h)
        except ValueError:
            expect(bad, '{} refused {!r}', name, value)
            for k, v in h:
                expect('\r' not in text(v) and '\n' not in text(v), '{} kept it', name)
        else:
            expect(not bad, '{} accepted {!r}', name, value)
            for k, v in (got if isinstance(got, Headers) else h):
                expect('\r' not in text(v) and '\n' not in text(v), '{} stored', name)
        cx.step()
    cx.state(case)
    cx.outcome(bad)


def _response_item(value):
    response = Response('x')
    response.headers['X'] = value
    return response.headers


def _response_attr(name, value):
    response = Response('x')
    setattr(response, name, value)
    return response.headers


def breaks(depth):
    def gen():
        for value in strings('a\r\n "', depth):
            for present in (False, True):
                yield value, present
    return gen


# -- sizes -------------------------------------------------------------------

def run_size(case, cx):
    """Many headers and long ones are no different"""
    n, step = case
    model = [(('a', 'B', 'x-c')[i % 3] if i % step == 0 else 'h%d' % i,
              'v%d' % i) for i in range(n)]
    h = Headers(list(model))
    for k, v in model[:3] + model[-3:]:
        h.add(k, v)
        model.append((k, v))
    same(list(h), model, 'contents')
    for op in (('set', 'A', '1'), ('remove', 'b'), ('add', 'x-C', 'y' * n),
               ('set', 'X-c', 'z' * n), ('pop', 'a'), ('del index', 0),
               ('add params', 'c'), ('del', 'x-c')):
        if op[0] == 'del index' and not model:
            continue
        apply(h, model, op)
        same(list(h), model, 'contents')
        for name in ('a', 'b', 'X-C', 'h%d' % (n - 1)):
            same(h.getlist(name), [v for k, v in model
                                   if k.lower() == name.lower()], 'getlist')
    same(str(h), ''.join('%s: %s\r\n' % p for p in model) + '\r\n', 'text')
    values = ['w%d' % i for i in range(n)]
    h.extend({'More': values})
    model += [('More', v) for v in values]
    same(list(h), model, 'extended')
    h[1:1] = [('In', v) for v in values]
    model[1:1] = [('In', v) for v in values]
    same(list(h), model, 'inserted')
    if n:
        for bad in ('x\ny', 'x\r'):
            for at in (0, n // 2, n - 1):
                pairs = [('In', bad if i == at else v)
                         for i, v in enumerate(values)]
                for change in (lambda: h.__setitem__(slice(0, 0), pairs),
                               lambda: Headers(pairs)):
                    try:
                        got = change()
                    except ValueError:
                        pass
                    else:
                        expect(got is not None and not any(
                            '\n' in v or '\r' in v for _, v in got),
                            'line break at {} of {}', at, n)
        same(list(h), model, 'after refusing')
        mixed = [('Content-Type', 'a')] + [('H%d' % i, 'v') for i in range(n)]
        mixed += [('Allow', 'b'), ('TE', 'c'), ('Last', 'd')]
        remove_entity_headers(mixed, allowed=[
            'h%d' % i for i in range(n)] + ['Content-Type'])
        remove_hop_by_hop_headers(mixed)
        same(mixed, [('Content-Type', 'a')] + [
            ('H%d' % i, 'v') for i in range(n)] + [('Last', 'd')], 'removed')
    env = environ(headers=[(k, v) for k, v in {
        k.upper(): v for k, v in model}.items()])
    same(sorted((k.lower(), v) for k, v in Request(env).headers
                if k.lower() not in ('host',)),
         sorted((k.lower(), v) for k, v in {
             k.upper(): v for k, v in model}.items()), 'request')
    cx.step()
    cx.state(case)
    cx.outcome(step)


def sizes(most):
    def gen():
        for n in sorted(set(range(most)) | {127, 128, 129, 255, 256, 257,
                                            1000, 1024, 1025, 4097}):
            for step in (1, 2, 5):
                yield n, step
    return gen


# -- equality ----------------------------------------------------------------

def run_equal(case, cx):
    a, b = case
    x, y = Headers(list(a)), Headers(list(b))
    if len(set(a)) == len(a) and len(set(b)) == len(b):
        # the order between headers does not matter
        same(x == y, set(a) == set(b), '==')
        same(x != y, set(a) != set(b), '!=')
    expect((x == y) == (y == x), 'asymmetric')
    for other in (list(a), dict(a), None, 5, 'a', EnvironHeaders({})):
        expect(x != other and other != x and not x == other,
               'equal to {!r}', other)
    cx.step()
    cx.state(case)
    cx.outcome(set(a) == set(b))


def equalities(depth):
    def gen():
        pairs = [('a', '1'), ('a', '2'), ('B', '1')]
        every = list(words(pairs, depth))
        return itertools.product(every, every)
    return gen


# -- entity and hop by hop headers -------------------------------------------

ENTITY = {'allow', 'content-encoding', 'content-language', 'content-length',
          'content-location', 'content-md5', 'content-range', 'content-type',
          'expires', 'last-modified'}
HOP = {'connection', 'keep-alive', 'proxy-authenticate',
       'proxy-authorization', 'te', 'trailer', 'transfer-encoding',
       'upgrade'}
SOME = ['Content-Type', 'CONTENT-LENGTH', 'Expires', 'content-location',
        'X-Thing', 'Connection', 'TE', 'Date', 'allow', 'ETag', 'upgrade']
EVERY = sorted(ENTITY | HOP) + [
    'trailers', 'content', 'content-disposition', 'content-security-policy',
    'proxy-connection', 'keep', 'accept', 'age', 'cache-control', 'location',
    'set-cookie', 'vary', 'via', 'last-event-id', 'www-authenticate']


def every_name():
    for first in EVERY:
        for second in EVERY:
            yield first, second.title()
            yield first.upper(), second


def run_remove(names, cx):
    pairs = [(name, str(i)) for i, name in enumerate(names)]
    for make in (list, Headers):
        h = make(pairs)
        remove_entity_headers(h)
        same(list(h), [p for p in pairs if p[0].lower() not in ENTITY
                       or p[0].lower() in ('expires', 'content-location')],
             'remove_entity_headers')
        h = make(pairs)
        remove_entity_headers(h, allowed=['Content-Type'])
        same(list(h), [p for p in pairs if p[0].lower() not in ENTITY
                       or p[0].lower() == 'content-type'],
             'remove_entity_headers with allowed')
        h = make(pairs)
        remove_hop_by_hop_headers(h)
        same(list(h), [p for p in pairs if p[0].lower() not in HOP],
             'remove_hop_by_hop_headers')
    for name in names:
        same(is_entity_header(name), name.lower() in ENTITY, 'entity')
        same(is_hop_by_hop_header(name), name.lower() in HOP, 'hop by hop')
    cx.step()
    cx.state(names)
    cx.outcome(len(names))


# -- headers of a request ----------------------------------------------------

def run_environ(case, cx):
    env = dict(environ(), **dict(case))
    del env['HTTP_HOST']
    want = {}
    for key, value in case:
        if key in ('CONTENT_TYPE', 'CONTENT_LENGTH'):
            want[key.replace('_', '-').lower()] = value
        elif key.startswith('HTTP_') and key not in (
                'HTTP_CONTENT_TYPE', 'HTTP_CONTENT_LENGTH'):
            want[key[5:].replace('_', '-').lower()] = value
    for h in (EnvironHeaders(env), Request(env).headers):
        same(len(h), len(want), 'len')
        got = [(k.lower(), v) for k, v in h]
        same(sorted(got), sorted(want.items()), 'contents')
        same(sorted(h.items(lower=True)), sorted(want.items()), 'items')
        same(sorted(h.keys(lower=True)), sorted(want), 'keys')
        same(sorted(h.values()), sorted(want.values()), 'values')
        same(sorted(h.to_wsgi_list()), sorted(h), 'to_wsgi_list')
        for name in ('Content-Type', 'content-length', 'X-FOO', 'x-foo',
                     'Accept', 'x-foo-bar', 'missing'):
            value = want.get(name.lower())
            same(name in h, value is not None, 'in')
            same(h.get(name), value, 'get')
            same(h.get(name, 'd'), 'd' if value is None else value, 'get')
            same(h.getlist(name), [] if value is None else [value],
                 'getlist')
            same(h.get_all(name), [] if value is None else [value],
                 'get_all')
            same(h.getlist(name, as_bytes=True), [] if value is None else [
                value.encode('latin1')], 'getlist bytes')
            same(h.getlist(name, type=int), [int(value)] if (
                value or '').isdigit() else [], 'getlist(type)')
            same(h.get(name, 'd', type=int), int(value) if (
                value or '').isdigit() else 'd', 'get(type)')
            same(h.get(name, as_bytes=True), None if value is None
                 else value.encode('latin1'), 'get bytes')
            if value is None:
                expect(caught(h.__getitem__, name)[0] == 'raised', 'missing')
            else:
                same(h[name], value, 'item')
        same(str(h), ''.join('%s: %s\r\n' % p for p in h) + '\r\n', 'str')
        same(sorted((k.lower(), v) for k, v in Headers(h)),
             sorted(want.items()), 'mutable copy')
        for other in (EnvironHeaders(env), Request(env).headers):
            expect(h == other and other == h and not h != other,
                   'headers of one environ are unequal')
        for other in (EnvironHeaders(dict(env, HTTP_X_MORE='1')), None, 5,
                      dict(want), Headers(list(h)), list(h)):
            expect(h != other and other != h and not h == other,
                   'equal to {!r}', other)
        before = dict(env)
        for function in (lambda: h.set('X-Foo', '1'), lambda: h.clear(),
                         lambda: h.add('a', 'b'), lambda: h.pop('x-foo'),
                         lambda: h.add('a'), lambda: h.add_header('a', 'b'),
                         lambda: h.add_header('a'), lambda: h.pop(),
                         lambda: h.pop(0), lambda: h.pop('x-foo', None),
                         lambda: h.popitem(), lambda: h.remove('x-foo'),
                         lambda: h.extend([('a', 'b')]),
                         lambda: h.extend({'a': 'b'}),
                         lambda: h.setdefault('x-foo', 'b'),
                         lambda: h.setdefault('new', 'b'),
                         lambda: h.__setitem__('x-foo', 'b'),
                         lambda: h.__setitem__(0, ('a', 'b')),
                         lambda: h.__delitem__('x-foo'),
                         lambda: h.__delitem__(0),
                         lambda: h.__setitem__('x-foo', 'b'),
                         lambda: h.insert(0, ('a', 'b')),
                         lambda: remove_entity_headers(h),
                         lambda: h.copy()):
            same(caught(function), ('raised', 'TypeError'), 'read only')
        same(env, before, 'environ')
        # it is a view
        env['HTTP_LATER'] = 'x'
        same(h.get('later'), 'x', 'view of the environ')
        del env['HTTP_LATER']
    cx.step()
    cx.state(case)
    cx.outcome(len(want))


ENV = [('CONTENT_TYPE', 'text/plain'), ('CONTENT_LENGTH', '5'),
       ('HTTP_X_FOO', ''), ('HTTP_X_FOO', 'caf\xe9'), ('HTTP_ACCEPT', '*/*'),
       ('HTTP_CONTENT_TYPE', 'bad'), ('HTTP_CONTENT_LENGTH', '9'),
       ('HTTP_X_FOO_BAR', 'x'), ('OTHER', 'y'), ('X_HTTP_Z', 'z'),
       ('CONTENT_MD5', 'no')]


def environs(most):
    def gen():
        for n in range(most + 1):
            for chosen in itertools.combinations(ENV, n):
                if len(set(k for k, v in chosen)) == n:
                    yield chosen
    return gen


# -- what a response sends ---------------------------------------------------

def run_sent(case, cx):
    initial, history = case
    response = Response('x', headers=list(initial), content_type='text/x')
    model = list(response.headers)
    for op in history:
        apply(response.headers, model, op)
        cx.step()
    result = call(response, environ())
    same([p for p in result.headers if p[0].lower() != 'content-length'],
         [p for p in model if p[0].lower() != 'content-length'],
         'headers sent')
    same(list(response.headers), model, 'headers after sending')
    cx.state(tuple(model))
    cx.outcome(len(model))


def sent(depth):
    def gen():
        for initial in ((), (('a', '1'), ('A', '2'))):
            for history in words(OPS, depth):
                yield initial, history
    return gen


check = Check('C14', [
    Space('histories', run_history, histories(3), histories(4), chunk=50,
          rule='every sequence of operations against a list of pairs'),
    Space('line breaks', run_breaks, breaks(4), breaks(6), chunk=20),
    Space('sizes', run_size, sizes(70), sizes(600), chunk=10),
    Space('equality', run_equal, equalities(3), equalities(4)),
    Space('entity headers', run_remove,
          lambda: words(SOME, 3), lambda: words(SOME, 4)),
    Space('names of entity headers', run_remove, every_name),
    Space('request headers', run_environ, environs(4), environs(11)),
    Space('sent headers', run_sent, sent(2), sent(3)),
], bounds='sequences of up to 4 operations out of %d on at most 4 initial '
    'headers' % len(OPS),
    assumptions=['header names are tokens', 'values are latin1'])
