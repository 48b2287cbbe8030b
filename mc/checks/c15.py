"""C15: structured views of response headers and the headers always agree."""
import itertools
import os
import time
from datetime import datetime, timedelta, timezone

from verktyg.http import HeaderSet, ContentRange, parse_set_header
from verktyg.responses import Response

from mc.core import Check, Space, caught, expect, fail, same, words

TOKEN = set("!#%&'*+-.^_`|~$0123456789abcdefghijklmnopqrstuvwxyz"
            "ABCDEFGHIJKLMNOPQRSTUVWXYZ")


# -- an independent parser for what is written --------------------------------

def split_quoted(value, separator):
    """Split outside of quoted strings."""
    parts, current, quoted, escaped = [], '', False, False
    for char in value:
        if quoted:
            current += char
            if escaped:
                escaped = False
            elif char == '\\':
                escaped = True
            elif char == '"':
                quoted = False
        elif char == separator:
            parts.append(current.strip())
            current = ''
        else:
            quoted = char == '"'
            current += char
    parts.append(current.strip())
    return [p for p in parts if p]


def unquote(value):
    if value[:1] != '"':
        expect(value and set(value) <= TOKEN, 'unquoted {!r}', value)
        return value
    expect(len(value) >= 2 and value[-1] == '"', 'unbalanced {!r}', value)
    result, escaped = '', False
    for char in value[1:-1]:
        if escaped:
            result += char
            escaped = False
        elif char == '\\':
            escaped = True
        else:
            expect(char != '"', 'bare quote in {!r}', value)
            result += char
    return result


def parse_list(value):
    return [unquote(p) for p in split_quoted(value, ',')]


def parse_pairs(value, separator):
    result = {}
    for part in split_quoted(value, separator):
        key, eq, rest = part.partition('=')
        result[key] = unquote(rest) if eq else None
    return result


# -- sets --------------------------------------------------------------------

class SetModel:
    def __init__(self, values=()):
        self.values = []
        for value in values:
            self.add(value)

    def find(self, value):
        for index, item in enumerate(self.values):
            if item.lower() == value.lower():
                return index
        return -1

    def add(self, value):
        if self.find(value) < 0:
            self.values.append(value)

    def remove(self, value):
        del self.values[self.find(value)]


SET_OPS = [
    ('add', 'Foo'), ('add', 'fOO'), ('add', 'bar'), ('add', 'a b'),
    ('add', 'q"\\x'), ('add', '*'), ('remove', 'foo'), ('remove', 'BAR'),
    ('discard', 'FOO'), ('discard', 'zzz'), ('update', ('bar', 'Foo', 'c')),
    ('update', ()), ('clear',), ('del', 0), ('del', -1), ('put', 0, 'new'),
    ('put', 0, 'bar'), ('put', -1, 'FOO'),
]


def set_op(op, hs, model):
    """Returns whether the set was changed"""
    before = list(model.values)
    name = op[0]
    if name == 'add':
        hs.add(op[1])
        model.add(op[1])
    elif name == 'remove':
        if model.find(op[1]) < 0:
            same(caught(hs.remove, op[1]), ('raised', 'KeyError'), 'remove')
        else:
            hs.remove(op[1])
            model.remove(op[1])
    elif name == 'discard':
        hs.discard(op[1])
        if model.find(op[1]) >= 0:
            model.remove(op[1])
    elif name == 'update':
        hs.update(op[1])
        for value in op[1]:
            model.add(value)
    elif name == 'clear':
        hs.clear()
        model.values = []
    elif name == 'del':
        if model.values:
            del hs[op[1]]
            del model.values[op[1]]
        else:
            same(caught(hs.__delitem__, op[1]), ('raised', 'IndexError'),
                 'del')
    elif name == 'put':
        if not model.values:
            same(caught(hs.__setitem__, op[1], op[2]),
                 ('raised', 'IndexError'), 'put')
        else:
            at = model.find(op[2])
            if at >= 0 and at != op[1] % len(model.values):
                return False        # would duplicate a member
            hs[op[1]] = op[2]
            model.values[op[1]] = op[2]
    return model.values != before


def look_at_set(hs, model):
    values = model.values
    same(list(hs), values, 'members')
    same(len(hs), len(values), 'len')
    same(bool(hs), bool(values), 'truth')
    same(hs.as_set(), {v.lower() for v in values}, 'as_set')
    same(hs.as_set(True), set(values), 'as_set(preserve_casing)')
    hs.as_set().add('leak')
    hs.as_set(True).add('leak')
    for value in ('foo', 'FOO', 'bar', 'c', 'new', 'leak', 'a b', '*', 'h0',
                  'H3', 'h4', 'h99'):
        at = model.find(value)
        same(value in hs, at >= 0, 'in %r' % value)
        same(hs.find(value), at, 'find')
        if at >= 0:
            same(hs.index(value), at, 'index')
            same(hs[at], values[at], 'item')
        else:
            same(caught(hs.index, value), ('raised', 'IndexError'), 'index')
    same(parse_list(hs.to_header()), values, 'header %r' % hs.to_header())
    same(str(hs), hs.to_header(), 'str')
    same(list(parse_set_header(hs.to_header())), values, 'reparsed')


def run_set(case, cx):
    initial, history = case
    seen = []
    hs = HeaderSet(list(initial), on_update=lambda s: seen.append(list(s)))
    model = SetModel(initial)
    look_at_set(hs, model)
    same(seen, [], 'notified by the constructor')
    for op in history:
        del seen[:]
        changed = set_op(op, hs, model)
        if changed:
            expect(seen, '{} was not notified', op)
            same(seen[-1], model.values, 'members when notified')
        elif op[0] not in ('clear', 'put'):
            same(seen, [], 'notified of nothing by %r' % (op,))
        look_at_set(hs, model)
        cx.step()
        cx.state(tuple(model.values))
    cx.outcome(len(model.values))


INITIAL_SETS = [(), ('Foo',), ('Foo', 'bar', 'x y'), ('a', 'A', 'b', 'a')]


LARGE_SETS = [tuple('h%d' % i if i % 2 else 'H%d' % i for i in range(n)) + (
    'Foo',) for n in (5, 8, 9, 16, 17, 33, 64, 65, 100, 129, 257)]


def sets(depth):
    def gen():
        for initial in LARGE_SETS:
            for history in words(SET_OPS, depth - 1):
                yield initial, history
        for initial in INITIAL_SETS:
            for history in words(SET_OPS, depth):
                yield initial, history
    return gen


OTHERS = [('X-Before', '1'), ('Content-Type', 'text/plain; charset=utf-8'),
          ('X-After', '2')]


def fresh(headers=()):
    response = Response('x', headers=[('X-Before', '1')])
    for name, value in headers:
        response.headers.add(name, value)
    return response


def header_state(response, name, what):
    values = response.headers.getlist(name)
    expect(len(values) <= 1, '{}: {} {} headers', what, len(values), name)
    same(response.headers.getlist('x-before'), ['1'], 'another header')
    for key, value in response.headers:
        expect(isinstance(value, str), 'header value {!r}', value)
    return values[0] if values else None


ASSIGN = [('=', 'list', ('Foo', 'x y', 'c')), ('=', 'str', 'foo, bar'),
          ('=', 'none', None), ('=', 'empty', ()), ('=', 'set', ('Q', 'r'))]


def run_response_set(case, cx):
    attr, name, held, initial, history = case
    response = fresh()
    model = SetModel(initial)
    if initial:
        setattr(response, attr, list(initial))
        # a plain list is written as given
        model.values = [v for v in initial]
    view = getattr(response, attr)
    for op in history:
        if op[0] == '=':
            value = {'list': lambda: list(op[2]), 'str': lambda: op[2],
                     'none': lambda: None, 'empty': lambda: list(op[2]),
                     'set': lambda: HeaderSet(op[2])}[op[1]]()
            setattr(response, attr, value)
            model = SetModel(
                op[2].split(', ') if op[1] == 'str' else op[2] or ())
            view = getattr(response, attr)
        else:
            if not held:
                view = getattr(response, attr)
            set_op(op, view, model)
            if held:
                look_at_set(view, model)
        header = header_state(response, name, op)
        if not model.values:
            same(header, None, 'header of an empty set after %r' % (op,))
        else:
            expect(header is not None, 'no header after {!r}', op)
            same(parse_list(header), model.values, 'header after %r' % (op,))
            if all(set(v) <= TOKEN for v in model.values):
                same(header, ', '.join(model.values), 'header')
        look_at_set(getattr(response, attr), model)
        cx.step()
        cx.state((attr, tuple(model.values)))
    cx.outcome((attr, len(model.values)))


def response_sets(depth):
    def gen():
        for attr, name in (('vary', 'Vary'), ('allow', 'Allow'),
                           ('content_language', 'Content-Language')):
            for held in (False, True):
                for initial in ((), ('Foo', 'bar')):
                    for history in words(SET_OPS + ASSIGN, depth):
                        yield attr, name, held, initial, history
    return gen


# -- cache control -----------------------------------------------------------

FLAGS = {'no_store': 'no-store', 'public': 'public',
         'must_revalidate': 'must-revalidate',
         'proxy_revalidate': 'proxy-revalidate'}
VALUED = {'no_cache': 'no-cache', 'private': 'private',
          'max_age': 'max-age', 's_maxage': 's-maxage'}
CACHE_OPS = []
for _attr in sorted(FLAGS):
    CACHE_OPS += [(_attr, True), (_attr, False)]
for _attr in ('no_cache', 'private'):
    CACHE_OPS += [(_attr, True), (_attr, None), (_attr, 'X-Field')]
CACHE_OPS += [('no_cache', 'a, b'), ('max_age', 0), ('max_age', 3600),
              ('max_age', None), ('s_maxage', 5), ('s_maxage', None),
              ('del', 'no_store'), ('del', 'max_age'), ('del', 'public'),
              ('item', 'ext', 'q"v'), ('pop', 'ext'), ('clear',)]


def cache_op(op, control, model):
    name = op[0]
    if name == 'del':
        delattr(control, op[1])
        model.pop(dict(FLAGS, **VALUED)[op[1]], None)
    elif name == 'item':
        control[op[1]] = op[2]
        model[op[1]] = op[2]
    elif name == 'pop':
        control.pop(op[1], None)
        model.pop(op[1], None)
    elif name == 'clear':
        control.clear()
        model.clear()
    elif name in FLAGS:
        setattr(control, name, op[1])
        if op[1]:
            model[FLAGS[name]] = None
        else:
            model.pop(FLAGS[name], None)
    else:
        setattr(control, name, op[1])
        if op[1] is None:
            model.pop(VALUED[name], None)
        elif op[1] is True:
            model[VALUED[name]] = None
        else:
            model[VALUED[name]] = str(op[1])


def look_at_cache(control, model):
    for attr, key in FLAGS.items():
        same(getattr(control, attr), key in model, attr)
    for attr in ('no_cache', 'private'):
        key = VALUED[attr]
        want = None if key not in model else (
            '*' if model[key] is None else model[key])
        same(getattr(control, attr), want, attr)
    want = model.get('max-age')
    same(control.max_age, None if want is None else int(want), 'max_age')
    want = model.get('s-maxage')
    got = control.s_maxage
    same(None if got is None else str(got), want, 's_maxage')
    same({k: None if v is None else str(v) for k, v in control.items()},
         model, 'directives')
    same(parse_pairs(control.to_header(), ','), model, 'to_header')


def run_cache(case, cx):
    held, initial, history = case
    response = fresh([('Cache-Control', initial)] if initial else ())
    model = parse_pairs(initial, ',')
    view = response.cache_control
    look_at_cache(view, model)
    for op in history:
        if not held:
            view = response.cache_control
        cache_op(op, view, model)
        header = header_state(response, 'cache-control', op)
        if not model:
            same(header, None, 'header without directives')
        else:
            expect(header is not None, 'no header after {!r}', op)
            same(parse_pairs(header, ','), model, 'header after %r' % (op,))
        if held:
            look_at_cache(view, model)
        look_at_cache(response.cache_control, model)
        cx.step()
        cx.state(sorted(model.items(), key=repr))
    cx.outcome(len(model))


def caches(depth):
    def gen():
        for held in (False, True):
            for initial in ('', 'no-store, max-age=7, private="a b"'):
                for history in words(CACHE_OPS, depth):
                    yield held, initial, history
    return gen


# -- authentication ----------------------------------------------------------

AUTH_OPS = [
    ('basic', 'r'), ('basic', 'a "q" \\ b'), ('basic', None),
    ('digest', 'r', 'n', None, None, False),
    ('digest', 'r s', 'n,=', 'op', 'Md5-sess', True),
    ('digest', '', '', '', 'x', False), ('realm', ''), ('opaque', ''),
    ('digest auth-int', 'r', 'n'),
    ('realm', 'new, realm'), ('realm', None), ('nonce', 'abc'),
    ('nonce', None), ('opaque', 'x'), ('algorithm', 'MD5-sess'),
    ('algorithm', None), ('stale', True), ('stale', False), ('stale', None),
    ('qop add', 'auth'), ('qop add', 'auth-int'), ('qop discard', 'AUTH'),
    ('qop clear',), ('domain add', '/x y'), ('domain add', '/z'),
    ('type', 'digest'), ('clear',), ('item', 'ext', 'v'),
]


def auth_op(op, auth, model):
    name = op[0]
    if name == 'basic':
        if op[1] is None:
            auth.set_basic()
        else:
            auth.set_basic(op[1])
        model.clear()
        model.update(type='basic',
                     realm=op[1] or 'authentication required')
    elif name == 'digest':
        auth.set_digest(op[1], op[2], opaque=op[3], algorithm=op[4],
                        stale=op[5])
        model.clear()
        model.update(type='digest', realm=op[1], nonce=op[2],
                     qop=['auth'])
        if op[3] is not None:
            model['opaque'] = op[3]
        if op[4]:
            model['algorithm'] = op[4]
        if op[5]:
            model['stale'] = True
    elif name == 'digest auth-int':
        auth.set_digest(op[1], op[2], qop=('auth', 'auth-int'))
        model.clear()
        model.update(type='digest', realm=op[1], nonce=op[2],
                     qop=['auth', 'auth-int'])
    elif name in ('qop add', 'domain add'):
        key = name.split()[0]
        getattr(auth, key).add(op[1])
        values = SetModel(model.get(key, ()))
        values.add(op[1])
        model[key] = values.values
    elif name == 'qop discard':
        auth.qop.discard(op[1])
        values = [v for v in model.get('qop', ())
                  if v.lower() != op[1].lower()]
        model['qop'] = values
        if not values:
            del model['qop']
    elif name == 'qop clear':
        auth.qop.clear()
        model.pop('qop', None)
    elif name == 'clear':
        auth.clear()
        model.clear()
    elif name == 'item':
        auth[op[1]] = op[2]
        model[op[1]] = op[2]
    else:
        setattr(auth, name, op[1])
        if op[1] is None:
            model.pop(name, None)
        else:
            model[name] = op[1]


def look_at_auth(auth, model):
    if len(set(model) - {'type'}) and 'type' not in model:
        # anything without a type is sent as basic
        expect(auth.type in (None, 'basic'), 'type')
    else:
        same(auth.type, model.get('type'), 'type')
    for attr in ('realm', 'nonce', 'opaque', 'algorithm', 'stale'):
        same(getattr(auth, attr), model.get(attr), attr)
    for attr in ('qop', 'domain'):
        same(list(getattr(auth, attr)), model.get(attr, []), attr)
    same(auth.get('ext'), model.get('ext'), 'ext')


def run_auth(case, cx):
    held, history = case
    response = fresh()
    model = {}
    view = response.www_authenticate
    look_at_auth(view, model)
    for op in history:
        if not held:
            view = response.www_authenticate
            if 'type' not in model and model:
                model['type'] = 'basic'
        auth_op(op, view, model)
        header = header_state(response, 'www-authenticate', op)
        if not model:
            same(header, None, 'header of nothing after %r' % (op,))
        else:
            expect(header is not None, 'no header after {!r}', op)
            kind, _, rest = header.partition(' ')
            same(kind.lower(), model.get('type', 'basic'), 'type sent')
            sent = parse_pairs(rest, ',')
            for key in ('qop', 'domain'):
                if key in sent:
                    sent[key] = parse_list(sent[key])
            if 'stale' in sent:
                sent['stale'] = {'TRUE': True, 'FALSE': False}[
                    sent['stale'].upper()]
            want = {k: v for k, v in model.items() if k != 'type'}
            same(sent, want, 'header %r' % header)
            # clients insist on quotes around these
            for part in split_quoted(rest, ','):
                key, _, value = part.partition('=')
                if key in ('realm', 'nonce', 'opaque', 'qop', 'domain'):
                    expect(value[:1] == '"', '{} not quoted', key)
        if held:
            look_at_auth(view, model)
        look_at_auth(response.www_authenticate, model)
        cx.step()
        cx.state(sorted(model.items(), key=repr))
    cx.outcome(len(model))


def auths(depth):
    def gen():
        for held in (False, True):
            for history in words(AUTH_OPS, depth):
                yield held, history
    return gen


# -- content range -----------------------------------------------------------

RANGE_OPS = [
    ('set', 0, 1, None), ('set', 0, 10, 10), ('set', 5, 8, 100),
    ('set', None, None, 7), ('set', 3, 3, None), ('set', 5, 2, 10),
    ('set', None, 4, None), ('set units', 1, 2, 3), ('unset',),
    ('start', 4), ('stop', 9), ('length', 50), ('length', None),
    ('assign', 'bytes 1-2/3'), ('assign object', 2, 5, 9),
    ('assign none',), ('assign false', ''), ('assign false', 'object'),
    ('read',),
]


def run_range(case, cx):
    held, initial, history = case
    response = fresh([('Content-Range', 'bytes 2-3/9')] if initial else ())
    model = ['bytes', 2, 4, 9] if initial else [None] * 4
    view = response.content_range
    for op in history:
        name = op[0]
        if not held:
            view = response.content_range
        if name in ('set', 'set units'):
            _, start, stop, length = op
            bad = (start is None) != (stop is None) or (
                start is not None and start >= stop)
            if name == 'set':
                got = caught(view.set, start, stop, length)
            else:
                got = caught(view.set, start, stop, length, units='rows')
            if bad:
                same(got, ('raised', 'ValueError'), 'bad range')
            else:
                same(got[0], 'ok', 'set')
                model = ['rows' if name == 'set units' else 'bytes',
                         start, stop, length]
        elif name == 'unset':
            view.unset()
            model = [None] * 4
        elif name in ('start', 'stop', 'length'):
            if model[0] is None or (name != 'length' and model[1] is None):
                continue
            if name == 'start' and not op[1] < min(
                    model[2], model[3] or 10 ** 9):
                continue
            if name == 'stop' and not op[1] > model[1]:
                continue
            setattr(view, name, op[1])
            model[('units', 'start', 'stop', 'length').index(name)] = op[1]
        elif name == 'assign':
            response.content_range = op[1]
            model = ['bytes', 1, 3, 3]
            view = response.content_range
        elif name == 'assign object':
            response.content_range = ContentRange('bytes', *op[1:])
            model = ['bytes'] + list(op[1:])
            view = response.content_range
        elif name in ('assign none', 'assign false'):
            response.content_range = (
                None if name == 'assign none' else op[1] and
                ContentRange(None, None, None))
            model = [None] * 4
            view = response.content_range
        elif name == 'read':
            before = list(response.headers)
            repr(response.content_range)
            same(list(response.headers), before, 'headers after reading')
        header = header_state(response, 'content-range', op)
        units, start, stop, length = model
        if units is None:
            same(header, None, 'header of no range')
        else:
            same(header, '%s %s/%s' % (
                units, '*' if start is None else '%d-%d' % (start, stop - 1),
                '*' if length is None else length), 'header')
        for rng in ([view] if held else []) + [response.content_range]:
            same([rng.units, rng.start, rng.stop, rng.length], model,
                 'range after %r' % (op,))
            same(bool(rng), units is not None, 'truth')
        cx.step()
        cx.state(tuple(model))
    cx.outcome(tuple(model))


def ranges(depth):
    def gen():
        for held in (False, True):
            for initial in (False, True):
                for history in words(RANGE_OPS, depth):
                    yield held, initial, history
    return gen


# -- content type ------------------------------------------------------------

TYPE_OPS = [
    ('mimetype', 'text/html'), ('mimetype', 'application/json'),
    ('mimetype', 'application/xhtml+xml'), ('mimetype', 'application/xml'),
    ('mimetype', 'image/png'),
    ('content_type', 'a/b; x=1; y="2 3"'), ('content_type', 'text/plain'),
    ('content_type', 'A/B ;x=1'),
    ('param', 'charset', 'latin1'), ('param', 'q', 'a"b;c'),
    ('param', 'x', '5'), ('pop', 'charset'), ('pop', 'zzz'), ('clear',),
    ('update', (('m', 'n'), ('o', 'p'))),
]


def textual(mimetype):
    return mimetype.startswith('text/') or mimetype == 'application/xml' or (
        mimetype.startswith('application/') and mimetype.endswith('+xml'))


class LatinResponse(Response):
    charset = 'latin1'


def run_type(case, cx):
    held, history = case
    cls = LatinResponse if held == 'latin' else Response
    response = cls('x', headers=[('X-Before', '1')])
    mimetype, params = 'text/plain', {'charset': cls.charset}
    kept = dict(params)
    view = response.mimetype_params
    for op in history:
        name = op[0]
        if not held:
            view = response.mimetype_params
        if held == 'stale' and name not in ('mimetype', 'content_type'):
            # an older view brings its parameters back, not its mimetype
            params = kept
        if name == 'mimetype':
            response.mimetype = op[1]
            mimetype = op[1]
            params = {'charset': cls.charset} if textual(op[1]) else {}
        elif name == 'content_type':
            response.content_type = op[1]
            same(response.headers['Content-Type'], op[1], 'content type')
            mimetype = op[1].split(';')[0].strip()
            params = parse_pairs(op[1].partition(';')[2], ';')
        elif name == 'param':
            view[op[1]] = op[2]
            params[op[1]] = op[2]
        elif name == 'pop':
            view.pop(op[1], None)
            params.pop(op[1], None)
        elif name == 'clear':
            view.clear()
            params.clear()
        elif name == 'update':
            view.update(dict(op[1]))
            params.update(dict(op[1]))
        if name in ('mimetype', 'content_type') and held != 'stale':
            view = response.mimetype_params
        if name in ('pop', 'clear') and held == 'stale':
            # maybe that did not change the view
            params = dict(response.mimetype_params)
        header = header_state(response, 'content-type', op)
        kind, _, rest = header.partition(';')
        same(kind.strip(), mimetype, 'mimetype in %r' % header)
        same(parse_pairs(rest, ';'), params, 'parameters in %r' % header)
        same(response.mimetype, mimetype, 'mimetype')
        same(dict(response.mimetype_params), params, 'mimetype_params')
        same(response.content_type, header, 'content_type')
        cx.step()
        cx.state((mimetype, sorted(params.items())))
    cx.outcome((mimetype, len(params)))


def types(depth):
    def gen():
        for held in (False, True, 'latin', 'stale'):
            for history in words(TYPE_OPS, depth):
                yield held, history
    return gen


# -- plain values ------------------------------------------------------------

DATE = datetime(2015, 3, 4, 5, 6, 7)
DATE_TEXT = 'Wed, 04 Mar 2015 05:06:07 GMT'
SCALARS = {}
for _attr, _header in (('location', 'Location'),
                       ('content_location', 'Content-Location'),
                       ('content_encoding', 'Content-Encoding'),
                       ('content_md5', 'Content-MD5'),
                       ('accept_ranges', 'Accept-Ranges')):
    SCALARS[_attr] = (_header, [('gzip', 'gzip', 'gzip'),
                                ('/x', '/x', '/x')])
SCALARS['content_length'] = ('Content-Length', [
    (0, '0', 0), (17, '17', 17)])
for _attr, _header in (('date', 'Date'), ('expires', 'Expires'),
                       ('age', 'Age'),
                       ('last_modified', 'Last-Modified')):
    SCALARS[_attr] = (_header, [
        ('DATE', DATE_TEXT, 'DATE'), ('UTC', DATE_TEXT, 'DATE'),
        (1425445567, DATE_TEXT, 'DATE'),
        (0, 'Thu, 01 Jan 1970 00:00:00 GMT', datetime(1970, 1, 1))])
SCALARS['retry_after'] = ('Retry-After', [
    ('DATE', DATE_TEXT, 'DATE'), (DATE_TEXT, DATE_TEXT, 'DATE')])


def run_scalar(case, cx):
    history = case
    response = fresh()
    model = {}
    for attr, index in history:
        header, values = SCALARS[attr]
        if index is None:
            if attr == 'retry_after':
                response.retry_after = None
            else:
                delattr(response, attr)
            model.pop(attr, None)
        else:
            value = values[index][0]
            if value == 'DATE':
                value = DATE
            elif value == 'UTC':
                value = DATE
            setattr(response, attr, value)
            model[attr] = values[index]
        for name, (key, _) in SCALARS.items():
            sent = header_state(response, key, (attr, index))
            if name not in model:
                if name != 'content_length':
                    same(sent, None, name + ' was not set')
                    same(getattr(response, name), None, name)
            else:
                _, text, want = model[name]
                same(sent, text, 'header of ' + name)
                same(getattr(response, name),
                     DATE if want == 'DATE' else want, name)
        cx.step()
        cx.state(sorted(model.items()))
    cx.outcome(len(model))


def scalars(depth):
    def gen():
        alphabet = [(attr, index) for attr in sorted(SCALARS)
                    for index in [None] + list(range(len(SCALARS[attr][1])))]
        return words(alphabet, depth)
    return gen


def run_retry(value, cx):
    """Retry-After may be a number of seconds or a date."""
    old = os.environ.get('TZ')
    try:
        for zone in ('UTC0', 'EST5', 'XXX-5:30'):
            # where the server is does not matter
            os.environ['TZ'] = zone
            time.tzset()
            retry(value, cx)
    finally:
        if old is None:
            del os.environ['TZ']
        else:
            os.environ['TZ'] = old
        time.tzset()


def retry(value, cx):
    response = fresh()
    response.retry_after = value
    same(response.headers['Retry-After'], str(value), 'header')
    before = datetime.utcnow() - timedelta(seconds=5)
    got = response.retry_after
    after = datetime.utcnow() + timedelta(seconds=5)
    expect(before + timedelta(seconds=int(value)) <= got
           <= after + timedelta(seconds=int(value)), 'retry_after {!r}', got)
    cx.step()
    cx.state(value)
    cx.outcome(type(value).__name__)


# -- bad values are not passed on --------------------------------------------

def run_bad(case, cx):
    attr, header, value = case
    response = fresh()
    response.headers[header] = value
    same(getattr(response, attr), None, '%s of %r' % (attr, value))
    same(response.headers[header], value, 'header')
    cx.step()
    cx.state(case)
    cx.outcome(attr)


def bad_values():
    for attr, header in (('date', 'Date'), ('expires', 'Expires'),
                         ('last_modified', 'Last-Modified'),
                         ('content_length', 'Content-Length'),
                         ('retry_after', 'Retry-After')):
        for value in ('garbage', '', 'x1', 'Wed, 99 Foo 2015'):
            yield attr, header, value
    for value in ('1.5', '1e3', 'inf', 'nan', '0x10', '1,2', '1;2', '1 2'):
        yield 'content_length', 'Content-Length', value
    for value in ('1.5', '1e3', 'inf', '-1.5', '1;2'):
        yield 'retry_after', 'Retry-After', value


check = Check('C15', [
    Space('header sets', run_set, sets(3), sets(4)),
    Space('set headers', run_response_set, response_sets(3),
          response_sets(4)),
    Space('cache control', run_cache, caches(3), caches(4)),
    Space('authenticate', run_auth, auths(3), auths(4)),
    Space('content range', run_range, ranges(3), ranges(4)),
    Space('content type', run_type, types(3), types(4)),
    Space('plain values', run_scalar, scalars(3)),
    Space('retry after', run_retry,
          lambda: iter([0, 1, 59, 3600, '0', '7', 10 ** 6])),
    Space('bad values', run_bad, bad_values),
], bounds='sequences of up to 4 operations through held or fresh views',
    assumptions=['one view of a header is used at a time'])
