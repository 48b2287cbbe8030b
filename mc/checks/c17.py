"""C17: cookies come back as they were set."""
import calendar
import itertools
import time
from datetime import datetime, timedelta

from verktyg.application import ApplicationBuilder
from verktyg.datastructures import (
    ImmutableTypeConversionDict, MultiDict, TypeConversionDict,
)
from verktyg.http import cookie_date, dump_cookie, parse_cookie, parse_date
from verktyg.requests import Request
from verktyg.responses import Response

from mc.core import Check, Space, caught, expect, same, strings, words
from mc.wsgi_client import call, environ


def split_cookie(header):
    """What a browser makes of a Set-Cookie header"""
    parts = header.split(';')
    name, _, value = parts[0].partition('=')
    attrs = {}
    for part in parts[1:]:
        key, _, arg = part.strip().partition('=')
        expect(key.lower() not in attrs, 'repeated attribute {!r}', key)
        attrs[key.lower()] = arg
    return name.strip(), value.strip(), attrs


def safe(header):
    for char in header:
        expect(' ' <= char <= '~', 'unsafe character {!r} in {!r}', char,
               header)


# -- values ------------------------------------------------------------------

def run_value(case, cx):
    key, value = case
    header = dump_cookie(key, value)
    safe(header)
    name, raw, attrs = split_cookie(header)
    same(name, key, 'name')
    same(attrs, {'path': '/'}, 'attributes')
    expect(',' not in raw and ';' not in raw, 'separator in {!r}', raw)
    for sent in ('%s=%s' % (name, raw), 'x=1; %s=%s' % (name, raw),
                 '%s=%s; z=2' % (name, raw), '%s=%s;z=2;' % (name, raw)):
        got = parse_cookie(sent)
        same(got.get(key), value, 'value of %r' % sent)
        want = {key: value}
        if 'x=1' in sent:
            want['x'] = '1'
        if 'z=2' in sent:
            want['z'] = '2'
        same(dict(got), want, 'cookies of %r' % sent)
    same(Request(environ(headers=[('Cookie', sent)])).cookies[key], value,
         'cookie of a request')
    same(parse_cookie({'HTTP_COOKIE': sent})[key], value, 'environ')
    same(parse_cookie(sent.encode('latin1'))[key], value, 'bytes')
    # the whole header is understood as well
    same(dict(parse_cookie(dump_cookie(
        key, value, path='/p', secure=True, httponly=True, max_age=3))),
        {key: value}, 'attributes of the header are not cookies')
    response = Response()
    response.set_cookie(key, value)
    sent = response.headers.getlist('set-cookie')
    same(len(sent), 1, 'number of headers')
    same(split_cookie(sent[0])[:2], (name, raw), 'cookie of a response')
    for char in value:
        cx.state(ord(char))
    cx.step()
    cx.outcome(raw[:1] == '"')


def values(alphabet, width, points):
    def gen():
        for value in strings(alphabet, width):
            yield 'key', value
        for value in strings('\\"0574;', width):
            yield 'k', value
        for point in points:
            if not 0xd800 <= point < 0xe000:
                yield 'a-b', chr(point)
                yield 'a-b', 'x' + chr(point) + 'y'
        for key in ('a', 'A1', 'x.y', 'x_y', 'path2', '!', 'domainx',
                    'sess-id', '$k'):
            for value in ('', 'v', 'a b', 'secure'):
                yield key, value
    return gen


def run_charset(case, cx):
    value, charset = case
    try:
        value.encode(charset)
    except UnicodeError:
        return
    header = dump_cookie('k', value, charset=charset)
    # what cannot be decoded is treated as asked for
    raw = ('k=' + value).replace(';', '').encode(charset)
    for errors in ('replace', 'ignore', 'strict'):
        kind, got = caught(parse_cookie, raw, 'utf-8', errors)
        try:
            want = raw[2:].decode('utf-8', errors)
        except UnicodeError:
            same(kind, 'raised', 'strict decoding')
            same(caught(parse_cookie, raw[2:] + b'k=v', 'utf-8', errors)[0],
                 'raised', 'strict decoding of a name')
        else:
            same((kind, got.get('k', '')), ('ok', want), errors)
            if want and '=' not in want and ',' not in want:
                same(parse_cookie(raw[2:] + b'k=v', 'utf-8', errors),
                     {want + 'k': 'v'}, 'name of a cookie')
            if errors == 'replace':
                same(parse_cookie(raw)['k'], want, 'bad text')
    safe(header)
    name, raw, _ = split_cookie(header)
    same(parse_cookie('%s=%s' % (name, raw), charset=charset)['k'], value,
         'charset %s' % charset)
    other = type('Other', (Response,), {'charset': charset})()
    other.set_cookie('k', value)
    same(other.headers.getlist('Set-Cookie'), [header],
         'cookie of a response in %s' % charset)
    cx.step()
    cx.state(case)
    cx.outcome(charset)


def charsets():
    for charset in ('utf-8', 'latin1', 'koi8-r', 'shift_jis'):
        for value in strings('a\xe9\u044f\u3042;', 3):
            yield value, charset


# -- sizes and repetition ----------------------------------------------------

SIZES = sorted(set(range(1, 30)) | {
    n + d for n in (50, 64, 100, 128, 256, 512, 1000, 1024, 2048, 4096, 8192)
    for d in (-1, 0, 1)})


def run_size(case, cx):
    """Many cookies and long ones"""
    what, n = case
    if what == 'long':
        for value in ('a' * n, 'a;' * n, '"' * n, '\xe9' * n, ' ' * n,
                      '\\' * n):
            name, raw, _ = split_cookie(dump_cookie('k' * (n % 99 + 1), value))
            same(dict(parse_cookie('x=1; %s=%s; y=2' % (name, raw))),
                 {'x': '1', 'k' * (n % 99 + 1): value, 'y': '2'},
                 'long value')
    else:
        for sep in ('; ', ';'):
            pairs = [('k%d' % i, 'v;%d' % i if i % 2 else str(i))
                     for i in range(n)]
            header = sep.join('%s=%s' % split_cookie(dump_cookie(k, v))[:2]
                              for k, v in pairs)
            same(list(parse_cookie(header).items()), pairs, 'many cookies')
            same(list(Request(environ(headers=[
                ('Cookie', header)])).cookies.items()), pairs, 'many cookies')
            header = sep.join('k=%d' % i for i in range(n))
            same(parse_cookie(header, cls=MultiDict).getlist('k'),
                 [str(i) for i in range(n)], 'many of the same name')
    cx.step()
    cx.state(case)
    cx.outcome(what)


def run_again(case, cx):
    """What was parsed before, and what became of it, is of no importance"""
    for text, how in case:
        pairs = [p.split('=') for p in text.split('; ')]
        if how == 'koi8-r':
            want = {k: v.encode('latin1').decode('koi8-r') for k, v in pairs}
            got = parse_cookie(text, charset='koi8-r')
        elif how == 'multi':
            got = parse_cookie(text, cls=MultiDict)
            want = MultiDict(pairs)
        elif how == 'ignore':
            want = {k: v.encode('latin1').decode('utf-8', 'ignore')
                    for k, v in pairs}
            got = parse_cookie(text, errors='ignore')
        elif how == 'request':
            got = Request(environ(headers=[('Cookie', text)])).cookies
            want = {k: v.encode('latin1').decode('utf-8', 'replace')
                    for k, v in pairs}
        else:
            want = {k: v.encode('latin1').decode('utf-8', 'replace')
                    for k, v in pairs}
            got = parse_cookie(text)
        if how == 'multi':
            same(list(got.items(multi=True)), list(want.items(multi=True)),
                 'cookies')
        else:
            same(dict(got), want, 'cookies of %r (%s)' % (text, how))
        if how != 'request':
            got['a'] = 'changed'
            got['more'] = 'x'
        cx.step()
    cx.state(case)
    cx.outcome(len(case))


def agains(length):
    texts = ['a=1', 'A=1', 'a=2', 'a=1; b=2', 'b=2; a=1', 'a=\xe9']
    steps = [(t, h) for t in texts for h in ('plain', 'koi8-r', 'ignore',
                                             'multi', 'request')
             if h != 'multi' or '\xe9' not in t]

    def gen():
        return words(steps, length, 1)
    return gen


# -- attributes --------------------------------------------------------------

MAX_AGE = [None, 0, 1, -1, 31536000 * 20 + 1, ('delta', 90061), ('delta', 59),
           ('delta', -90061)]
EXPIRES = [None, 0, 86400 * 365, ('date', 2015, 3, 4, 5, 6, 7),
           'Thu, 01-Jan-1970 00:00:00 GMT']
PATHS = [None, '/', '/a b', '/\xe9', '/x/y', '']
DOMAINS = [None, 'example.com', '.example.com', 'example.com:8080',
           'b\xfccher.de']
MONTHS = ('Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep',
          'Oct', 'Nov', 'Dec')


def read_date(value):
    day, rest = value.split(', ')
    date, clock, zone = rest.split(' ')
    same(zone, 'GMT', 'zone')
    d, m, y = date.split('-')
    seconds = calendar.timegm((
        int(y), MONTHS.index(m) + 1, int(d)) + tuple(
            int(x) for x in clock.split(':')))
    same(day, ('Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun')[
        time.gmtime(seconds).tm_wday], 'day of the week')
    return seconds


def run_attributes(case, cx):
    max_age, expires, path, domain, secure, httponly, sync, how = case
    kwargs = {'max_age': max_age, 'expires': expires, 'path': path,
              'domain': domain, 'secure': secure, 'httponly': httponly}
    want = {}
    seconds = max_age
    if isinstance(max_age, tuple):
        kwargs['max_age'] = timedelta(seconds=max_age[1])
        seconds = max_age[1]
    if isinstance(expires, tuple):
        kwargs['expires'] = datetime(*expires[1:])
    before = int(time.time()) - 5
    if how == 'dump':
        header = dump_cookie('k', 'v', sync_expires=sync, **kwargs)
    else:
        response = Response()
        response.set_cookie('k', 'v', **kwargs)
        header, = response.headers.getlist('Set-Cookie')
    after = int(time.time()) + 5
    safe(header)
    name, value, attrs = split_cookie(header)
    same((name, value), ('k', 'v'), 'cookie')
    if domain is not None:
        want['domain'] = {'b\xfccher.de': 'xn--bcher-kva.de'}.get(
            domain, domain.partition(':')[0])
    if path is not None:
        want['path'] = {'/a b': '/a%20b', '/\xe9': '/%C3%A9'}.get(path, path)
    if secure:
        want['secure'] = ''
    if httponly:
        want['httponly'] = ''
    if seconds is not None:
        want['max-age'] = str(seconds)
    got = attrs.pop('expires', None)
    same(attrs, want, 'attributes')
    if expires is not None:
        moment = {str: lambda: 0, int: lambda: expires,
                  tuple: lambda: calendar.timegm(expires[1:])}[
                      type(expires)]()
        same(read_date(got), moment, 'expires')
    elif seconds is not None and sync:
        expect(before + seconds <= read_date(got) <= after + seconds,
               'expires {!r} does not follow max_age', got)
    else:
        same(got, None, 'expires')
    cx.step()
    cx.state(case)
    cx.outcome(tuple(sorted(want)))


def attributes():
    for how in ('dump', 'response'):
        for case in itertools.product(
                MAX_AGE, EXPIRES, PATHS, DOMAINS, (False, True, 1, 0),
                (False, True, 1, None), (True, False) if how == 'dump' else (True,)):
            yield case + (how,)


def run_delete(case, cx):
    path, domain = case
    response = Response()
    response.set_cookie('k', 'v', path=path, domain=domain)
    response.delete_cookie('k', path=path, domain=domain)
    added, removed = map(split_cookie, response.headers.getlist('Set-Cookie'))
    # a browser identifies a cookie by its name, path and domain
    same(removed[0], 'k', 'name')
    for key in ('path', 'domain'):
        same(removed[2].get(key), added[2].get(key), key)
    same(removed[2]['max-age'], '0', 'age')
    same(read_date(removed[2]['expires']), 0, 'expires')
    cx.step()
    cx.state(case)
    cx.outcome(sorted(removed[2]))


def run_domain(case, cx):
    """A domain has to have a dot"""
    domain = case
    bare = domain.split(':')[0]
    kind, _ = caught(dump_cookie, 'k', 'v', domain=domain)
    same(kind, 'ok' if '.' in bare else 'raised', 'domain %r' % domain)
    cx.step()
    cx.state(case)
    cx.outcome(kind)


# -- headers from clients ----------------------------------------------------

def run_client(case, cx):
    pairs, separator, tail = case
    header = separator.join(
        k if v is None else '%s=%s' % (k, v) for k, v in pairs) + tail
    want = {}
    every = []
    for k, v in pairs:
        if v is None or k.lower() in ('path', 'expires', 'secure',
                                      'httponly', 'max-age', 'version',
                                      'comment'):
            continue
        value = v
        if len(v) >= 2 and v[0] == v[-1] == '"':
            value = {'"q"': 'q', '"x;y"': 'x;y', '"\\054"': ',',
                     '"a\\"b"': 'a"b'}[v]
        want[k] = value
        every.append((k, value))
    if len({k for k, v in every}) == len(every):
        same(dict(parse_cookie(header)), want, 'cookies of %r' % header)
        req = Request(environ(headers=[('Cookie', header)]))
        same(dict(req.cookies), want, 'cookies of a request')
        same(type(req.cookies), ImmutableTypeConversionDict, 'class')
        same(type(parse_cookie(header)), TypeConversionDict, 'class')
        # blanks around the sign are not part of either
        spaced = separator.join(
            k if v is None else '%s = %s' % (k, v) for k, v in pairs) + tail
        same(dict(parse_cookie(spaced)), want, 'cookies of %r' % spaced)
    got = parse_cookie(header, cls=MultiDict)
    same(sorted(got.items(multi=True)), sorted(every), 'every cookie')
    for k in {k for k, v in every}:
        same(got.getlist(k), [v for j, v in every if j == k], 'order')
    cx.step()
    cx.state(case)
    cx.outcome(len(every))


CLIENT = [('a', '1'), ('b', ''), ('a', '"q"'), ('c', 'x=y'), ('flag', None),
          ('d', 'p q'), ('e', '"x;y"'), ('f', '"\\054"'), ('Path', '/'),
          ('g', '"a\\"b"'), ('A', '2'), ('secure', None), ('domain', 'x'),
          ('samesite', '"q"')]


def clients(length):
    def gen():
        for pairs in words(CLIENT, length):
            for separator in ('; ', ';', ' ; '):
                for tail in ('', ';', '; '):
                    if not pairs and tail:
                        continue
                    yield pairs, separator, tail
    return gen


# -- a browser ---------------------------------------------------------------

VALUES = ['1', 'a;b="c"', '\u2603 \\', '']
BROWSER = [('set', key, i) for key in ('a', 'b.c', 'X-1')
           for i in range(len(VALUES))] + [
    ('delete', 'a'), ('delete', 'b.c'), ('both',), ('look',)]


def run_browser(history, cx):
    todo = []
    seen = []
    builder = ApplicationBuilder()

    @builder.expose('index', route='/')
    def index(app, req):
        seen.append(dict(req.cookies))
        response = Response('x')
        for op in todo:
            if op[0] == 'set':
                response.set_cookie(op[1], VALUES[op[2]])
            elif op[0] == 'delete':
                response.delete_cookie(op[1])
            elif op[0] == 'both':
                response.set_cookie('a', 'both')
                response.set_cookie('X-1', 'more', httponly=True)
        return response

    app = builder('http://example.com')
    jar = {}
    model = {}
    for op in history:
        todo[:] = [op]
        headers = [('Cookie', '; '.join(
            '%s=%s' % item for item in jar.items()))] if jar else []
        result = call(app, environ('/', headers=headers))
        same(seen[-1], model, 'cookies seen by the application')
        for header in result.getlist('Set-Cookie'):
            safe(header)
            name, value, attrs = split_cookie(header)
            if attrs.get('max-age') == '0':
                expect(read_date(attrs['expires']) <= time.time() + 5, 'expires')
                jar.pop(name, None)
            else:
                jar[name] = value
        if op[0] == 'set':
            model[op[1]] = VALUES[op[2]]
        elif op[0] == 'delete':
            model.pop(op[1], None)
        elif op[0] == 'both':
            model.update({'a': 'both', 'X-1': 'more'})
        cx.step()
        cx.state(sorted(model.items()))
    headers = [('Cookie', '; '.join(
        '%s=%s' % item for item in jar.items()))] if jar else []
    todo[:] = []
    call(app, environ('/', headers=headers))
    same(seen[-1], model, 'cookies seen by the application')
    cx.outcome(len(model))


check = Check('C17', [
    Space('values', run_value, values('a;,"\\ =\xe9', 4, range(0x300)),
          values('a;,"\\ =\xe9\n', 5, range(0x11000))),
    Space('charsets', run_charset, charsets),
    Space('sizes', run_size, lambda: itertools.product(
        ('long', 'many'), SIZES), chunk=4),
    Space('again', run_again, agains(2), agains(3)),
    Space('attributes', run_attributes, attributes),
    Space('deletion', run_delete, lambda: itertools.product(PATHS, DOMAINS)),
    Space('domains', run_domain, lambda: strings('ab.:1', 4, 1)),
    Space('client headers', run_client, clients(3), clients(4)),
    Space('browser', run_browser, lambda: words(BROWSER, 3),
          lambda: words(BROWSER, 4)),
], bounds='values of up to 5 characters over every special character, every '
    'code point up to 0x11000, histories of 4 requests',
    assumptions=['names are tokens other than cookie attributes'])
