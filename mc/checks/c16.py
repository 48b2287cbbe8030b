"""C16: structured headers survive a round trip; parsers accept anything."""
import base64
import itertools

from verktyg.http import (
    Authorization, WWWAuthenticate, dump_header, dump_options_header,
    parse_authorization_header, parse_cache_control_header,
    parse_content_range_header, parse_cookie, parse_dict_header, parse_etags,
    parse_if_range_header, parse_list_header, parse_options_header,
    parse_range_header, parse_set_header, parse_www_authenticate_header,
    parse_date, quote_header_value, unquote_header_value,
    ResponseCacheControl,
)
from verktyg.requests import Request

from mc.checks.c15 import TOKEN, parse_list, parse_pairs, unquote
from mc.core import Check, Space, expect, same, strings, words
from mc.wsgi_client import environ

ALPHABET = 'a,"\\ =;'


def quoted(value):
    return '"%s"' % value.replace('\\', '\\\\').replace('"', '\\"')


def token(value):
    return bool(value) and set(value) <= TOKEN


# -- single values -----------------------------------------------------------

def run_quote(value, cx):
    got = quote_header_value(value)
    same(unquote(got), value, 'quote_header_value as read by a client')
    same(unquote_header_value(got), value, 'unquote_header_value')
    same(got[:1] != '"', token(value), 'quotes')
    same(quote_header_value(value, allow_token=False), quoted(value),
         'quotes when tokens are disallowed')
    same(quote_header_value(value.encode('latin1')), got, 'quoted bytes')
    extra = set(value) - set('a"\\')
    same(quote_header_value(value, extra_chars=''.join(extra)),
         value if value and set(value) <= TOKEN | extra else got,
         'extra characters')
    same(unquote_header_value(quoted(value)), value, 'unquote')
    if value[:1] != '\\':
        same(unquote_header_value(quoted(value), is_filename=True), value,
             'unquote a file name')
    if '"' not in value:
        same(unquote_header_value(value), value, 'unquoted value')
    cx.step()
    cx.state(value)
    cx.outcome(token(value))


# -- lists -------------------------------------------------------------------

def run_list(values, cx):
    values = list(values)
    for source in (values, tuple(values), iter(values)):
        header = dump_header(source)
        same(parse_list(header), values, 'list as read by a client')
    same(parse_list_header(header), values, 'list')
    header = dump_header(values, allow_token=False)
    same(parse_list_header(header), values, 'list without tokens')
    same(header, ', '.join(map(quoted, values)), 'header')
    for separator in (',', ' , ', ',  '):
        header = separator.join(v if token(v) else quoted(v) for v in values)
        same(parse_list_header(header), values, 'list from a client')
        header = separator.join(map(quoted, values))
        same(parse_list_header(header), values, 'quoted list from a client')
    if len({v.lower() for v in values}) == len(values):
        hs = parse_set_header(header)
        same(list(hs), values, 'set')
        same(parse_list(hs.to_header()), values, 'set as read by a client')
    cx.step()
    cx.state(values)
    cx.outcome(len(values))


def lists(*shapes):
    def gen():
        for length, width in shapes:
            alphabet = list(strings(ALPHABET, width))
            yield from words(alphabet, length, length)
    return gen


# -- dictionaries ------------------------------------------------------------

KEYS = ('foo', 'b-r', 'C')


def run_dict(values, cx):
    want = dict(zip(KEYS, values))
    header = dump_header(want)
    same(parse_pairs(header, ','), want, 'dict as read by a client')
    same(parse_dict_header(header), want, 'dict')
    same(type(parse_dict_header(header)), dict, 'class')
    same(parse_dict_header(header.encode('latin1')), want, 'bytes')
    header = dump_header(want, allow_token=False)
    same(parse_dict_header(header), want, 'dict without tokens')
    for separator in (',', ' , ', ',   '):
        header = separator.join(
            k if v is None else '%s=%s' % (k, quoted(v))
            for k, v in want.items())
        same(parse_dict_header(header), want, 'dict from a client')
    same(parse_dict_header(header, cls=_Dict), want, 'dict')
    expect(isinstance(parse_dict_header(header, cls=_Dict), _Dict), 'class')
    cc = parse_cache_control_header(header)
    if header:
        same(dict(cc), want, 'cache control')
    cx.step()
    cx.state(values)
    cx.outcome(tuple(v is None for v in values))


class _Dict(dict):
    pass


# -- sizes -------------------------------------------------------------------

SIZES = sorted(set(range(0, 40)) | {
    n + d for n in (48, 64, 96, 100, 128, 200, 256, 500, 512, 1000, 1024,
                    2048, 4096, 8192) for d in (-1, 0, 1)})
MORE_SIZES = sorted(set(SIZES) | set(range(40, 1100)) | {
    n + d for n in (10000, 16384, 32768, 65536, 100000) for d in (-1, 0, 1)})


def run_size(case, cx):
    """Long values and many of them are no different"""
    what, n = case
    if what == 'long':
        for value in ('a' * n, ('a b' * n)[:n], ('"' * n), ('\\a"' * n)[:n],
                      'a' * n + ',', '=' + 'a' * n):
            same(unquote(quote_header_value(value)), value, 'long value')
            same(parse_list_header(dump_header([value, 'x'])), [value, 'x'],
                 'list with a long value')
            pairs = {'a': value, 'b': 'x', 'c': None}
            same(parse_dict_header(dump_header(pairs)), pairs,
                 'dict with a long value')
            same(parse_options_header(dump_options_header('t/p', pairs)),
                 ('t/p', pairs), 'options with a long value')
            auth = WWWAuthenticate()
            auth.set_digest(value, value, opaque=value)
            again = parse_www_authenticate_header(auth.to_header())
            same((again.realm, again.nonce, again.opaque), (value,) * 3,
                 'challenge with long values')
        for user, password in (('u' * n, 'p'), ('u', 'p' * n),
                               ('u', ':' * n)):
            header = 'Basic ' + base64.b64encode(
                ('%s:%s' % (user, password)).encode()).decode()
            auth = parse_authorization_header(header)
            same((auth.username, auth.password), (user, password), 'basic')
    else:
        items = ['v%d' % i if i % 3 else 'v %d' % i for i in range(n)]
        same(parse_list_header(dump_header(items)), items, 'long list')
        same(parse_list_header(dump_header(items * 2)), items * 2,
             'long list with repetitions')
        hs = parse_set_header(dump_header(items + [
            i.upper() for i in items]))
        same(list(hs), items, 'long set')
        same(list(parse_set_header(hs.to_header())), items, 'long set')
        for i, item in enumerate(items):
            if i < 20 or n - i < 5:
                expect(item.upper() in hs, '{!r} is missing', item)
                same(hs.index(item.upper()), i, 'index')
        pairs = {'k%d' % i: None if i % 4 == 1 else item
                 for i, item in enumerate(items)}
        same(parse_dict_header(dump_header(pairs)), pairs, 'long dict')
        same(parse_options_header(dump_options_header('t/p', pairs)),
             ('t/p', pairs), 'long options')
        header = 'Digest ' + dump_header(dict(
            dict.fromkeys(REQUIRED, 'x'), **{
                k: v or '' for k, v in pairs.items()}))
        same({k: v for k, v in parse_authorization_header(header).items()
              if k in pairs}, {k: v or '' for k, v in pairs.items()},
             'long digest')
    cx.step()
    cx.state(case)
    cx.outcome(what)


# -- results belong to the caller --------------------------------------------

AGAIN = ['a', 'A', 'a, b', 'A, b', 'a,b', '"a", b', 'a=1', 'a=2', 'A=1',
         'a="1"', 'a=1, b', 'a=1; b', 'text/a; a=1', 'text/A; a=1',
         'text/a; a=2', 'text/a;a=1', 'basic realm=a', 'basic realm=A',
         'Basic realm="a"', 'digest realm=a', 'w/"a"', '"a"', '"A"', 'W/"a"',
         'bytes=0-1', 'bytes=0-2', 'bytes=0-', 'bytes 0-1/2', 'bytes 0-1/3',
         'bytes 0-1/*', 'a=b; c=d', 'no-cache', 'max-age=1', 'max-age=10']


def look(value):
    """Everything a result shows, without keeping hold of it"""
    if isinstance(value, tuple):
        return tuple(map(look, value))
    if isinstance(value, (list, set, frozenset)):
        return type(value).__name__, sorted(map(repr, value)) if isinstance(
            value, (set, frozenset)) else list(value)
    if isinstance(value, dict):
        return (type(value).__name__, sorted(map(repr, value.items())),
                getattr(value, 'type', None))
    out = [type(value).__name__]
    if not hasattr(value, 'date'):
        out.append(str(value))
    for attr in ('ranges', 'units', 'start', 'stop', 'length', 'etag', 'date'):
        out.append(repr(getattr(value, attr, None)))
    for attr in ('_strong', 'as_set'):
        if callable(getattr(value, attr, None)):
            out.append(sorted(getattr(value, attr)()))
    return tuple(out)


def damage(value):
    """What a caller may do to a result of his own"""
    if isinstance(value, tuple):
        for part in value:
            damage(part)
    for change in (
        lambda: value.append('zz'), lambda: value.add('zz'),
        lambda: value.__setitem__('zz', 'zz'), lambda: value.ranges.append(1),
        lambda: setattr(value, 'units', 'zz'), lambda: value.set(5, 9, 12),
        lambda: setattr(value, 'ranges', []),
        lambda: setattr(value, 'etag', 'zz'),
        lambda: setattr(value, 'realm', 'zz'),
        lambda: value.as_set().clear(), lambda: value.as_set().add('zz'),
    ):
        try:
            change()
        except (AttributeError, TypeError, ValueError):
            pass


PARSERS = {f.__name__: f for f in (
    parse_list_header, parse_dict_header, parse_options_header,
    parse_set_header, parse_cache_control_header,
    parse_www_authenticate_header, parse_authorization_header,
    parse_range_header, parse_content_range_header, parse_if_range_header,
    parse_etags, parse_cookie)}
PARSERS['mutable cache control'] = lambda value: parse_cache_control_header(
    value, cls=ResponseCacheControl)
PARSERS['dict of a class'] = lambda value: parse_dict_header(value, _Dict)


def run_again(case, cx):
    """What one caller does to a result is nothing to the next one, and what
    was parsed before has no bearing on what is parsed now"""
    name, headers = case
    parser = PARSERS[name]
    seen = {}
    for header in headers:
        result = parser(header)
        got = look(result)
        same(got, seen.setdefault(header, got), 'parsed again')
        damage(result)
        same(look(parser(header)), got, 'after a change to an earlier result')
        cx.step(2)
    for header, got in seen.items():
        same(look(parser(header)), got, 'parsed at the end')
        # a header of its own that was never parsed before
        other = header + ' '
        if name not in ('parse_list_header', 'parse_range_header'):
            parser(other)
            same(look(parser(header)), got, 'parsed at the end')
    cx.state(case)
    cx.outcome(name)


def again(length):
    def gen():
        for name in PARSERS:
            for headers in words(AGAIN, length, length):
                yield name, headers
    return gen


# what each of the headers above means, whatever was parsed before
MEANS = {
    'parse_list_header': [
        ('a', ['a']), ('A', ['A']), ('a, b', ['a', 'b']),
        ('A, b', ['A', 'b']), ('"a", b', ['a', 'b']), ('a=1', ['a=1']),
        ('"a b"', ['a b']), ('a b', ['a b'])],
    'parse_dict_header': [
        ('a', {'a': None}), ('A', {'A': None}), ('a=1', {'a': '1'}),
        ('A=1', {'A': '1'}), ('a=2', {'a': '2'}), ('a="1 "', {'a': '1 '}),
        ('a=1, b', {'a': '1', 'b': None})],
    'parse_options_header': [
        ('text/a; a=1', ('text/a', {'a': '1'})),
        ('text/A; a=1', ('text/A', {'a': '1'})),
        ('text/a; a=2', ('text/a', {'a': '2'})),
        ('text/a; A=1', ('text/a', {'A': '1'})),
        ('text/a', ('text/a', {})), ('text/a; a="1"', ('text/a', {'a': '1'})),
        ('text/a; a="1 "', ('text/a', {'a': '1 '}))],
    'parse_set_header': [
        ('a', ['a']), ('A', ['A']), ('a, b', ['a', 'b']),
        ('A, b', ['A', 'b']), ('b, a', ['b', 'a']), ('a, A', ['a'])],
    'parse_authorization_header': [
        ('Basic YTpi', ('a', 'b')), ('Basic YTpC', ('a', 'B')),
        ('Basic QTpi', ('A', 'b')), ('basic YTpi', ('a', 'b')),
        ('Basic ytPI', None), ('Bearer YTpi', None)],
    'parse_www_authenticate_header': [
        ('Basic realm="a"', ('basic', 'a')), ('Basic realm="A"', ('basic', 'A')),
        ('Digest realm="a"', ('digest', 'a')),
        ('Basic realm="a "', ('basic', 'a '))],
    'quote_header_value': [
        ('a', 'a'), ('a b', '"a b"'), ('A', 'A'), ('a,b', '"a,b"'),
        ('', '""')],
}


def run_meaning(case, cx):
    name, order = case
    for i in order:
        value, want = MEANS[name][i]
        if name == 'quote_header_value':
            same(quote_header_value(value), want, 'quoted')
            same(quote_header_value(value, allow_token=False),
                 '"%s"' % value, 'quoted in any case')
            same(quote_header_value(value, extra_chars=', '),
                 value or '""', 'quoted with extra characters')
            same(quote_header_value(value), want, 'quoted')
            continue
        got = PARSERS[name](value)
        if name == 'parse_set_header':
            got = list(got)
        elif name == 'parse_authorization_header':
            got = got and (got.username, got.password)
        elif name == 'parse_www_authenticate_header':
            got = got.type, got.realm
        same(got, want, '%s(%r)' % (name, value))
        cx.step()
    cx.state(case)
    cx.outcome(name)


def meanings(length):
    def gen():
        for name, values in MEANS.items():
            for order in words(range(len(values)), length, length):
                yield name, order
    return gen


# -- names of options --------------------------------------------------------

NAMES = ('name', 'filename', 'Filename', 'filename2', 'filenames', 'file',
         'file-name', 'x-filename', 'f', 'path', 'title')


def run_option_name(case, cx):
    name, value = case
    if name == 'filename' and value[:1] == '\\':
        # a share of a Windows network, see "file names"
        return
    header = 'attachment; %s=%s' % (name, quoted(value))
    same(parse_options_header(header), ('attachment', {name: value}), header)
    same(parse_options_header(header + '; x=y'),
         ('attachment', {name: value, 'x': 'y'}), header)
    same(dump_options_header('attachment', {name: value}),
         'attachment; %s=%s' % (name, value if token(value)
                                else quoted(value)), 'dumped')
    cx.step()
    cx.state(case)
    cx.outcome(name)


def dicts(*shapes):
    def gen():
        for length, width in shapes:
            alphabet = [None] + list(strings(ALPHABET, width))
            yield from words(alphabet, length, length)
    return gen


# -- options -----------------------------------------------------------------

def run_options(case, cx):
    name, keys, values = case
    want = dict(zip(keys, values))
    header = dump_options_header(name, want)
    first, _, rest = header.partition(';')
    same(first, name, 'value of the header')
    same(parse_pairs(rest, ';'), want, 'options as read by a client')
    same(parse_options_header(header), (name, want), 'options')
    for separator in (';', '; ', ' ; ', ';  '):
        header = separator.join([name] + [
            k if v is None else '%s=%s' % (k, quoted(v))
            for k, v in want.items()])
        same(parse_options_header(header), (name, want),
             'options from a client %r' % header)
        header = separator.join([name] + [
            k if v is None else '%s = %s' % (k, quoted(v))
            for k, v in want.items()])
        same(parse_options_header(header), (name, want),
             'options from a client %r' % header)
    req = Request(environ(headers=[('Content-Type', header)]))
    same(req.mimetype, name.lower(), 'mimetype of a request')
    same(dict(req.mimetype_params), want, 'mimetype_params of a request')
    cx.step()
    cx.state(case)
    cx.outcome((name, tuple(v is None for v in values)))


def options(*shapes):
    def gen():
        for length, width in shapes:
            alphabet = [None] + list(strings(ALPHABET, width))
            for name in ('text/html', 'X-y'):
                for values in words(alphabet, length, length):
                    yield name, ('charset', 'b-r', 'C')[:length], values
    return gen


def run_filename(value, cx):
    """Backslashes in file names survive"""
    header = 'attachment; filename=' + quoted(value)
    same(parse_options_header(header),
         ('attachment', {'filename': value}), 'file name')
    cx.step()
    cx.state(value)
    cx.outcome('\\' in value)


# -- anything ----------------------------------------------------------------

def run_total(value, cx):
    for parser, classes in (
        (parse_list_header, list), (parse_dict_header, dict),
        (parse_cache_control_header, dict),
        (parse_www_authenticate_header, WWWAuthenticate),
        (parse_content_range_header, object),
        (parse_range_header, object), (parse_date, object),
        (parse_if_range_header, object), (parse_etags, object),
    ):
        got = parser(value)
        expect(isinstance(got, classes), '{} gave {!r}', parser.__name__, got)
    got = parse_list_header(value)
    expect(all(isinstance(v, str) for v in got), 'list of {!r}', got)
    name, extra = parse_options_header(value)
    expect(isinstance(name, str) and isinstance(extra, dict), 'options')
    for k, v in list(extra.items()) + list(parse_dict_header(value).items()):
        expect(isinstance(k, str) and (v is None or isinstance(v, str)),
               'option {!r}={!r}', k, v)
    hs = parse_set_header(value)
    same(len(hs), len(list(hs)), 'members of a set')
    expect(dict(parse_cookie(value)) is not None, 'cookies')
    for prefix in ('', 'Basic ', 'Digest ', 'basic', 'Other '):
        got = parse_authorization_header(prefix + value)
        expect(got is None or isinstance(got, Authorization),
               'authorization {!r}', got)
        parse_www_authenticate_header(prefix + value).to_header()
    # a request with any headers can be looked at
    req = Request(environ(headers=[
        (n, value) for n in (
            'Cookie', 'Content-Type', 'Authorization', 'Cache-Control',
            'If-Match', 'If-None-Match', 'If-Modified-Since', 'If-Range',
            'Range', 'Pragma', 'Max-Forwards', 'Date', 'Referer',
            'Content-Length', 'X-Forwarded-For', 'X-Requested-With')
    ], query=value))
    for attr in ('cookies', 'authorization', 'cache_control', 'if_match',
                 'if_none_match', 'if_modified_since', 'if_range', 'range',
                 'pragma', 'max_forwards', 'date', 'referrer', 'mimetype',
                 'mimetype_params', 'content_type', 'access_route', 'args',
                 'is_xhr', 'url', 'headers', 'content_length', 'full_path'):
        getattr(req, attr)
    cx.step()
    cx.state(value)
    cx.outcome((len(hs), bool(extra)))


# -- authorization -----------------------------------------------------------

def run_basic(case, cx):
    user, password, scheme, extra = case
    raw = ('%s:%s' % (user, password)).encode('latin1')
    header = scheme + base64.b64encode(raw).decode('ascii') + extra
    for auth in (parse_authorization_header(header),
                 parse_authorization_header(header.encode('latin1')),
                 Request(environ(headers=[('Authorization', header)])
                         ).authorization):
        expect(auth is not None, 'no authorization in {!r}', header)
        same(auth.type, 'basic', 'type')
        same((auth.username, auth.password), (user, password), 'basic')
        for attr in ('realm', 'nonce', 'uri', 'nc', 'cnonce', 'response',
                     'opaque'):
            same(getattr(auth, attr), None, attr)
    cx.step()
    cx.state(case)
    cx.outcome(len(password))


def basics(width):
    def gen():
        users = [u for u in strings('a \xe9@', width)]
        for user in users:
            for password in strings('a: \xe9', width):
                for scheme in ('Basic ', 'basic ', 'BASIC  '):
                    yield user, password, scheme, ''
                yield user, password, 'Basic ', ' '
    return gen


REQUIRED = ('username', 'realm', 'nonce', 'uri', 'response')
OPTIONAL = ('qop', 'nc', 'cnonce', 'opaque', 'algorithm')


def run_digest(case, cx):
    fields, value, separator, quote = case
    pairs = {f: value if f not in ('qop', 'nc') else {
        'qop': 'auth', 'nc': '00000001'}[f] for f in fields}
    header = 'Digest ' + separator.join(
        '%s=%s' % (k, v if k in ('nc', 'qop', 'algorithm') and token(v)
                   and not quote else quoted(v))
        for k, v in pairs.items())
    auth = parse_authorization_header(header)
    valid = set(REQUIRED) <= set(fields)
    if 'qop' in fields and not (
            'nc' in fields and 'cnonce' in fields and pairs['cnonce']):
        valid = False
    if not valid:
        same(auth, None, 'incomplete authorization')
    else:
        expect(auth is not None, 'no authorization for {!r}', header)
        same(auth.type, 'digest', 'type')
        same(dict(auth), pairs, 'fields')
        for attr in REQUIRED + ('nc', 'cnonce', 'opaque'):
            same(getattr(auth, attr), pairs.get(attr), attr)
        same(list(auth.qop), ['auth'] if 'qop' in pairs else [], 'qop')
        same(auth.password, None, 'password')
        for scheme in ('DIGEST', 'digest'):
            same(parse_authorization_header(scheme + header[6:]), auth,
                 'scheme ' + scheme)
    for scheme in ('Other', 'Digest2', 'Dig', 'Bearer', 'Negotiate'):
        same(parse_authorization_header(scheme + header[6:]), None,
             'scheme ' + scheme)
    cx.step()
    cx.state(case)
    cx.outcome(valid)


def digests(values):
    def gen():
        every = REQUIRED + OPTIONAL
        for n in range(len(every) + 1):
            for fields in itertools.combinations(every, n):
                for value in values:
                    for separator in (', ', ',', ' ,  '):
                        for quote in (False, True):
                            yield fields, value, separator, quote
    return gen


def run_challenge(case, cx):
    kind, realm, nonce, opaque, qop, algorithm, stale = case
    auth = WWWAuthenticate()
    if kind == 'basic':
        auth.set_basic(realm)
        want = {'realm': realm}
    else:
        auth.set_digest(realm, nonce, qop=qop, opaque=opaque,
                        algorithm=algorithm, stale=stale)
        want = {'realm': realm, 'nonce': nonce, 'opaque': opaque,
                'qop': ', '.join(qop)}
    header = auth.to_header()
    scheme, _, rest = header.partition(' ')
    same(scheme.lower(), kind, 'scheme')
    sent = parse_pairs(rest, ',')
    if stale:
        same(sent.pop('stale').lower(), 'true', 'stale')
    if algorithm is not None:
        want['algorithm'] = algorithm
    same(sent, want, 'challenge as read by a client')
    again = parse_www_authenticate_header(header)
    same(again.type, kind, 'type')
    same(again.realm, realm, 'realm')
    if kind == 'digest':
        same(again.nonce, nonce, 'nonce')
        same(again.opaque, opaque, 'opaque')
        same(list(again.qop), list(qop), 'qop')
        same(again.algorithm, algorithm, 'algorithm')
        same(bool(again.stale), stale, 'stale')
        for text, value in (('true', True), ('TRUE', True), ('True', True),
                            ('"true"', True), ('false', False),
                            ('FALSE', False)):
            other = parse_www_authenticate_header(
                'digest realm=x, stale=' + text)
            same(other.stale, value, 'stale=' + text)
    # the same said one by one, and as a dictionary
    other = WWWAuthenticate(kind)
    other.realm = realm
    if kind == 'digest':
        other.nonce, other.opaque, other.algorithm = nonce, opaque, algorithm
        for one in qop:
            other.qop.add(one)
        if stale:
            other.stale = True
    copy = WWWAuthenticate('Custom-' + kind, {
        k: v for k, v in dict(other).items() if k != '__auth_type__'})
    custom = parse_www_authenticate_header(copy.to_header())
    same(copy.type, 'Custom-' + kind, 'type')
    same(custom.type, 'custom-' + kind, 'type')
    same(custom.realm, realm, 'realm')
    sent = parse_pairs(other.to_header().partition(' ')[2], ',')
    if stale:
        same(sent.pop('stale').lower(), 'true', 'stale')
    same(sent, want, 'challenge said one by one')
    same(again.to_header(), header, 'header of the parsed challenge')
    same(str(again), header, 'challenge as text')
    cx.step()
    cx.state(case)
    cx.outcome(kind)


def challenges(width):
    def gen():
        for realm in strings('a," \\=', width):
            yield 'basic', realm, None, None, None, None, False
            for qop in (('auth',), ('auth', 'auth-int'),
                        ('auth-int', 'auth'), ('token', 'auth-int', 'auth'),
                        ('auth-int', 'token', 'auth')):
                for nonce in ('n', 'a,b="c"'):
                    yield 'digest', realm, nonce, realm, qop, None, False
                yield 'digest', 'r', 'n', 'o', qop, 'Sha-256', True
                yield 'digest', 'r', 'n', 'o', qop, realm, False
    return gen


check = Check('C16', [
    Space('sizes', run_size, lambda: itertools.product(
        ('long', 'many'), SIZES), lambda: itertools.product(
        ('long', 'many'), MORE_SIZES), chunk=10),
    Space('again', run_again, again(2), again(3)),
    Space('meanings', run_meaning, meanings(3), meanings(4)),
    Space('option names', run_option_name, lambda: itertools.product(
        NAMES, strings('a,"\\ ', 4)), lambda: itertools.product(
        NAMES, strings('a,"\\ ', 6))),
    Space('values', run_quote, lambda: strings(ALPHABET + '*/\xe9', 5),
          lambda: strings(ALPHABET + '*/\xe9', 6)),
    Space('lists', run_list, lists((0, 0), (1, 4), (2, 2), (3, 1)),
          lists((0, 0), (1, 5), (2, 3), (3, 2))),
    Space('dictionaries', run_dict, dicts((0, 0), (1, 4), (2, 2), (3, 1)),
          dicts((0, 0), (1, 5), (2, 3), (3, 2))),
    Space('options', run_options, options((0, 0), (1, 4), (2, 2), (3, 1)),
          options((0, 0), (1, 5), (2, 3), (3, 1))),
    Space('file names', run_filename, lambda: (
        s for s in strings('a,"\\ =;:', 4) if s[:1] != '\\'),
        lambda: (s for s in strings('a,"\\ =;:', 6) if s[:1] != '\\')),
    Space('anything', run_total, lambda: strings('a,"\\ =;:-1*', 4),
          lambda: strings('a,"\\ =;:-1*\xe9', 5)),
    Space('basic', run_basic, basics(3), basics(4)),
    Space('digest', run_digest, digests(['x', 'a, b="c"', '']),
          digests(list(strings('a,"\\ =', 2)))),
    Space('challenges', run_challenge, challenges(4), challenges(5)),
], bounds='strings of up to 6 characters over an alphabet of every special '
    'character, up to 3 elements per header',
    assumptions=['keys are tokens', 'values contain no line breaks'])
