"""C10: what a response puts on the wire.

Every history of operations on a response, up to a depth, is replayed on the
real class and on a model that only knows the bytes of the body; the response
is then sent the way a server would and everything sent is compared.
"""
import itertools
from http import HTTPStatus
from urllib.parse import urljoin, urlsplit

from verktyg.http import Headers
from verktyg.requests import Request
from verktyg.responses import BaseResponse, Response

from mc.core import Check, Space, expect, same, words
from mc.wsgi_client import call, environ

ENTITY = {
    'allow', 'content-encoding', 'content-language', 'content-length',
    'content-md5', 'content-range', 'content-type', 'last-modified',
}


class Latin(Response):
    charset = 'latin1'
    default_mimetype = 'text/html'


class Wide(Response):
    charset = 'utf-16-le'


class Explicit(Response):
    implicit_sequence_conversion = False


class Silent(Response):
    automatically_set_content_length = False


CLASSES = {'full': Response, 'base': BaseResponse, 'latin': Latin,
           'wide': Wide, 'explicit': Explicit,
           'silent': Silent}

BODIES = {
    'none': lambda: None,
    'str': lambda: 'ab\xe9',
    'bytes': lambda: b'\xff\x00z',
    'empty': lambda: '',
    'bytearray': lambda: bytearray(b'xyz'),
    'list': lambda: [b'one', b'', b'two'],
    'strings': lambda: ['\xe9\xe9', 'x', ''],
    'mixed': lambda: ['\xe9', b'\xe9', 'z'],
    'tuple': lambda: (b'a', '\xfc'),
    'nothing': lambda: [],
    'generator': lambda: (x for x in ['\xe9', b'raw', '']),
    'iterator': lambda: iter([b'one', 'tw\xf6']),
}


def encoded(kind, charset):
    value = BODIES[kind]()
    if value is None:
        return b''
    if isinstance(value, (str, bytes, bytearray)):
        value = [value]
    return b''.join(
        v.encode(charset) if isinstance(v, str) else bytes(v) for v in value)


class Model:
    def __init__(self, kind, cls):
        self.charset = CLASSES[cls].charset
        self.body = encoded(kind, self.charset)
        self.buffered = kind not in ('generator', 'iterator')
        self.implicit = CLASSES[cls].implicit_sequence_conversion
        self.automatic = CLASSES[cls].automatically_set_content_length
        self.status = 200

    def need_sequence(self):
        """True if buffering is possible"""
        if not self.buffered and not self.implicit:
            return False
        self.buffered = True
        return True


def op_set_str(r, m, full):
    r.set_data('n\xebw')
    m.body, m.buffered = 'n\xebw'.encode(m.charset), True


def op_set_bytes(r, m, full):
    r.set_data(b'\x80')
    m.body, m.buffered = b'\x80', True


def op_set_empty(r, m, full):
    r.set_data('')
    m.body, m.buffered = b'', True


def guarded(action, m):
    """Runs an operation that needs a buffered body"""
    possible = m.need_sequence()
    try:
        value = action()
    except RuntimeError:
        expect(not possible, 'raised although buffering is possible')
        return False, None
    expect(possible, 'buffered although it was disabled')
    return True, value


def op_write(r, m, full):
    ok, _ = guarded(lambda: r.stream.write('\xe8'), m)
    if ok:
        m.body += '\xe8'.encode(m.charset)


def op_writelines(r, m, full):
    ok, _ = guarded(lambda: r.stream.writelines(iter([b'1+', '2', b'', '3'])), m)
    if ok:
        m.body += b'1+' + '2'.encode(m.charset) + '3'.encode(m.charset)


def op_make_sequence(r, m, full):
    r.make_sequence()
    m.buffered = True


def op_get_data(r, m, full):
    ok, value = guarded(r.get_data, m)
    if ok:
        same(value, m.body, 'get_data')


def op_freeze(r, m, full):
    r.freeze()
    m.buffered = True


def op_length(r, m, full):
    value = r.calculate_content_length()
    possible = m.need_sequence()
    same(value, len(m.body) if possible else None,
         'calculate_content_length')


def op_etag(r, m, full):
    guarded(lambda: r.add_etag(overwrite=True), m)


def op_conditional(r, m, full):
    if m.automatic and 'content-length' not in r.headers:
        m.need_sequence()
    expect(r.make_conditional(environ()) is r, 'make_conditional returns self')


def op_conditional_request(r, m, full):
    if m.automatic and 'content-length' not in r.headers:
        m.need_sequence()
    r.make_conditional(Request(environ()))


def op_conditional_post(r, m, full):
    before = list(r.headers)
    r.make_conditional(environ(method='POST'))
    same(list(r.headers), before, 'headers after conditional POST')


def op_204(r, m, full):
    r.status_code = 204
    m.status = 204


def op_304(r, m, full):
    r.status = '304 Not Modified'
    m.status = 304


def op_200(r, m, full):
    r.status_code = 200
    m.status = 200


def op_101(r, m, full):
    r.status_code = 101
    m.status = 101


def op_cookie(r, m, full):
    r.set_cookie('k', 'v')


def op_send_head(r, m, full):
    # what is sent must not change what is sent next
    headers = list(r.headers)
    r.get_wsgi_headers(environ(method='HEAD'))
    same(list(r.headers), headers, 'headers after computing wsgi headers')


OPS = {f.__name__[3:]: f for f in [
    op_set_str, op_set_bytes, op_set_empty, op_make_sequence, op_get_data,
    op_freeze, op_length, op_204, op_304, op_200, op_101, op_cookie,
    op_send_head, op_write, op_writelines, op_etag, op_conditional,
    op_conditional_request, op_conditional_post,
]}
BASE_OPS = ['set_str', 'set_bytes', 'set_empty', 'make_sequence', 'get_data',
            'freeze', 'length', '204', '304', '200', '101', 'cookie',
            'send_head']


def check_wire(result, response, m, method):
    code = m.status
    bodyless = code in (204, 304) or 100 <= code < 200
    same(result.started, 1, 'times the response was started')
    expect(result.error is None, 'error while sending: {!r}', result.error)
    same(result.status.split(' ')[0], str(code), 'status')
    same(response.status_code, code, 'status_code')
    for chunk in result.chunks:
        expect(type(chunk) is bytes, 'chunk is not bytes: {!r}', chunk)
    if bodyless or method == 'HEAD':
        same(result.body, b'', 'body of %s %d' % (method, code))
    else:
        same(result.body, m.body, 'body')
    for name, value in result.headers:
        expect(type(name) is str and type(value) is str,
               'header {!r}: {!r} is not a native string', name, value)
        expect('\n' not in value and '\r' not in value, 'line break')
    lengths = result.getlist('Content-Length')
    expect(len(lengths) <= 1, 'several content lengths {}', lengths)
    if code == 304:
        for name, value in result.headers:
            expect(name.lower() not in ENTITY, 'entity header {} in 304',
                   name)
    elif bodyless:
        same(lengths, ['0'], 'content length of %d' % code)
    elif not response.automatically_set_content_length:
        expect(lengths in ([], [str(len(m.body))]), 'length {}', lengths)
    elif m.buffered:
        same(lengths, [str(len(m.body))], 'content length')
    else:
        same(lengths, [], 'content length of a streamed body')


def run_history(case, cx):
    cls, kind, ops = case
    response = CLASSES[cls](BODIES[kind](), headers=[('X-A', '1')])
    m = Model(kind, cls)
    full = cls != 'base'
    for op in ops:
        OPS[op](response, m, full)
        cx.step()
        same(response.is_sequence, m.buffered, 'is_sequence after ' + op)
        cx.state((cls, m.body, m.buffered, m.status,
                  [(k, v) for k, v in response.headers if k != 'Date']))
    same(response.is_streamed, not m.buffered, 'is_streamed')
    cookies = ops.count('cookie')
    before = list(response.headers)
    if m.buffered:
        for method in ('HEAD', 'GET', 'HEAD', 'POST', 'GET'):
            result = call(response, environ(method=method))
            check_wire(result, response, m, method)
            cx.step()
            same(list(response.headers), before, 'headers changed by sending')
            same(len(result.getlist('Set-Cookie')), cookies, 'cookies sent')
            same(result.getlist('X-A'), ['1'], 'headers sent')
            same(response.get_data(), m.body, 'body after sending')
            try:
                text = m.body.decode(m.charset)
            except UnicodeDecodeError:
                continue
            same(response.get_data(as_text=True), text, 'text')
    else:
        # a stream can only be sent once
        method = ('GET', 'HEAD')[len(ops) % 2] if 'send_head' in ops else (
            'GET')
        result = call(response, environ(method=method))
        check_wire(result, response, m, method)
        same(len(result.getlist('Set-Cookie')), cookies, 'cookies sent')
    cx.outcome((m.status, m.buffered, len(m.body)))


def histories(depth, base_depth):
    def gen():
        for cls in CLASSES:
            ops = BASE_OPS if cls == 'base' else list(OPS)
            d = depth if cls in ('full', 'latin') else base_depth
            for word in words(ops, d):
                for kind in BODIES:
                    if cls == 'wide' and kind == 'nothing':
                        continue
                    if cls == 'silent' and 'freeze' in word and any(
                            op[:4] == 'set_' for op in
                            word[word.index('freeze'):]):
                        # whose length it is then is for the caller to say
                        continue
                    yield cls, kind, word
    return gen


# -- status ------------------------------------------------------------------

KNOWN = {s.value: s.phrase for s in HTTPStatus}
# those whose names have not changed over time
NAMED = (100, 101, 102, 200, 201, 202, 204, 205, 206, 226, 300, 301, 302, 303,
         304, 305, 307, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410,
         411, 412, 415, 417, 423, 424, 426, 428, 429, 431, 500, 501, 502, 503,
         504, 505, 507)


def run_status(case, cx):
    how, value = case
    if how == 'code':
        code = value
        for response in (BaseResponse(status=code), Response()):
            response.status_code = code
            same(response.status_code, code, 'status_code')
            line = response.status
            same(line.split(' ', 1)[0], str(code), 'status line')
            reason = line.split(' ', 1)[1]
            expect(reason and reason == reason.upper(), 'reason {!r}', reason)
            if code in NAMED:
                same(reason, KNOWN[code].upper(), 'reason')
    else:
        code, line = value
        response = Response(status=line)
        same(response.status, line, 'status')
        same(response.status_code, code, 'status_code')
    result = call(response, environ())
    same(result.code, code, 'code sent')
    bodyless = 100 <= code < 200 or code in (204, 304)
    response.set_data('x')
    result = call(response, environ())
    same(result.body, b'' if bodyless else b'x', 'body')
    same(result.getlist('Content-Length'),
         [] if code == 304 else ['0'] if bodyless else ['1'], 'length')
    cx.step()
    cx.state(case)
    cx.outcome(bodyless)


def statuses():
    for code in range(100, 600):
        yield 'code', code
        yield 'line', (code, '%d Custom Reason' % code)
        yield 'line', (code, '%d X' % code)


# -- writing -----------------------------------------------------------------

class Ascii(Response):
    charset = 'ascii'


def run_stream(case, cx):
    """Nothing is lost silently: neither what is written after the stream has
    been closed nor what cannot be encoded."""
    cls, text, when = case
    cls = {'full': Response, 'latin': Latin, 'ascii': Ascii}[cls]
    response = cls('b')
    stream = response.stream
    same(stream.encoding, cls.charset, 'encoding')
    same(stream.isatty(), False, 'isatty')
    stream.write('1')
    stream.flush()
    want = b'b1'
    if when == 'closed':
        stream.close()
        for name, args in (('write', (text,)), ('writelines', ([text],)),
                           ('flush', ()), ('isatty', ())):
            try:
                getattr(stream, name)(*args)
            except ValueError:
                pass
            else:
                expect(False, '{} on a closed stream', name)
        same(call(response, environ()).body, want, 'body')
        cx.outcome('closed')
    else:
        try:
            new = text.encode(cls.charset)
        except UnicodeEncodeError:
            new = None
        try:
            if when == 'write':
                stream.write(text)
                want += new or b''
            elif when == 'init':
                response = cls(text)
                want = new
            elif when == 'init list':
                response = cls(['1', text])
                want = b'1' + (new or b'')
            else:
                response.set_data(text)
                want = new
            result = call(response, environ(), catch=False)
        except UnicodeEncodeError:
            expect(new is None, 'refused {!r}', text)
            cx.outcome('refused')
        else:
            expect(new is not None, 'sent {!r} as {!r}', text, result.body)
            same(result.body, want, 'body')
            cx.outcome('sent')
    cx.step()
    cx.state(case)


def streams():
    return itertools.product(
        ('full', 'latin', 'ascii'),
        ('', 'a', '\xe9', '\u2603', 'a\u2603b', '\U0001f600'),
        ('closed', 'write', 'init', 'init list', 'set'))


# -- subclasses ---------------------------------------------------------------

def run_subclass(case, cx):
    status, given, charset, mimetype, automatic, on_class, kind, method = case
    attributes = {}
    if status is not None:
        attributes['default_status'] = status
    if mimetype is not None:
        attributes['default_mimetype'] = mimetype
    attributes['automatically_set_content_length'] = automatic
    if charset is not None and on_class:
        attributes['charset'] = charset
    cls = type('Custom', (Response,), attributes)
    try:
        data = {'str': 'ab\xe9', 'list': ['\xe9', b'x'], 'none': None}[kind]
        response = cls(data, status=given)
    except LookupError:
        return
    if charset is not None and not on_class:
        response.charset = charset
    now = charset or 'utf-8'
    first = now if on_class else 'utf-8'
    body = {'str': 'ab\xe9'.encode(first), 'list': '\xe9'.encode(now) + b'x',
            'none': b''}[kind]
    code = given if given is not None else status or 200
    if isinstance(code, str):
        code = int(code.split(' ')[0])
    result = call(response, environ(method=method))
    same(result.code, code, 'status')
    bodyless = 100 <= code < 200 or code in (204, 304)
    same(result.body, b'' if bodyless or method == 'HEAD' else body, 'body')
    want = mimetype or 'text/plain'
    if want.startswith('text/'):
        want += '; charset=' + first
    same(result.get('Content-Type'), None if code == 304 else want,
         'content type')
    same(result.getlist('Content-Length'),
         ['0'] if bodyless and code != 304 else
         [str(len(body))] if automatic and code != 304 else [], 'length')
    # the same again once there is other data
    response.set_data('\xe8')
    result = call(response, environ(method=method))
    same(result.body, b'' if bodyless or method == 'HEAD' else
         '\xe8'.encode(now), 'new body')
    if automatic and not bodyless:
        same(result.getlist('Content-Length'),
             [str(len('\xe8'.encode(now)))], 'new length')
    cx.step(2)
    cx.outcome((code, automatic))
    cx.state(case)


def subclasses():
    for status, given, charset, mimetype, automatic, on_class in (
            itertools.product(
                (None, 202, '418 Teapot', 204), (None, 200, 404, 304, '299 X'),
                (None, 'latin1', 'utf-16-le'),
                (None, 'text/html', 'a/b'), (True, False), (True, False))):
        if charset is None and not on_class:
            continue
        for kind in ('str', 'list', 'none'):
            for method in ('GET', 'HEAD'):
                yield (status, given, charset, mimetype, automatic, on_class,
                       kind, method)


# -- lengths which were stated ------------------------------------------------

STATED_OPS = {
    'set': lambda r: r.set_data('four'),
    'set empty': lambda r: r.set_data(''),
    'write': lambda r: r.stream.write('\xfc'),
    'freeze': lambda r: r.freeze(),
    'conditional': lambda r: r.make_conditional(environ()),
    'etag': lambda r: r.add_etag(),
    'state': lambda r: setattr(r, 'content_length', 77),
    'forget': lambda r: r.headers.pop('Content-Length', None),
}


def run_stated(case, cx):
    kind, ops = case
    response = Response(BODIES[kind]())
    length = None
    body = encoded(kind, 'utf-8')
    if kind in ('none', 'str', 'bytes', 'empty', 'bytearray'):
        length = None if kind == 'none' else len(body)
    buffered = kind not in ('generator', 'iterator')
    for op in ops:
        STATED_OPS[op](response)
        if op not in ('state', 'forget', 'conditional'):
            buffered = True
        if op == 'state':
            length = 77
        elif op == 'forget':
            length = None
        elif op.startswith('set'):
            body = b'four' if op == 'set' else b''
            length = len(body)
        elif op == 'write':
            body += b'\xc3\xbc'
            length = None
        elif op == 'freeze':
            length = len(body)
        elif op == 'conditional' and length is None:
            length = len(body)
            buffered = True
        same(response.headers.get('Content-Length'),
             None if length is None else str(length), 'length after ' + op)
        same(response.content_length, length, 'content_length after ' + op)
        cx.step()
    if not buffered:
        want = [] if length is None else [str(length)]
    else:
        want = [str(len(body) if length is None else length)]
    result = call(response, environ(method='HEAD'))
    same(result.getlist('Content-Length'), want, 'length of HEAD')
    if want == ['77'] or not response.is_sequence:
        return
    result = call(response, environ())
    same(result.getlist('Content-Length'), want, 'length')
    same(result.body, body, 'body')
    cx.outcome(length)
    cx.state((body, length))


def stated(depth):
    def gen():
        for kind in BODIES:
            for ops in words(tuple(STATED_OPS), depth):
                yield kind, ops
    return gen


# -- bodies that belong to somebody else --------------------------------------

SHARED = ([b'one', b'two'], ['\xe9', b''], [])


def run_shared(case, cx):
    """A list given to several responses is none of theirs"""
    which, ops = case
    given = list(SHARED[which])
    body = b''.join(v.encode() if isinstance(v, str) else v for v in given)
    first, second = Response(given), Response(given)
    for op in ops:
        STATED_OPS[op](first)
        same(given, SHARED[which], 'the list after ' + op)
        cx.step()
    result = call(second, environ())
    same(result.body, body, 'body of the other response')
    same(result.getlist('Content-Length'), [str(len(body))], 'its length')
    cx.outcome(len(body))
    cx.state(case)


def shared_bodies(depth):
    def gen():
        for which in range(len(SHARED)):
            for ops in words(('set', 'set empty', 'freeze', 'conditional',
                              'etag', 'state', 'forget'), depth):
                yield which, ops
    return gen


# -- bodies that are passed through -------------------------------------------

class Passed:
    def __init__(self, chunks):
        self.chunks = iter(chunks)
        self.closed = 0

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.chunks)

    def close(self):
        self.closed += 1


def run_passed(case, cx):
    n, code, method, length, etag = case
    chunks = [b'chunk', b'', b'\xff'][:n]
    body = Passed(chunks)
    response = Response(body, status=code, direct_passthrough=True)
    if length:
        response.content_length = sum(map(len, chunks))
    if etag:
        response.set_etag('e')
        response.make_conditional(environ(method=method))
    for action in (response.get_data, response.add_etag):
        if etag and action == response.add_etag:
            continue
        try:
            action()
        except RuntimeError:
            pass
        else:
            expect(False, 'read a body that is passed through')
    same(response.calculate_content_length(), None, 'calculated length')
    result = call(response, environ(method=method))
    bodyless = method == 'HEAD' or 100 <= code < 200 or code in (204, 304)
    same(result.chunks, [] if bodyless else chunks, 'body')
    same(body.closed, 1, 'times the body was closed')
    same(result.getlist('Content-Length'),
         ['0'] if 100 <= code < 200 or code == 204 else
         [str(sum(map(len, chunks)))] if length and code != 304 else [],
         'length')
    cx.step()
    cx.outcome(bodyless)
    cx.state(case)


def passed():
    return itertools.product(
        range(4), (100, 199, 200, 204, 206, 304, 404),
        ('GET', 'HEAD', 'POST'), (False, True), (False, True))


# -- many headers and pieces ---------------------------------------------------

def run_many(case, cx):
    what, n, last = case
    cx.step()
    body = b''.join(b'%d,' % i for i in range(n))
    pieces = ['%d,' % i if i % 2 else b'%d,' % i for i in range(n)]
    if what == 'writelines':
        response = Response()
        response.stream.writelines(pieces)
    elif what == 'list':
        response = Response(pieces)
    elif what == 'iterator':
        response = Response(iter(pieces))
    else:
        response = Response(iter(pieces))
        response.freeze()
    for i in range(n):
        response.headers.add('X-%d' % (i if last else 0), str(i))
    response.headers['Location'] = '/\xe9'
    if not last:
        response.headers.set('Content-Language', 'en')
    result = call(response, environ('/x'))
    same((result.error, result.body), (None, body), 'body')
    given = [(k, v) for k, v in result.headers]
    same([v for k, v in given if k.startswith('X-')],
         [str(i) for i in range(n)], 'headers')
    same([v for k, v in given if k == 'Location'],
         ['http://example.com/%C3%A9'], 'location')
    if what != 'iterator':
        same([v for k, v in given if k == 'Content-Length'],
             [str(len(body))], 'length')
    same(call(response, environ('/x', method='HEAD')).body, b'', 'HEAD')
    # a not modified response keeps the others
    response.status_code = 304
    result = call(response, environ('/x'))
    same(result.body, b'', 'body of 304')
    same([v for k, v in result.headers if k.startswith('X-')],
         [str(i) for i in range(n)], 'headers of 304')
    expect(not any(k == 'Content-Length' for k, v in result.headers),
           'length of 304')
    cx.state(case)
    cx.outcome(what)


def many():
    return itertools.product(
        ('writelines', 'list', 'iterator', 'frozen'),
        tuple(range(1, 21)) + (33, 65, 129), (True, False))


# -- locations ---------------------------------------------------------------

PATHS = ['', '/', '/a', 'a', 'a/b', '/\xe9', 'a b', '?x=1', '/a?x=\xe9',
         '#f', '/a#\xe9', './x', '//other.org/p', 'http://other.org/',
         'https://\xfcser.example/\xe4?\xe4#\xe4', '/%2F', '/%C3%A9',
         'mailto:a@b.c', '/a?b=c&d=e', '/a;b', 'http://example.com:81/x']


def run_location(case, cx):
    location, scheme, host, script, cls, code, how = case
    env = environ('/page', scheme=scheme, host=host, script=script)
    if how == 'autocorrect':
        response = CLASSES[cls](status=code)
    else:
        class Raw(CLASSES[cls]):
            autocorrect_location_header = False
        response = Raw(status=code)
    response.headers['Location'] = location
    response.headers['Content-Location'] = location
    result = call(response, env)
    got = result.getlist('Location')
    same(len(got), 1, 'locations')
    got = got[0]
    expect(got.isascii(), 'location is not ascii: {!r}', got)
    cgot = result.get('Content-Location')
    expect(cgot.isascii(), 'content location is not ascii')
    expect(' ' not in got, 'location contains spaces')
    from verktyg.urls import iri_to_uri
    if how == 'autocorrect':
        parts = urlsplit(got)
        expect(parts.scheme, 'location is not absolute: {!r}', got)
        root = '%s://%s%s/' % (scheme, host, script.rstrip('/'))
        same(got, urljoin(root, iri_to_uri(location)), 'location')
        given = urlsplit(location)
        if not given.scheme and not given.netloc:
            same(parts.netloc, host, 'host of the location')
            same(parts.scheme, scheme, 'scheme of the location')
            if given.path and not given.path.startswith(('/', '.')):
                expect(parts.path.startswith(script.rstrip('/') + '/'),
                       'relative location left the application: {!r}', got)
    else:
        same(got, iri_to_uri(location), 'location')
    same(response.headers['Location'], location, 'header of the response')
    # sending again for another environment isn't affected by the first
    other = call(response, environ('/', host='b.example', scheme='https'))
    if how == 'autocorrect':
        same(other.get('Location'),
             urljoin('https://b.example/', iri_to_uri(location)),
             'location for a second request')
    cx.step(2)
    cx.state((got, how))
    cx.outcome((how, urlsplit(got).netloc))


def locations(schemes, hosts, scripts, codes):
    def gen():
        yield from itertools.product(
            PATHS, schemes, hosts, scripts, ('full', 'base'), codes,
            ('autocorrect', 'raw'))
    return gen


# -- entity headers in 304 ---------------------------------------------------

NAMES = ['Allow', 'Content-Encoding', 'Content-Language', 'Content-MD5',
         'Content-Range', 'Content-Type', 'Last-Modified', 'Expires',
         'Content-Location', 'ETag', 'Date', 'Cache-Control', 'X-Other',
         'Vary', 'content-encoding', 'EXPIRES', 'Set-Cookie', 'Server',
         'Content-Disposition']


def run_304(case, cx):
    names, code = case
    response = Response('body', status=code)
    del response.headers['Content-Type']
    for i, name in enumerate(names):
        response.headers.add(name, '/v%d' % i)
    result = call(response, environ())
    got = [(k, v) for k, v in result.headers if k.lower() != 'content-length']
    want = [(n, '/v%d' % i) for i, n in enumerate(names)]
    if code == 304:
        want = [(n, v) for n, v in want if n.lower() not in ENTITY]
        same(result.getlist('Content-Length'), [], 'length')
    same(got, want, 'headers of %d' % code)
    cx.step()
    cx.state(case)
    cx.outcome(len(want))


def entities(n):
    def gen():
        for word in words(NAMES, n):
            lower = [w.lower() for w in word]
            if lower.count('content-location') > 1:
                continue
            yield word, 304
            yield word, 200
    return gen


# -- converting other applications -------------------------------------------

def run_convert(case, cx):
    how, chunks, status, headers, lazy, target = case

    def app(env, start_response):
        if lazy:
            def generate():
                start_response(status, list(headers))
                for chunk in chunks:
                    yield chunk
            return generate()
        start_response(status, list(headers))
        return list(chunks)
    cls = CLASSES[target]
    env = environ()
    if how == 'from_app':
        response = cls.from_app(app, env)
    elif how == 'buffered':
        response = cls.from_app(app, env, buffered=True)
    elif how == 'force':
        response = cls.force_type(app, env)
    else:
        original = BaseResponse(list(chunks), status=status,
                                headers=list(headers))
        response = cls.force_type(original)
    expect(type(response) is cls, 'wrong type')
    result = call(response, environ())
    same(result.status, status, 'status')
    same(result.body, b''.join(chunks), 'body')
    for name, value in headers:
        expect((name, value) in result.headers, 'lost header {}', name)
    same(response.status_code, int(status[:3]), 'code')
    cx.step()
    cx.state(case)
    cx.outcome((how, status))


def conversions():
    for how, chunks, status, headers, lazy, target in itertools.product(
            ('from_app', 'buffered', 'force', 'object'),
            ((b'x',), (b'a', b'b'), (b'a', b'', b'b')),
            ('200 OK', '404 NOT FOUND', '299 Strange'),
            ((('Content-Type', 'text/html'),),
             (('Content-Type', 'a/b'), ('X', '1'), ('X', '2'))),
            (False, True), ('full', 'base', 'latin')):
        yield how, chunks, status, headers, lazy, target


# -- constructor -------------------------------------------------------------

def run_content_type(case, cx):
    cls, mimetype, content_type, given, as_object = case
    headers = [('Content-Type', given)] if given else []
    if as_object:
        headers = Headers(headers)
    elif not headers:
        headers = None
    response = CLASSES[cls](
        'x', mimetype=mimetype, content_type=content_type, headers=headers)
    charset = CLASSES[cls].charset
    if content_type is not None:
        want = content_type
    elif mimetype is None and given:
        want = given
    else:
        want = mimetype or CLASSES[cls].default_mimetype
        if (
            want.startswith('text/') or want == 'application/xml' or
            want.startswith('application/') and want.endswith('+xml')
        ):
            want += '; charset=' + charset
    result = call(response, environ())
    same(result.getlist('Content-Type'), [want], 'content type')
    cx.step()
    cx.state(case)
    cx.outcome(want)


def content_types():
    types = [None, 'text/html', 'application/xml', 'application/atom+xml',
             'application/json', 'image/svg+xml', 'text/plain',
             'application/javascript', 'application/xmlx', 'text/x-c+xml',
             'application/x-text/html', 'image/png', 'textual/html',
             'application/octet-stream', 'application/x+xml2']
    yield from itertools.product(
        CLASSES, types, [None, 'text/html', 'a/b; c=d'],
        [None, 'x/y', 'text/css'], [False, True])


check = Check('C10', [
    Space('histories', run_history, histories(3, 2), histories(4, 3),
          rule='all operation sequences on a response, then sent'),
    Space('status', run_status, statuses),
    Space('writing', run_stream, streams),
    Space('subclasses', run_subclass, subclasses),
    Space('stated lengths', run_stated, stated(4), stated(5)),
    Space('shared bodies', run_shared, shared_bodies(4), shared_bodies(5)),
    Space('passed through', run_passed, passed),
    Space('many', run_many, many),
    Space('location', run_location,
          locations(['http', 'https'], ['example.com', 'example.com:8080'],
                    ['', '/app'], [302]),
          locations(['http', 'https'],
                    ['example.com', 'example.com:8080', 'localhost'],
                    ['', '/app', '/app/', '/a/b'], [201, 301, 302, 303])),
    Space('entity headers', run_304, entities(2), entities(3)),
    Space('conversion', run_convert, conversions),
    Space('content type', run_content_type, content_types),
], bounds='operation sequences of up to 4 steps over 12 initial bodies and 5 '
          'response classes',
    assumptions=['the body is only changed through the methods of the '
                 'response'])
