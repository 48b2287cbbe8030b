"""C24: names and addresses from outside are made safe before they are used.
"""
import itertools
import os
import unicodedata
from html.parser import HTMLParser
from urllib.parse import unquote, urlsplit

from verktyg import exceptions
from verktyg.responses import Response
from verktyg.urls import iri_to_uri
from verktyg.utils import append_slash_redirect, redirect, secure_filename

from mc.core import Check, Space, expect, same, strings, words
from mc.wsgi_client import call, environ

LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'
ALLOWED = set(LETTERS + '_.-')


# -- file names --------------------------------------------------------------

def model_filename(name):
    """Blanks and slashes separate words, which are joined by underscores;
    whatever is not allowed goes, and so do dots and underscores at the
    ends."""
    text = ''.join(c for c in unicodedata.normalize('NFKD', name)
                   if ord(c) < 128)
    out = []
    gap = False
    for c in text:
        if c.isspace() or c == '/':
            gap = True
            continue
        if gap and out:
            out.append('_')
        gap = False
        if c in ALLOWED:
            out.append(c)
        elif not out:
            # keeps the gap after it
            out.append('')
    return ''.join(out).strip('._')


def run_filename(name, cx):
    got = secure_filename(name)
    expect(isinstance(got, str), '{!r}', got)
    expect(set(got) <= ALLOWED, 'secure_filename({!r}) = {!r}', name, got)
    expect(not got or got[0] not in '._', 'secure_filename({!r}) = {!r}',
           name, got)
    for base in ('/srv/uploads', '/srv/uploads/', 'uploads'):
        joined = os.path.normpath(os.path.join(base, got))
        if got:
            same(os.path.dirname(joined), base.rstrip('/'),
                 'directory of %r' % joined)
            same(os.path.basename(joined), got, 'file of %r' % joined)
    same(secure_filename(got), got, 'secure_filename again')
    same(got, model_filename(name), 'secure_filename(%r)' % name)
    if set(name) <= ALLOWED and name.strip('._') == name:
        same(got, name, 'a name that was safe already')
    if len(name) > 2 and name[:2] in DEVICE_STARTS:
        run_device(name, got)
    cx.step()
    cx.outcome(len(got))
    cx.state(name)


DEVICES = ('CON', 'AUX', 'COM1', 'COM2', 'COM3', 'COM4', 'LPT1', 'LPT2',
           'LPT3', 'PRN', 'NUL')
DEVICE_STARTS = {f(d[:2]) for d in DEVICES for f in (str.upper, str.lower,
                                                     str.title)}


def run_device(name, elsewhere):
    """Windows knows some names in every folder"""
    old = os.name
    os.name = 'nt'
    try:
        got = secure_filename(name)
    finally:
        os.name = old
    expect(set(got) <= ALLOWED, 'secure_filename({!r}) = {!r}', name, got)
    expect(got.split('.')[0].upper() not in DEVICES,
           'on Windows secure_filename({!r}) = {!r}', name, got)
    if elsewhere.split('.')[0].upper() in DEVICES:
        expect(got.replace('_', '') == elsewhere.replace('_', ''),
               'on Windows secure_filename({!r}) = {!r}', name, got)
    else:
        same(got, elsewhere, 'on Windows secure_filename(%r)' % name)


def filenames(depth):
    def gen():
        for n in range(0x110000):
            yield 'a%cb' % n
            if unicodedata.decomposition(chr(n)):
                yield chr(n)
                yield '%c%c/x' % (n, n)
        yield from strings('a./\\ _-~\xfc\0\n\u2025\uff0f:1', depth)
        for device in DEVICES + ('COM9', 'CONS', 'NULL', 'CO', 'AUXI'):
            for name in (device, device.lower(), device.title()):
                for tail in ('', '.txt', '.tar.gz', '.', '_', '-x', ' x',
                             '.a_b', 'x.txt'):
                    yield name + tail
        yield from ('CON', 'nul.txt', 'COM1', '..', '../../etc/passwd',
                    '.bashrc', 'x.tar.gz', 'My cool movie.mov', '~/.ssh',
                    'C:\\x', '%2e%2e%2f', 'a' * 300)
        for n in LENGTHS:
            yield 'a' * n
            yield 'a' * n + '.tar.gz'
            yield 'x/' * n + 'y'
            yield ' b' * n
    return gen


# -- redirects ---------------------------------------------------------------

LENGTHS = (63, 64, 127, 128, 254, 255, 256, 257, 511, 512, 1023, 1024, 1025,
           2047, 2048, 2049, 4096, 4097, 8192, 8193, 20000)


class Page(HTMLParser):
    def __init__(self):
        HTMLParser.__init__(self)
        self.tags = []
        self.links = []
        self.text = ''
        self.inside = False

    def handle_starttag(self, tag, attrs):
        self.tags.append(tag)
        if tag == 'a':
            self.links.append(attrs)
            self.inside = True

    def handle_endtag(self, tag):
        if tag == 'a':
            self.inside = False

    def handle_data(self, data):
        if self.inside:
            self.text += data

    def handle_comment(self, data):
        self.tags.append('!--')


class Mine(Response):
    pass


def run_redirect(case, cx):
    location, code = case
    want = iri_to_uri(location)
    for cls in (None, Mine):
        args = () if code is None else (code,)
        response = redirect(location, *args, **(
            {'Response': cls} if cls else {}))
        expect(isinstance(response, cls or Response), 'class')
        same(response.status_code, code or 302, 'status')
        same(response.headers['Location'], want, 'location')
        expect('\r' not in want and '\n' not in want, 'line break in {!r}',
               want)
        same(response.mimetype, 'text/html', 'type')
        same(response.mimetype_params, {'charset': 'utf-8'}, 'type')
        body = response.get_data().decode('utf-8')
        page = Page()
        page.feed(body)
        page.close()
        same(page.tags, ['title', 'h1', 'p', 'a'], 'tags of the page')
        same(page.links, [[('href', want)]], 'links')
        if '\0' not in location and '\r' not in location:
            same(page.text, location, 'text of the link')
        cx.step()
    cx.outcome((code, len(want) - len(location)))
    cx.state(case)


def redirects(depth):
    def gen():
        for n in LENGTHS:
            yield 'http://h/' + 'a' * n, 301
            yield '/' + '\xfc' * n, None
            yield '/x?' + '&'.join('k%d=v' % i for i in range(n // 8)), None
        for code in (None, 301, 302, 303, 305, 307):
            for location in ('/', 'http://example.com/?a=b&c=d#e', '', 'x'):
                yield location, code
        for text in words(('a', '<', '>', '"', "'", '&', '/', '?', '#', ';',
                           '\xfc', '\u2603', '%20', '\n', '\t', ' ', '&lt;',
                           '=', '-->', '<script>', '"><b a="'), depth):
            yield 'http://h/' + ''.join(text), None
    return gen


def run_slash(case, cx):
    script, path, query, code = case
    env = environ(path, script=script, query=query)
    response = append_slash_redirect(env, *(() if code is None else (code,)))
    same(response.status_code, code or 301, 'status')
    result = call(response, environ(path, script=script, query=query),
                  catch=False)
    location = result.get('Location')
    expect(location.isascii(), 'location {!r}', location)
    parts = urlsplit(location)
    same((parts.scheme, parts.netloc), ('http', 'example.com'),
         'host of %r' % location)
    same(unquote(parts.path), script + '/' + path.strip('/') + '/',
         'path of %r' % location)
    same(parts.query, query, 'query of %r' % location)
    same(parts.fragment, '', 'fragment of %r' % location)
    cx.step()
    cx.outcome(len(path))
    cx.state(case)


def slashes(depth):
    def gen():
        for text in words(('a', '/', '?', '#', ' ', '%', '\xfc', '%41', ':',
                           ';', '&', '..', '\\', '@'), depth, 1):
            path = '/a' + ''.join(text)
            if path.endswith('/') or '//' in path or (
                    '..' in path.split('/')):
                continue
            yield '', path, '', None
            if len(text) < depth:
                yield '/app', path, 'x=1&y=%20', None
        for path in ('/a', '/a/b', '/a:b', '/a:b/c', '/http:a'):
            for query in ('', 'a=b', 'a=%3F&b=%26', 'next=/x', 'a=?', '?',
                          'a=b?c=d&e', '&', '=', 'a=b=c', '/?/'):
                for code in (None, 301, 302, 307):
                    yield '', path, query, code
    return gen


# -- aborting ----------------------------------------------------------------

CODES = (400, 401, 403, 404, 405, 406, 408, 409, 410, 411, 412, 413, 414, 415,
         416, 417, 418, 422, 428, 429, 431, 500, 501, 502, 503, 504, 505)


NAMES = dict(zip(CODES, (
    'BadRequest Unauthorized Forbidden NotFound MethodNotAllowed '
    'NotAcceptable RequestTimeout Conflict Gone LengthRequired '
    'PreconditionFailed RequestEntityTooLarge RequestURITooLarge '
    'UnsupportedMediaType RequestedRangeNotSatisfiable ExpectationFailed '
    'ImATeapot UnprocessableEntity PreconditionRequired TooManyRequests '
    'RequestHeaderFieldsTooLarge InternalServerError NotImplemented '
    'BadGateway ServiceUnavailable GatewayTimeout '
    'HTTPVersionNotSupported').split()))

PHRASES = {
    400: 'Bad Request',
    401: 'Unauthorized',
    403: 'Forbidden',
    404: 'Not Found',
    405: 'Method Not Allowed',
    406: 'Not Acceptable',
    408: 'Request Timeout',
    409: 'Conflict',
    410: 'Gone',
    411: 'Length Required',
    412: 'Precondition Failed',
    413: 'Request Entity Too Large',
    414: 'Request URI Too Long',
    415: 'Unsupported Media Type',
    416: 'Requested Range Not Satisfiable',
    417: 'Expectation Failed',
    418: "I'm a teapot",
    422: 'Unprocessable Entity',
    428: 'Precondition Required',
    429: 'Too Many Requests',
    431: 'Request Header Fields Too Large',
    500: 'Internal Server Error',
    501: 'Not Implemented',
    502: 'Bad Gateway',
    503: 'Service Unavailable',
    504: 'Gateway Timeout',
    505: 'HTTP Version Not Supported',
}


def run_abort(code, cx):
    marker = object()
    try:
        exceptions.abort(code)
    except exceptions.HTTPException as e:
        expect(code in CODES, 'an exception for {}', code)
        same(e.code, code, 'code')
        same(type(e).__name__, NAMES[code], 'class')
        expect(e.name == exceptions.HTTP_STATUS_CODES[code], 'name')
        same(e.name.lower().replace('-', ' '),
             PHRASES[code].lower().replace('-', ' '), 'phrase')
        expect(str(code) in str(e) and e.name in str(e), 'text {}', e)
        expect(e.description, 'description')
        cx.outcome(e.name)
    except LookupError:
        expect(code not in CODES, 'no exception for {}', code)
        cx.outcome('none')
    if code in CODES and code != 405:
        try:
            exceptions.abort(code, 'because')
        except exceptions.HTTPException as e:
            same((e.code, e.description), (code, 'because'), 'exception')
            same(e.response, None, 'response')
        try:
            exceptions.abort(code, description='', response=marker)
        except exceptions.HTTPException as e:
            same((e.code, e.description), (code, ''), 'exception')
            expect(e.response is marker, 'response')
        try:
            exceptions.abort(code, 'because', marker)
        except exceptions.HTTPException as e:
            same((e.code, e.description), (code, 'because'), 'exception')
            expect(e.response is marker, 'response')
    if code == 405:
        for methods in (None, [], ['GET'], {'GET', 'PUT'}):
            for args in ((), ('because',)):
                try:
                    exceptions.abort(code, methods, *args)
                except exceptions.MethodNotAllowed as e:
                    same(e.valid_methods, methods, 'valid methods')
                    same((e.description,) if args else (), args, 'why')
    # an aborter of one's own is nobody else's
    for own in (exceptions.Aborter(extra={code: KeyError}),
                exceptions.Aborter({code: KeyError}),
                exceptions.Aborter({code: ValueError}, {code: KeyError})):
        for args in ((marker,), (marker, 1), ()):
            try:
                own(code, *args)
            except KeyError as e:
                expect(e.args == args, 'arguments')
            else:
                expect(False, 'nothing raised')
    try:
        exceptions.Aborter({code: KeyError})(code + 1)
    except LookupError as e:
        expect(not isinstance(e, KeyError), 'the wrong error')
    try:
        exceptions.abort(code)
    except exceptions.HTTPException as e:
        same(e.code, code, 'code')
    except LookupError as e:
        expect(not isinstance(e, KeyError), 'the aborter was changed')
        expect(code not in CODES, 'no exception for {}', code)
    response = Response('x', status=code if code else 200)
    try:
        exceptions.abort(response)
    except exceptions.HTTPException as e:
        expect(e.response is response, 'response')
    else:
        expect(False, 'nothing raised')
    cx.step()
    cx.state(code)


def run_wrap(case, cx):
    base, other = case
    cls = getattr(exceptions, base).wrap(other_of(other))
    e = cls('argument')
    expect(isinstance(e, getattr(exceptions, base)), 'class')
    expect(isinstance(e, other_of(other)), 'class')
    same(e.code, getattr(exceptions, base).code, 'code')
    same(e.args, ('argument',), 'arguments')
    cx.step()
    cx.outcome(case)
    cx.state(case)


def other_of(name):
    return {'KeyError': KeyError, 'ValueError': ValueError,
            'OSError': OSError}[name]


check = Check('C24', [
    Space('file names', run_filename, filenames(4), filenames(6),
          chunk=2000),
    Space('redirects', run_redirect, redirects(3), redirects(4)),
    Space('slashes', run_slash, slashes(3), slashes(5)),
    Space('abort', run_abort, lambda: iter(range(0, 1000))),
    Space('wrapped', run_wrap, lambda: itertools.product(
        ('BadRequest', 'NotFound', 'Conflict'),
        ('KeyError', 'ValueError', 'OSError'))),
], bounds='file names: every character of Unicode inside a name and every '
   'name of up to 4 (thorough 6) of 16 characters; redirects: every location '
   'of up to 3 (4) of 21 tokens; slashes: every path of up to 3 (5) of 14 '
   'tokens; abort: every code below 1000',
   assumptions=['POSIX file names', 'no empty segments in a path that gets '
                'a slash'])
