"""C19: reading the body of a request, and files."""
import io
import itertools
import os
import shutil
import tempfile

from verktyg.exceptions import BadRequest, ClientDisconnected
from verktyg.http import FileStorage, Headers
from verktyg.requests import Request
from verktyg.wsgi import (
    FileWrapper, LimitedStream, get_content_length, get_input_stream,
    make_chunk_iter, make_line_iter, wrap_file,
)

from mc.core import Check, Space, caught, expect, fail, same, strings, words
from mc.wsgi_client import environ


class Wire(io.RawIOBase):
    """The connection to a client.  Reading past what the client has promised
    to send blocks forever."""

    def __init__(self, data, promised, broken=None):
        self.data = data
        self.promised = promised
        self.broken = broken        # fails once this much has been read
        self.at = 0

    def _take(self, size, line):
        if size is None or size < 0 or self.at + size > self.promised:
            fail('would have blocked: read({}) at {} of {}', size, self.at,
                 self.promised)
        if self.broken is not None and self.at + size > self.broken:
            raise OSError('connection reset')
        end = self.at + size
        if line:
            index = self.data.find(b'\n', self.at, end)
            if index >= 0:
                end = index + 1
        chunk = self.data[self.at:end]
        self.at += len(chunk)
        return chunk

    def read(self, size=-1):
        return self._take(size, False)

    def readline(self, size=-1):
        return self._take(size, True)


def next_line(data):
    index = data.find(b'\n')
    return data if index < 0 else data[:index + 1]


READS = [('read', None), ('read', -1), ('read', 0), ('read', 1), ('read', 2),
         ('read', 5), ('read', 100), ('readline', None), ('readline', -1),
         ('readline', 0), ('readline', 1), ('readline', 3),
         ('readline', 100),
         ('readlines', None), ('readlines', -1), ('readlines', 3),
         ('readlines', 1),
         ('next', None), ('exhaust', None), ('exhaust', 1), ('exhaust', 2),
         ('list', None)]


def run_limited(case, cx):
    data, limit, history = case
    # what follows belongs to the next request
    wire = Wire(data + b'GET / HTTP', limit)
    stream = LimitedStream(wire, limit)
    content = data[:limit]
    at = 0
    for name, size in history:
        left = content[at:]
        if name == 'read':
            got = stream.read() if size is None else stream.read(size)
            want = left if size is None or size < 0 else left[:size]
            same(got, want, 'read(%r)' % size)
            at += len(want)
        elif name == 'readline':
            got = stream.readline() if size is None else stream.readline(size)
            want = next_line(
                left if size is None or size < 0 else left[:size])
            same(got, want, 'readline(%r)' % size)
            at += len(want)
        elif name == 'readlines':
            got = stream.readlines() if size is None else (
                stream.readlines(size))
            joined = b''.join(got)
            expect(left.startswith(joined), 'readlines gave {!r}', got)
            if size is None or size < 0:
                same(got, left.splitlines(True), 'readlines')
            else:
                expect(len(joined) >= min(size, len(left)),
                       'readlines stopped early: {!r}', got)
            expect(all(b'\n' not in line[:-1] and line for line in got),
                   'lines {!r}', got)
            at += len(joined)
        elif name == 'next':
            kind, got = caught(next, stream)
            if left:
                same((kind, got), ('ok', next_line(left)), 'next')
                at += len(got)
            else:
                same((kind, got), ('raised', 'StopIteration'), 'next')
        elif name == 'list':
            same(list(stream), left.splitlines(True), 'iteration')
            at = len(content)
        elif name == 'exhaust':
            stream.exhaust() if size is None else stream.exhaust(size)
            at = len(content)
        same(stream.tell(), at, 'tell')
        same(stream.is_exhausted, at >= limit, 'is_exhausted')
        same(wire.at, at, 'consumed')
        cx.step()
        cx.state((data, limit, at))
    cx.outcome((at, len(history)))


def limiteds(bodies, depth):
    def gen():
        for data in bodies:
            for limit in sorted({0, 1, len(data) - 1, len(data)}):
                if 0 <= limit <= len(data):
                    for history in words(READS, depth):
                        yield data, limit, history
    return gen


BODIES = [b'', b'a', b'ab\ncd', b'\n\nx', b'abcdefgh\nij\n', b'a\r\nb\r\n']


def run_broken(case, cx):
    """A client that goes away is never mistaken for the end of the data."""
    data, limit, present, how, history = case
    if how == 'short':
        wire = Wire(data[:present], limit)
    else:
        wire = Wire(data, limit, broken=present)
    stream = LimitedStream(wire, limit)
    at = 0
    for name, size in history:
        left = data[at:limit]
        try:
            if name == 'read':
                got = stream.read(size)
                want = left if size is None or size < 0 else left[:size]
                same(got, want, 'read')
            elif name == 'readline':
                got = stream.readline(size)
                expect(left.startswith(got), 'readline')
                # an incomplete last line cannot be told from a short read
                if how == 'error':
                    same(got, next_line(left if size is None or size < 0
                                        else left[:size]), 'readline')
            elif name == 'readlines':
                got = b''.join(stream.readlines(size))
                expect(left.startswith(got), 'readlines')
                if size is None or size < 0:
                    same(got, left, 'readlines')
            elif name == 'next':
                try:
                    got = next(stream)
                except StopIteration:
                    same(left, b'', 'StopIteration')
                    got = b''
                expect(left.startswith(got), 'next')
            elif name == 'list':
                got = b''.join(stream)
                same(got, left, 'iteration')
            elif name == 'exhaust':
                if size is None:
                    stream.exhaust()
                else:
                    stream.exhaust(size)
                got = left
        except ClientDisconnected as e:
            expect(isinstance(e, BadRequest), 'class of the error')
            expect(present < limit, 'disconnected without reason')
            cx.outcome('disconnected')
            cx.state((data, limit, present, at))
            return
        at += len(got)
        expect(at <= present, 'made up data: {} of {}', at, present)
        cx.step()
    cx.outcome('complete' if at == limit else 'partial')
    cx.state((data, limit, present, at))


class Hooked(LimitedStream):
    """Subclasses say what happens at the end and without a client"""
    at_end = gone = b''
    asked = 0

    def on_exhausted(self):
        return self.at_end

    def on_disconnect(self):
        self.asked += 1
        if self.asked > 50:
            fail('never comes to an end')
        return self.gone


def run_hooked(case, cx):
    data, present, how, at_end, gone, history = case
    limit = len(data)
    if how == 'short':
        wire = Wire(data[:present], limit)
    else:
        wire = Wire(data, limit, broken=present)
    stream = Hooked(wire, limit)
    stream.at_end, stream.gone = at_end, gone
    at = 0
    for name, size in history:
        left = data[at:limit]
        if size is not None and size >= 0:
            left = left[:size]
        if name == 'readline':
            left = next_line(left)
        if name in ('read', 'readline'):
            got = getattr(stream, name)(size)
            if at >= limit:
                want = at_end
            elif how == 'short' and name == 'readline':
                # the start of a line, until there is nothing at all
                want = left[:max(present - at, 0)]
                at += len(want)
                if left and not want:
                    want = gone
            else:
                # an error spoils the whole of what was asked for
                asked = limit - at if size is None or size < 0 else (
                    min(size, limit - at))
                if at + asked > present:
                    same(got, gone, '%s(%r) at %d' % (name, size, at))
                    cx.outcome('gone')
                    return
                want = left
                at += len(want)
            same(got, want, '%s(%r)' % (name, size))
            if got == gone and left and at < limit and want == gone:
                cx.outcome('gone')
                return
        else:
            # whatever it gives, it comes to an end with what there was
            got = b''.join(
                stream.readlines(size) if name == 'readlines' else stream)
            expect(data[at:present].startswith(got), '{}: {!r}', name, got)
            at += len(got)
        same(stream.tell(), at, 'tell')
        cx.step()
        cx.state((data, present, at))
    cx.outcome(at == limit)


def hooked(depth):
    def gen():
        reads = [r for r in READS if r[0] in (
            'read', 'readline', 'readlines', 'list')]
        for data in (b'abcd\nef', b'a\n\nb'):
            for present in range(len(data) + 1):
                for how in ('short', 'error'):
                    for history in words(reads, depth, 1):
                        yield data, present, how, b'', b'', history
                        if all(r[0] in ('read', 'readline')
                               for r in history):
                            yield (data, present, how, b'<end>', b'<gone>',
                                   history)
    return gen


def brokens(depth):
    def gen():
        for data in (b'abcd\nef', b'a\nb\nc'):
            limit = len(data)
            for present in range(limit):
                for how in ('short', 'error'):
                    for history in words(READS, depth, 1):
                        yield data, limit, present, how, history
    return gen


# -- lines and chunks --------------------------------------------------------

def split_lines(data):
    """Split after \\n, \\r\\n and \\r"""
    result, current = [], data[:0]
    cr, lf = (b'\r', b'\n') if isinstance(data, bytes) else ('\r', '\n')
    index = 0
    while index < len(data):
        char = data[index:index + 1]
        current += char
        index += 1
        if char == cr and data[index:index + 1] == lf:
            current += lf
            index += 1
            char = lf
        if char in (cr, lf):
            result.append(current)
            current = data[:0]
    if current:
        result.append(current)
    return result


def sources(data, cuts):
    """Every way to hand the data over"""
    for size in (1, 2, 3, 1024):
        yield 'limit', lambda: (Wire(data + b'NEXT', len(data)),
                                {'limit': len(data), 'buffer_size': size})
        yield 'limited', lambda: (
            LimitedStream(Wire(data + b'NEXT', len(data)), len(data)),
            {'buffer_size': size})
        yield 'file', lambda: (io.BytesIO(data), {'buffer_size': size})
        yield 'slow file', lambda: (Slow(data), {'buffer_size': size})
    yield 'pieces', lambda: (iter(cuts), {})
    yield 'list', lambda: (list(cuts), {})


class Slow(io.BytesIO):
    """Gives less than it is asked for, such as a pipe."""
    def read(self, size=-1):
        at = self.tell()
        return super().read(min(size, at % 3 + 1))

    def readline(self, size=-1):
        at = self.tell()
        return super().readline(min(size, at % 3 + 1))


def cut(data, mask):
    pieces, start = [], 0
    for index in range(1, len(data)):
        if mask & (1 << (index - 1)):
            pieces.append(data[start:index])
            start = index
    pieces.append(data[start:])
    return pieces


def run_lines(case, cx):
    text, mask = case
    data = text.encode('latin1')
    want = split_lines(data)
    if mask == 0:
        for name, make in sources(data, [data]):
            stream, kwargs = make()
            same(list(make_line_iter(stream, **kwargs)), want,
                 'lines of a %s' % name)
            cx.step()
        for end in range(len(data)):
            same(list(make_line_iter(io.BytesIO(data), limit=end)),
                 split_lines(data[:end]), 'lines up to a limit')
    pieces = cut(data, mask)
    same(list(make_line_iter(iter(pieces))), want, 'lines of %r' % pieces)
    same(list(make_line_iter([b''] + pieces + [b''])), want, 'empty pieces')
    pieces = cut(text, mask)
    same(list(make_line_iter(iter(pieces))), split_lines(text),
         'text lines of %r' % pieces)
    cx.step()
    cx.state(case)
    cx.outcome(len(want))


def lines(width):
    def gen():
        for text in strings('a\r\n\x0b', width):
            for mask in range(1 << max(0, len(text) - 1)):
                yield text, mask
    return gen


def run_chunks(case, cx):
    text, separator, mask = case
    data, sep = text.encode('latin1'), separator.encode('latin1')
    want = data.split(sep) if data else []
    if mask == 0:
        for name, make in sources(data, [data]):
            stream, kwargs = make()
            same(list(make_chunk_iter(stream, sep, **kwargs)), want,
                 'chunks of a %s' % name)
            cx.step()
    pieces = cut(data, mask)
    same(list(make_chunk_iter(iter(pieces), sep)), want,
         'chunks of %r' % pieces)
    pieces = cut(text, mask)
    same(list(make_chunk_iter(iter(pieces), separator)),
         [w.decode('latin1') for w in want], 'text chunks of %r' % pieces)
    cx.step()
    cx.state(case)
    cx.outcome(len(want))


def chunks(width):
    def gen():
        for text in strings('a-b', width):
            for separator in ('-', '--', '-a', 'ab-', '---', '-a-b',
                              'abab-', 'bbbb'):
                for mask in range(1 << max(0, len(text) - 1)):
                    yield text, separator, mask
    return gen


def run_refused(value, cx):
    """A string is not a stream"""
    for function in (lambda v: list(make_line_iter(v)),
                     lambda v: list(make_chunk_iter(v, '-'))):
        same(caught(function, value), ('raised', 'TypeError'), 'string')
    same(caught(lambda v: list(make_line_iter(v)), value.encode()),
         ('raised', 'TypeError'), 'bytes')
    cx.step()
    cx.state(value)
    cx.outcome(value)


def run_large(case, cx):
    """However much there is"""
    size, how = case
    data = b'0123456789abcde\n' * (size // 16) + b'x' * (size % 16)
    wire = Wire(data + b'GET / HTTP', size)
    if how in ('data', 'text'):
        env = environ(method='POST')
        env['CONTENT_LENGTH'] = str(size)
        env['wsgi.input'] = wire
        got = Request(env).get_data(as_text=how == 'text')
        if how == 'text':
            got = got.encode('ascii')
    else:
        stream = LimitedStream(wire, size)
        if how == 'read':
            got = stream.read()
        elif how == 'sized':
            got = stream.read(size)
        elif how == 'lines':
            got = b''.join(stream.readlines())
        elif how == 'iterate':
            got = b''.join(stream)
        elif how == 'line iter':
            got = b''.join(make_line_iter(stream))
        elif how == 'chunk iter':
            got = b'\n'.join(make_chunk_iter(stream, b'\n'))
        elif how == 'wrapper':
            got = b''.join(FileWrapper(stream))
        elif how == 'exhaust':
            stream.exhaust()
            got = data
        expect(stream.is_exhausted, 'not exhausted')
    same(len(got), size, 'length of the body')
    expect(got == data, 'body')
    same(wire.at, size, 'consumed')
    cx.step()
    cx.state(case)
    cx.outcome(how)


def larges():
    return itertools.product(
        (65535, 65536, 65537, 131073, 1048577, 5000001),
        ('read', 'sized', 'lines', 'iterate', 'line iter', 'chunk iter',
         'wrapper', 'exhaust', 'data', 'text'))


# -- the body of a request ---------------------------------------------------

BODY_OPS = [('data', True, False), ('data', False, False),
            ('data', True, True), ('read', 2), ('read', None),
            ('readline', None), ('length',), ('terminated',)]


def run_body(case, cx):
    body, length, terminated, history = case
    env = environ(method='POST')
    env.pop('CONTENT_LENGTH', None)
    value = None
    if length == 'exact':
        value = len(body)
    elif length == 'less':
        value = max(0, len(body) - 2)
    elif length == 'negative':
        env['CONTENT_LENGTH'] = '-5'
        value = 0
    elif length == 'garbage':
        env['CONTENT_LENGTH'] = 'x'
    if length in ('exact', 'less'):
        env['CONTENT_LENGTH'] = str(value)
    if terminated:
        env['wsgi.input_terminated'] = True
        env['wsgi.input'] = io.BytesIO(body)
        content = body
    else:
        env['wsgi.input'] = Wire(body + b'GET /', value or 0)
        content = body[:value] if value is not None else b''
    same(get_content_length(env), value, 'get_content_length')
    req = Request(env)
    errors = ('replace', 'ignore')[len(history) % 2]
    at = 0
    cached = None
    for op in history:
        if op[0] == 'data':
            _, cache, as_text = op
            req.encoding_errors = errors
            got = req.get_data(cache=cache, as_text=as_text)
            if cached is None:
                want = content[at:]
                at = len(content)
                if cache:
                    cached = want
            else:
                want = cached
            same(got, want.decode('utf-8', errors) if as_text else want,
                 'get_data')
        elif op[0] in ('read', 'readline'):
            left = content[at:]
            if op[0] == 'read':
                got = req.stream.read() if op[1] is None else (
                    req.stream.read(op[1]))
                want = left if op[1] is None else left[:op[1]]
            else:
                got = req.stream.readline()
                want = next_line(left)
            same(got, want, op[0])
            at += len(want)
        elif op[0] == 'length':
            if length == 'exact':
                same(req.content_length, value, 'content_length')
            expect(req.stream is req.stream, 'stream changed')
        cx.step()
        cx.state((body, length, terminated, at, cached))
    stream = get_input_stream(env)
    if value is not None and not terminated:
        env['wsgi.input'] = Wire(body + b'GET /', value)
        unsafe = get_input_stream(env, safe_fallback=False)
        same(unsafe.read(), content, 'body read directly')
        same(unsafe.read(), b'', 'read past the end')
    if value is None and not terminated:
        same(stream.read(), b'', 'fallback')
        expect(get_input_stream(env, safe_fallback=False)
               is env['wsgi.input'], 'unsafe fallback')
    if terminated:
        expect(stream is env['wsgi.input'], 'terminated input')
    cx.outcome((length, terminated, cached is None))


def bodies(depth):
    def gen():
        for body in (b'', b'ab', b'hello\nw\xc3\xb6rld', b'\xff\n\xfe'):
            for length in ('exact', 'less', 'none', 'negative', 'garbage'):
                for terminated in (False, True):
                    for history in words(BODY_OPS, depth):
                        yield body, length, terminated, history
    return gen


# -- files -------------------------------------------------------------------

class File(io.BytesIO):
    closes = 0

    def close(self):
        self.closes += 1


class Broken(io.BytesIO):
    """Fails after everything has been read"""
    def read(self, size=-1):
        got = super().read(size)
        if not got:
            raise OSError('gone')
        return got


def run_wrapper(case, cx):
    data, size, stop = case
    source = File(data)
    wrapper = wrap_file({}, source, size)
    same(type(wrapper), FileWrapper, 'class')
    got = list(itertools.islice(wrapper, stop))
    blocks = [data[i:i + size] for i in range(0, len(data), size)]
    same(got, blocks[:stop], 'blocks')
    if stop is None:
        same(list(wrapper), [], 'after the end')
        same(b''.join(FileWrapper(Slow(data), size)), data, 'slow file')
    same(source.closes, 0, 'closed early')
    wrapper.close()
    same(source.closes, 1, 'closed')
    wrapped = wrap_file({'wsgi.file_wrapper': lambda f, n: (f, n)}, source,
                        size)
    same(wrapped, (source, size), 'wrapper of the server')

    class Simple:
        def read(self, n):
            return b''
    FileWrapper(Simple()).close()
    cx.step()
    cx.state(case)
    cx.outcome(len(got))


class Pieces:
    def __init__(self):
        self.got = []

    def write(self, data):
        self.got.append(data)
        return len(data)


class Unwilling(io.BytesIO):
    error = None
    asked = 0

    def close(self):
        self.asked += 1
        if self.error is not None:
            raise self.error('cannot be closed')


def run_storage(case, cx):
    data, filename, content_type, length, via, size = case
    source = File(data)
    headers = Headers([('X-Other', '1')]) if via == 'headers' else None
    storage = FileStorage(
        source, filename=filename, name='field', content_type=content_type,
        content_length=length, headers=headers)
    same(bool(storage), bool(filename), 'truth')
    same((storage.filename, storage.name), (filename, 'field'), 'names')
    same(storage.content_length, length or 0, 'content_length')
    same(storage.content_type, content_type, 'content_type')
    if content_type:
        same(storage.mimetype, content_type.split(';')[0].strip().lower(),
             'mimetype')
        same(storage.mimetype_params,
             {'charset': 'utf-8'} if 'charset' in content_type else {},
             'mimetype_params')
    if headers is not None:
        same(storage.headers['x-other'], '1', 'headers')
    target = io.BytesIO()
    storage.save(target, size)
    same(target.getvalue(), data, 'saved')
    storage.seek(0)
    same(list(storage), data.splitlines(True), 'iteration')
    for skip in (1, len(data)):
        # what has been read already is not saved again
        storage.seek(0)
        same(storage.read(skip), data[:skip], 'read')
        target = io.BytesIO(b'head')
        target.seek(4)
        storage.save(target, size)
        same(target.getvalue(), b'head' + data[skip:], 'rest saved')
        expect(not target.closed, 'closed the file it was given')
    storage.seek(0)
    same(storage.read(), data, 'read')
    folder = tempfile.mkdtemp(prefix='verif-c19-')
    try:
        path = os.path.join(folder, 'f')
        storage.seek(0)
        storage.save(path, size)
        with open(path, 'rb') as f:
            same(f.read(), data, 'saved to a path')
        # a file that is there already is replaced
        for before in (b'', b'old', data + b'longer'):
            with open(path, 'wb') as f:
                f.write(before)
            storage.seek(0)
            storage.save(path, size)
            with open(path, 'rb') as f:
                same(f.read(), data, 'saved over %r' % before[:20])
        # into an open file, which stays open
        with open(path, 'wb') as f:
            f.write(b'head')
            storage.seek(0)
            storage.save(f, size)
            expect(not f.closed, 'closed the file it was given')
            f.write(b'tail')
        with open(path, 'rb') as f:
            same(f.read(), b'head' + data + b'tail', 'saved to a file')
        # in blocks of the size asked for
        pieces = Pieces()
        storage.seek(0)
        storage.save(pieces, size)
        same(b''.join(pieces.got), data, 'saved in pieces')
        same([len(p) for p in pieces.got if p], [
            len(data[i:i + size]) for i in range(0, len(data), size)],
            'size of the pieces')
        with open(path, 'rb') as f:
            same(FileStorage(f).filename, path, 'name of a file')
        for given, name in (
            ('<fdopen>', None), ('<stderr>', None), ('<a', '<a'),
            ('a>', 'a>'), ('a<b>', 'a<b>'), ('<', '<'), (b'<fdopen>', None),
            (b'a', 'a'), ('', ''), (None, None), ('a b', 'a b'),
            ('\u2603', '\u2603'), ('\u2603'.encode(), '\u2603'),
        ):
            named = File(data)
            named.name = given
            if given != '<':
                same(FileStorage(named).filename, name,
                     'name of a file called %r' % (given,))
            same(FileStorage(named, filename='own').filename, 'own', 'name')
        for error in (OSError, ValueError, RuntimeError, AttributeError):
            unwilling = Unwilling(data)
            unwilling.error = error
            FileStorage(unwilling).close()
            same(unwilling.asked, 1, 'attempts to close')
        broken = FileStorage(Broken(data), filename=filename)
        opened = set(os.listdir('/proc/self/fd'))
        try:
            broken.save(os.path.join(folder, 'g'), size)
        except OSError as e:
            expect(str(e) == 'gone', 'error {!r}', e)
            same(len(os.listdir('/proc/self/fd')), len(opened),
                 'open files after a failed save')
        else:
            fail('the failure was swallowed')
    finally:
        shutil.rmtree(folder)
    storage.close()
    same(source.closes, 1, 'closed')
    cx.step()
    cx.state(case)
    cx.outcome((filename, via))


def storages():
    yield b'line\n' * 30000, None, None, None, 'plain', 1
    yield from itertools.product(
        (b'line\n' * 30000,), (None, 'f.txt'), (None, 'a/b'), (None, 12),
        ('plain', 'headers'), (1000, 16384))
    yield from itertools.product(
        (b'', b'a', b'ab\ncd\n', b'x' * 10),
        (None, '', 'f.txt'),
        (None, 'text/HTML; charset=utf-8', 'a/b'), (None, 0, 12),
        ('plain', 'headers'), (1, 4, 16384))


check = Check('C19', [
    Space('limited stream', run_limited, limiteds(BODIES, 3),
          limiteds(BODIES, 4), chunk=400,
          rule='every sequence of reads against what was sent'),
    Space('disconnects', run_broken, brokens(2), brokens(3), chunk=400,
          rule='the client goes away after every byte'),
    Space('own hooks', run_hooked, hooked(2), hooked(3), chunk=400),
    Space('lines', run_lines, lines(5), lines(7),
          rule='every text cut at every combination of places'),
    Space('chunks', run_chunks, chunks(6), chunks(7)),
    Space('strings', run_refused, lambda: iter(['', 'a', 'a\nb'])),
    Space('large bodies', run_large, larges, chunk=4),
    Space('request body', run_body, bodies(3), bodies(4)),
    Space('file wrapper', run_wrapper, lambda: itertools.product(
        [b'x' * n for n in range(7)], (1, 2, 3, 100),
        (None, 0, 1, 2))),
    Space('uploads', run_storage, storages),
], bounds='bodies of up to 12 bytes, sequences of up to 4 reads, every '
    'disconnection point, every way to cut up to 7 characters',
    assumptions=['the input of the server blocks until all requested bytes '
                 'or the end have been read'])
