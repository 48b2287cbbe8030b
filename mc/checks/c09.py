"""C09: every request and response is closed exactly once, whatever ends it.

The fault points are enumerated: the handler, the exception handler, the body
at every chunk, the callbacks themselves and the client, which can go away
before the first chunk, after any chunk or not at all.
"""
import itertools

from verktyg.application import ApplicationBuilder
from verktyg.datastructures import MultiDict
from verktyg.exceptions import NotFound
from verktyg.requests import Request
from verktyg.responses import BaseResponse, Response
from verktyg.routing import Route
from verktyg.wsgi import ClosingIterator

from mc.core import Check, Space, expect, same
from mc.wsgi_client import environ


class Boom(Exception):
    pass


class CallbackBoom(Exception):
    pass


class Log:
    def __init__(self):
        self.events = []

    def __call__(self, event):
        self.events.append(event)

    def count(self, event):
        return self.events.count(event)


class ClosableIterator:
    """iterator with a close method"""

    def __init__(self, log, items, error_at):
        self.log, self.items, self.error_at = log, list(items), error_at
        self.pos = 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.error_at is not None and self.pos == self.error_at:
            raise Boom()
        if self.pos >= len(self.items):
            raise StopIteration()
        self.pos += 1
        return self.items[self.pos - 1]

    def close(self):
        self.log('body')


class ClosableIterable:
    """iterable with a close method which is not its own iterator"""

    def __init__(self, log, items, error_at):
        self.log, self.items, self.error_at = log, list(items), error_at

    def __iter__(self):
        return Plain(self.items, self.error_at)

    def close(self):
        self.log('body')


class Plain:
    """iterator without a close method"""

    def __init__(self, items, error_at):
        self.items, self.error_at, self.pos = list(items), error_at, 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.error_at is not None and self.pos == self.error_at:
            raise Boom()
        if self.pos >= len(self.items):
            raise StopIteration()
        self.pos += 1
        return self.items[self.pos - 1]


class ClosableList(list):
    """sequence with a close method"""
    log = None

    def close(self):
        self.log('body')


CLOSABLE = {'iterator', 'iterable', 'clist', 'file'}


def make_body(kind, n, error_at, log):
    items = [('chunk%d' % i).encode('ascii') for i in range(n)]
    if kind == 'text':
        return b''.join(items)
    if kind == 'list':
        return items
    if kind == 'strings':
        return [i.decode('ascii') for i in items]
    if kind == 'tuple':
        return tuple(items)
    if kind == 'clist':
        body = ClosableList(items)
        body.log = log
        return body
    if kind == 'generator':
        def generator():
            log('started')
            try:
                for i, item in enumerate(items):
                    if i == error_at:
                        raise Boom()
                    yield item
                if error_at == len(items):
                    raise Boom()
            finally:
                log('finished')
        return generator()
    if kind == 'iterator':
        return ClosableIterator(log, items, error_at)
    if kind == 'iterable':
        return ClosableIterable(log, items, error_at)
    if kind == 'plain':
        return Plain(items, error_at)
    raise AssertionError(kind)


def expected_chunks(kind, n):
    items = [('chunk%d' % i).encode('ascii') for i in range(n)]
    return [b''.join(items)] if kind == 'text' else items


def build(spec, log, middleware=()):
    (handler, kind, n, error_at, passthrough, prepare, status, nreq, nres,
     raising) = spec
    builder = ApplicationBuilder()
    builder.add_routes(Route('/', endpoint='index'))

    def callback(name, boom=False):
        def run():
            log(name)
            if boom:
                raise CallbackBoom(name)
        return run

    def on_request(req):
        log('handled')
        for i in range(nreq):
            f = callback('req%d' % i, raising == 'req' and i == nreq - 1)
            expect(req.call_on_close(f) is f, 'call_on_close lost function')

    def respond():
        response = Response(
            make_body(kind, n, error_at, log), status=status,
            direct_passthrough=passthrough)
        for i in range(nres):
            response.call_on_close(
                callback('res%d' % i, raising == 'res' and i == nres - 1))
        if prepare == 'sequence':
            response.make_sequence()
        elif prepare == 'data':
            response.get_data()
        elif prepare == 'freeze':
            response.freeze()
        elif prepare == 'etag':
            response.add_etag()
        elif prepare == 'twice':
            response.make_sequence()
            response.get_data()
            response.freeze()
        return response

    @builder.expose('index')
    def index(app, req):
        on_request(req)
        if handler == 'raise':
            raise Boom()
        if handler == 'http':
            raise NotFound()
        return respond()

    @builder.exception_handler(NotFound)
    def not_found(app, req, exc_type, exc_value, tb):
        return respond()

    if handler == 'badhandler':
        @builder.exception_handler(KeyError)
        def bad(app, req, exc_type, exc_value, tb):
            raise Boom()

        @builder.expose('index2', route='/bad')
        def index2(app, req):
            on_request(req)
            raise KeyError()

    for m in middleware:
        builder.add_middleware(m)
    return builder('http://example.com')


def run_one(case, cx):
    spec, method, stop, wrap = case
    (handler, kind, n, error_at, passthrough, prepare, status, nreq, nres,
     raising) = spec
    log = Log()
    middleware = []
    if wrap:
        def closing(app):
            def wrapped(env, sr):
                return ClosingIterator(
                    app(env, sr),
                    [lambda: log('mw0'), lambda: log('mw1')]
                    if wrap == 'list' else lambda: log('mw0'))
            return wrapped
        middleware.append(closing)
    app = build(spec, log, middleware)
    path = '/bad' if handler == 'badhandler' else '/'
    env = environ(path, method=method)
    started = []

    def start_response(st, headers, exc_info=None):
        started.append((st, headers))

    chunks, error = [], None
    iterable = app(env, start_response)
    iterated = False
    try:
        if stop != 0:
            for chunk in iterable:
                iterated = True
                cx.step()
                expect(
                    not any(e[:3] in ('req', 'res') for e in log.events),
                    'closed while still sending: {}', log.events)
                if prepare != 'freeze' and prepare != 'twice':
                    expect(log.count('body') == 0, 'body closed early')
                chunks.append(chunk)
                if stop is not None and len(chunks) >= stop:
                    break
            iterated = True
    except Exception as e:
        error, iterated = e, True
    finally:
        try:
            if hasattr(iterable, 'close'):
                iterable.close()
        except Exception as e:
            error = error or e
    cx.step()
    cx.state((case, tuple(log.events)))

    # -- what should have happened
    responds = handler in ('ok', 'http')
    empty = method == 'HEAD' or status in (204, 304, 101)
    want = [] if empty else expected_chunks(kind, n)
    body_error = error_at is not None and not empty
    if body_error:
        want = want[:error_at]
    if not responds:
        want = []
    aborted = stop is not None and len(want) >= stop
    if stop is not None:
        want = want[:stop]
    if kind == 'text' or n == 0 and kind in ('list', 'strings'):
        same(b''.join(chunks), b''.join(want), 'body sent')
    else:
        same(chunks, want, 'chunks sent')

    if not iterated and not log.count('handled'):
        # the client went away before the application was asked for anything
        want_error = None
        for name in ('req0', 'res0', 'body', 'started'):
            expect(log.count(name) == 0, 'ran without being asked: {}',
                   log.events)
    else:
        if responds:
            want_error = Boom if body_error and not aborted else None
        else:
            want_error = Boom
        if raising == 'res' and responds and nres:
            want_error = CallbackBoom
        if raising == 'req' and nreq:
            want_error = CallbackBoom
        for i in range(nreq):
            same(log.count('req%d' % i), 1, 'calls of request callback %d' % i)
        for i in range(nres):
            same(log.count('res%d' % i), 1 if responds else 0,
                 'calls of response callback %d' % i)
        # nothing is promised for what is registered after a callback that
        # raises, which is where buffering puts the close of the body
        if kind in CLOSABLE and responds and not (
                raising == 'res' and prepare):
            same(log.count('body'), 1, 'times the body was closed')
        same(log.count('finished'), log.count('started'),
             'times the body generator was finished')
        expect(log.count('started') <= 1, 'generator restarted')
        order = [e for e in log.events if e[:3] in ('res', 'req')]
        want_order = []
        if responds:
            want_order += ['res%d' % i for i in range(nres)]
        want_order += ['req%d' % i for i in range(nreq)]
        same(order, want_order, 'order of callbacks')
        if responds:
            same(len(started), 1, 'times the response was started')
            same(started[0][0].split(' ')[0], str(status), 'status')
        else:
            same(len(started), 0, 'times a response was started')
    if want_error is None:
        expect(error is None, 'unexpected error {!r}', error)
    else:
        expect(type(error) is want_error, 'error {!r} instead of {}', error,
               want_error.__name__)
    if wrap:
        names = ['mw0', 'mw1'] if wrap == 'list' else ['mw0']
        closed_ok = not (raising and aborted)
        if closed_ok:
            got = [e for e in log.events if e[:2] == 'mw']
            same(got, names, 'middleware callbacks')
            if log.count('handled') and nreq:
                expect(log.events.index('req0') < log.events.index('mw0'),
                       'middleware closed before the application')
    cx.outcome((handler, empty, aborted, type(error).__name__,
                tuple(sorted(set(log.events)))))


def specs(bodies, sizes, statuses, callbacks, raisings, prepares):
    for kind, n in itertools.product(bodies, sizes):
        errors = [None]
        if kind in ('generator', 'iterator', 'iterable', 'plain'):
            errors += list(range(n + 1))
        for error_at in errors:
            for passthrough in (False, True):
                if passthrough and kind in ('text', 'strings'):
                    continue
                for prepare in prepares:
                    if prepare and (error_at is not None or passthrough):
                        continue
                    for status in statuses:
                        for (nreq, nres), raising in itertools.product(
                                callbacks, raisings):
                            if raising == 'req' and not nreq:
                                continue
                            if raising == 'res' and not nres:
                                continue
                            for handler in ('ok', 'http'):
                                yield (handler, kind, n, error_at,
                                       passthrough, prepare, status, nreq,
                                       nres, raising)
    for handler in ('raise', 'badhandler'):
        for (nreq, nres), raising in itertools.product(callbacks, raisings):
            if raising == 'req' and not nreq:
                continue
            yield (handler, 'list', 1, None, False, None, 200, nreq, nres,
                   raising)


BODIES = ['text', 'list', 'strings', 'tuple', 'clist', 'generator',
          'iterator', 'iterable', 'plain']
PREPARES = [None, 'sequence', 'data', 'freeze', 'etag', 'twice']


def single(sizes, statuses, callbacks, raisings):
    def gen():
        for spec in specs(BODIES, sizes, statuses, callbacks, raisings,
                          PREPARES):
            if spec[6] == 304 and spec[5]:
                pass
            n = spec[2]
            for method in ('GET', 'HEAD'):
                for stop in [None, 0] + list(range(1, n + 2)):
                    for wrap in (None, 'list', 'one'):
                        if wrap == 'one' and (spec[5] or spec[9]):
                            continue
                        yield spec, method, stop, wrap
    return gen


# -- several requests at once ------------------------------------------------

def run_interleaved(case, cx):
    """Requests to one application, advanced step by step in every order."""
    kinds, schedule = case
    log = Log()
    builder = ApplicationBuilder()

    class View:
        pass

    @builder.expose('index', route='/<int:n>')
    def index(app, req, n):
        req.call_on_close(lambda: log(('req', n)))
        kind = kinds[n]
        if kind == 'fail':
            raise NotFound()
        body = make_body(
            'generator' if kind != 'iterator' else 'iterator', 2,
            1 if kind == 'error' else None,
            lambda event: log((event, n)))
        response = Response(body, headers=[('X-N', str(n))])
        response.call_on_close(lambda: log(('res', n)))
        return response

    @builder.exception_handler(NotFound)
    def not_found(app, req, t, v, tb):
        n = int(req.path[1:])
        response = Response('x%d' % n, status=404,
                            headers=[('X-N', str(n))])
        response.call_on_close(lambda: log(('res', n)))
        return response

    app = builder('http://example.com')
    iters, chunks, started, done = {}, {}, {}, {}

    def start(n):
        def start_response(status, headers, exc_info=None):
            started.setdefault(n, []).append((status, dict(headers)))
        iters[n] = app(environ('/%d' % n), start_response)
        chunks[n] = []
        done[n] = False

    for n in schedule:
        cx.step()
        if n >= 10:
            m = n - 10
            if m in iters:
                iters[m].close()
                if m in started:
                    same(log.count(('req', m)), 1, 'request %d closed' % m)
                done[m] = True
            continue
        if n not in iters:
            start(n)
            continue
        if done[n]:
            continue
        try:
            chunks[n].append(next(iters[n]))
            same(log.count(('req', n)), 0, 'request %d closed early' % n)
            same(log.count(('res', n)), 0, 'response %d closed early' % n)
        except StopIteration:
            done[n] = 'end'
        except Boom:
            expect(kinds[n] == 'error', 'error in the wrong request')
            done[n] = 'error'
        if done[n]:
            same(log.count(('req', n)), 1, 'request %d closed' % n)
            same(log.count(('res', n)), 1, 'response %d closed' % n)
    for n in iters:
        iters[n].close()
    for n in iters:
        if n in started:
            same(len(started[n]), 1, 'responses started')
            status, headers = started[n][0]
            same(headers['X-N'], str(n), 'response of another request')
            same(status.split()[0], '404' if kinds[n] == 'fail' else '200',
                 'status')
            same(log.count(('req', n)), 1, 'request %d closed' % n)
            same(log.count(('res', n)), 1, 'response %d closed' % n)
            full = ([b'x%d' % n] if kinds[n] == 'fail'
                    else [b'chunk0'] if kinds[n] == 'error'
                    else [b'chunk0', b'chunk1'])
            same(chunks[n], full[:len(chunks[n])], 'chunks of %d' % n)
            if done[n] == 'end':
                same(chunks[n], full, 'chunks of %d' % n)
        else:
            same(log.count(('req', n)), 0, 'request %d never started' % n)
    cx.state((case, tuple(log.events)))
    cx.outcome(tuple(sorted(map(str, done.values()))))


def interleavings(requests, steps):
    def gen():
        kinds = ['ok', 'error', 'iterator', 'fail']
        actions = list(range(requests)) + [10 + i for i in range(requests)]
        for ks in itertools.product(kinds, repeat=requests):
            for n in range(steps + 1):
                for schedule in itertools.product(actions, repeat=n):
                    yield ks, schedule
    return gen


# -- responses used without an application -----------------------------------

def run_standalone(case, cx):
    """A response is a wsgi application itself."""
    kind, n, status, method, prepare, stop, uses_with, cls = case
    log = Log()
    factory = Response if cls == 'full' else BaseResponse
    response = factory(make_body(kind, n, None, log), status=status)
    for i in range(2):
        response.call_on_close(lambda i=i: log('res%d' % i))
    if prepare == 'sequence':
        response.make_sequence()
    elif prepare == 'data':
        response.get_data()
    elif prepare == 'freeze':
        response.freeze()
    env = environ('/', method=method)
    started = []
    iterable = response(env, lambda s, h, e=None: started.append(s))
    same(len(started), 1, 'times the response was started')
    chunks = []
    if uses_with:
        with response:
            for chunk in iterable:
                chunks.append(chunk)
                cx.step()
    else:
        for chunk in iterable:
            cx.step()
            chunks.append(chunk)
            if stop is not None and len(chunks) >= stop:
                break
        same([e for e in log.events if e[:3] == 'res'], [],
             'closed before the server asked for it')
        iterable.close()
    empty = method == 'HEAD' or status in (204, 304, 100)
    want = b'' if empty else b''.join(
        expected_chunks(kind, n)[:stop] if not uses_with
        else expected_chunks(kind, n))
    same(b''.join(chunks), want, 'body')
    same([e for e in log.events if e[:3] == 'res'], ['res0', 'res1'],
         'response callbacks')
    if kind in CLOSABLE:
        same(log.count('body'), 1, 'times the body was closed')
    same(log.count('finished'), log.count('started'), 'generators finished')
    cx.state((case, tuple(log.events)))
    cx.outcome(tuple(log.events))


def standalone(sizes):
    def gen():
        for kind, n, status, method, prepare, uses_with, cls in (
            itertools.product(
                BODIES, sizes, (200, 204, 304, 404, 100), ('GET', 'HEAD'),
                (None, 'sequence', 'data', 'freeze'), (False, True),
                ('full', 'base'))):
            for stop in [None] + (
                    [] if uses_with else list(range(1, n + 1))):
                yield kind, n, status, method, prepare, stop, uses_with, cls
    return gen


# -- callbacks of one object are not those of another ------------------------

class Upload:
    def __init__(self, log, name):
        self.log, self.name = log, name

    def close(self):
        self.log('closed ' + self.name)


def run_separate(case, cx):
    what, first, second, order = case
    log = Log()
    if what == 'iterator':
        # the callbacks of the application are its own
        shared = [lambda: log('shared')]
        objects = [
            ClosingIterator(ClosableIterator(log, [b'x'] * n, None), given)
            for n, given in ((first, shared), (
                second, shared if len(order) < 2 else iter(shared)))]
        for i in order:
            same(list(objects[i]), [b'x'] * (first, second)[i], 'chunks')
            objects[i].close()
            cx.step()
        same(len(shared), 1, 'callbacks in the list of the caller')
        same(log.events, ['body', 'shared'] * len(order), 'callbacks')
    else:
        cls = {'request': Request, 'response': Response}[what]
        env = environ()
        objects = [cls(env) if what == 'request' else cls('x')
                   for _ in range(2)]
        for i, n in enumerate((first, second)):
            for k in range(n):
                objects[i].call_on_close(
                    lambda i=i, k=k: log('%d callback %d' % (i, k)))
        if what == 'request':
            for i, n in enumerate((first, second)):
                # what a form parser would leave behind
                objects[i].__dict__['files'] = MultiDict([
                    ('f', Upload(log, '%d %d' % (i, k))) for k in range(n)])
        done = []
        for i in order:
            if i:
                with objects[i]:
                    same(log.events, done, 'closed early')
            else:
                objects[i].close()
            n = (first, second)[i]
            new = log.events[len(done):]
            same([e for e in new if 'callback' in e],
                 ['%d callback %d' % (i, k) for k in range(n)], 'callbacks')
            if what == 'request':
                same(sorted(e for e in new if 'closed' in e),
                     ['closed %d %d' % (i, k) for k in range(n)], 'uploads')
            done = list(log.events)
            cx.step()
    cx.state((case, tuple(log.events)))
    cx.outcome((what, len(log.events)))


def separates(most):
    def gen():
        for what in ('iterator', 'request', 'response'):
            for first in range(most + 1):
                for second in range(most + 1):
                    for order in ((0,), (1,), (0, 1), (1, 0)):
                        yield what, first, second, order
    return gen


# -- callbacks that are equal are still several ------------------------------

class Same:
    def __init__(self, log):
        self.log = log

    def __eq__(self, other):
        return isinstance(other, Same)

    def __hash__(self):
        return 1

    def __call__(self):
        self.log('same %d' % id(self))


def run_equal(case, cx):
    what, word, early = case
    log = Log()
    callbacks = [Same(log), Same(log), lambda: log('other')]
    names = ['same %d' % id(callbacks[0]), 'same %d' % id(callbacks[1]),
             'other']
    chosen = [callbacks[i] for i in word]
    if what == 'iterator':
        thing = ClosingIterator([b'a', b'b'], chosen)
        next(thing)
    else:
        thing = Request(environ()) if what == 'request' else Response('x')
        for callback in chosen:
            if thing.call_on_close(callback) is not callback:
                fail('call_on_close does not return the function')
    same(log.events, [], 'called early')
    if what == 'response' and early:
        iterable = thing(environ(), lambda s, h, e=None: None)
        same(b''.join(iterable), b'x', 'body')
        iterable.close()
    else:
        thing.close()
    same(log.events, [names[i] for i in word], 'callbacks')
    cx.step()
    cx.state(case)
    cx.outcome(len(word))


def equals(most):
    def gen():
        for what in ('iterator', 'request', 'response'):
            for n in range(most + 1):
                for word in itertools.permutations(range(3), n):
                    for early in (False, True):
                        yield what, word, early
    return gen


# -- many callbacks ----------------------------------------------------------

def run_many(case, cx):
    what, n = case
    log = Log()

    class Part:
        def __init__(self, number):
            self.number = number

        def close(self):
            log('file %d' % self.number)

    def named(i):
        return lambda: log('callback %d' % i)
    callbacks = [named(i) for i in range(n)]
    want = ['callback %d' % i for i in range(n)]
    if what == 'iterator':
        thing = ClosingIterator(iter([b'x']), callbacks)
        next(thing)
    elif what == 'response':
        thing = Response(iter([b'x'] * n))
    else:
        thing = Request(environ())
    if what != 'iterator':
        for callback in callbacks:
            thing.call_on_close(callback)
    if what == 'files':
        thing.files = MultiDict(('f%d' % (i % 7), Part(i))
                                for i in range(n))
        want += ['file %d' % i for i in range(n)]
    same(log.events, [], 'called early')
    if what == 'response':
        iterable = thing(environ(), lambda s, h, e=None: None)
        same(b''.join(iterable), b'x' * n, 'body')
        iterable.close()
    else:
        thing.close()
    same(sorted(log.events), sorted(want), 'what was closed')
    same([e for e in log.events if e[0] == 'c'], want[:n], 'order')
    cx.step()
    cx.state(case)
    cx.outcome(what)


def many():
    return itertools.product(('iterator', 'response', 'request', 'files'),
                             tuple(range(1, 21)) + (33, 65, 129))


check = Check('C09', [
    Space('termination', run_one,
          single((0, 2), (200, 204), [(0, 0), (1, 1), (2, 2)],
                 (None, 'req', 'res')),
          single((0, 1, 2, 3), (200, 204, 304, 404),
                 [(0, 0), (1, 1), (2, 2), (0, 2), (2, 0)],
                 (None, 'req', 'res')),
          rule='every handler outcome, body kind, failing chunk, client '
               'disconnect point and failing callback'),
    Space('interleaved', run_interleaved, interleavings(2, 5),
          interleavings(2, 7),
          rule='all orders in which two requests to one application can be '
               'started, advanced and aborted'),
    Space('standalone', run_standalone, standalone((0, 2)),
          standalone((0, 1, 2, 3)),
          rule='responses called as wsgi applications'),
    Space('equal callbacks', run_equal, equals(3)),
    Space('many callbacks', run_many, many),
    Space('separate objects', run_separate, separates(3), separates(5)),
], bounds='bodies of up to 3 chunks, up to 2 callbacks each, two concurrent '
          'requests with up to 7 steps',
    assumptions=['the server calls close on the iterable it was given, as '
                 'required by PEP 3333'])
