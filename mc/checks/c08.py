"""C08: finding the handler for an exception."""
import itertools
import sys

from verktyg.application import ApplicationBuilder
from verktyg.exception_dispatch import ExceptionDispatcher, ExceptionHandler
from verktyg import exceptions as http
from verktyg.responses import Response
from verktyg.routing import Route, RequestRedirect

from mc import model_accept
from mc.core import Check, Space, fail, same
from mc.wsgi_client import call, environ


class Base(Exception):
    pass


class Left(Base):
    pass


class Right(Base):
    pass


class Diamond(Left, Right):
    pass


class Mixin:
    pass


class Mixed(Mixin, Right, http.NotFound):
    pass


class Leaf(Diamond):
    pass


# classes that only share their names with others
OtherBase = type('Base', (Exception,), {})
OtherDiamond = type('Diamond', (Left,), {})


CLASSES = [Exception, Base, Left, Right, Diamond, Leaf, Mixed, Mixin,
           http.HTTPException, http.NotFound, object, ValueError]
RAISED = [Exception, Base, Left, Right, Diamond, Leaf, Mixed, http.NotFound,
          http.Gone, ValueError, KeyError, OtherBase, OtherDiamond]
REPS = [(None, None, None, None), ('text/html', None, None, None),
        ('application/json', None, None, None)]
ACCEPTS = [None, '*/*', 'text/html', 'application/json;q=0.5,text/html;q=0.4',
           'image/png', 'text/html;q=0,*/*']


class ModelDispatcher:
    def __init__(self):
        self.handlers = []

    def lookup(self, cls, accept=None, language=None, charset=None):
        for base in cls.__mro__:
            fitting = [h for h in self.handlers if h[0] is base]
            chosen = model_accept.select(
                [h[1] for h in fitting], accept, language, charset)
            if chosen is not None:
                return fitting[chosen][2]
        return None


def make(cls, rep, action):
    return ExceptionHandler(cls, action, content_type=rep[0],
                            language=rep[1], charset=rep[2], qs=rep[3])


POOL = [(c, r) for c in CLASSES[:7] + CLASSES[8:10] for r in REPS[:2]] + [
    (Base, REPS[2]), (object, REPS[0]), (Mixin, REPS[0])]


def compare(dispatcher, model, cx, what, raised=RAISED, accepts=ACCEPTS):
    for cls in raised:
        for accept in accepts:
            cx.step()
            want = model.lookup(cls, accept)
            got = dispatcher.lookup(cls, accept=accept)
            cx.outcome(want is not None)
            if got is not want:
                fail('%s: lookup(%s, %r) gave %r, model says %r' % (
                    what, cls.__name__, accept, got, want))
        if dispatcher.lookup(cls) is not model.lookup(cls):
            fail('%s: lookup(%s) is wrong' % (what, cls.__name__))


# -- negotiation by type, language and charset within and across classes

NREPS = [(None, None, None, None), ('text/html', None, None, None),
         ('text/html', 'en', None, None), (None, 'fr', None, 0.5),
         (None, None, 'utf-8', None), (None, None, 'ascii', 0.9),
         ('text/html', 'fr', 'utf-8', 0.4), ('application/json', None,
                                             None, 0.7)]
NPOOL = [(c, r) for c in (Base, Right, Diamond) for r in NREPS]
NPOOL += [(object, NREPS[0]), (object, NREPS[2]), (BaseException, NREPS[3]),
          (Exception, NREPS[6]), (Mixin, NREPS[0])]
NASKS = [(None, None, None), ('text/html', None, None),
         (None, 'en', None), (None, 'fr', None), ('*/*', 'fr;q=0.5,en', None),
         (None, None, 'utf-8'), (None, None, 'ascii;q=0.5,*;q=0.2'),
         (None, None, 'ascii;q=0'), ('image/png', None, None),
         ('text/html', 'fr', 'ascii'), ('*/*', 'de', 'latin1')]


def negotiation_cases(size):
    def gen():
        for n in range(1, size + 1):
            for word in itertools.product(range(len(NPOOL)), repeat=n):
                yield (word,)
    return gen


def run_negotiation(case, cx):
    word, = case
    model = ModelDispatcher()
    dispatcher = ExceptionDispatcher()
    for i in word:
        act = action()
        model.handlers.append(NPOOL[i] + (act,))
        dispatcher.add_exception_handlers(make(NPOOL[i][0], NPOOL[i][1], act))
    for cls in (Diamond, Mixed):
        for accept, language, charset in NASKS:
            cx.step()
            want = model.lookup(cls, accept, language, charset)
            got = dispatcher.lookup(
                cls, accept=accept, accept_language=language,
                accept_charset=charset)
            if got is not want:
                fail('handlers %r: lookup(%s, %r, %r, %r) gave %r, model says '
                     '%r' % ([(NPOOL[i][0].__name__,) + NPOOL[i][1]
                              for i in word], cls.__name__, accept, language,
                             charset, got, want))
            cx.outcome(want is not None)
    cx.state(word)


def action():
    def handle(app, req, exc_type, exc_value, exc_traceback):
        return None
    return handle


def flat_cases(size):
    def gen():
        for n in range(0, size + 1):
            for word in itertools.product(range(len(POOL)), repeat=n):
                yield (word,)
    return gen


def run_flat(case, cx):
    word, = case
    model = ModelDispatcher()
    handlers = []
    for i in word:
        act = action()
        model.handlers.append(POOL[i] + (act,))
        handlers.append(make(POOL[i][0], POOL[i][1], act))
    if len(word) % 2:
        dispatcher = ExceptionDispatcher(handlers)
    else:
        dispatcher = ExceptionDispatcher()
        dispatcher.add_exception_handlers(*handlers)
    compare(dispatcher, model, cx, 'handlers %r' % (
        [(POOL[i][0].__name__, POOL[i][1][0]) for i in word],),
        accepts=ACCEPTS if len(word) < 3 else ACCEPTS[1:5])
    cx.state(word)


OPS = [('add', 0, 2), ('add', 0, 3), ('add', 1, 4), ('add', 1, 2),
       ('add', 1, 8), ('add', 2, 9), ('nest', 0, 1), ('nest', 1, 2),
       ('nest', 0, 2), ('new',)]


def history_cases(depth):
    def gen():
        for n in range(1, depth + 1):
            for word in itertools.product(range(len(OPS)), repeat=n):
                yield word, False
                if n > 1:
                    yield word, True
    return gen


def run_history(case, cx):
    word, peek = case
    real = [ExceptionDispatcher() for _ in range(3)]
    model = [ModelDispatcher() for _ in range(3)]
    for code in word:
        op = OPS[code]
        cx.step()
        if op[0] == 'add':
            act = action()
            real[op[1]].add_exception_handlers(make(*POOL[op[2]], act))
            model[op[1]].handlers.append(POOL[op[2]] + (act,))
        elif op[0] == 'nest':
            real[op[1]].add_exception_handlers(real[op[2]])
            model[op[1]].handlers += model[op[2]].handlers
        else:
            real[0] = ExceptionDispatcher([real[0], real[1]])
            old, model[0] = model[0], ModelDispatcher()
            model[0].handlers = old.handlers + model[1].handlers
        if peek:
            for r, m in zip(real, model):
                compare(r, m, cx, 'history %r with lookups' % (
                    [OPS[i] for i in word],),
                    raised=[Base, Diamond], accepts=ACCEPTS[2:4])
    for r, m in zip(real, model):
        compare(r, m, cx, 'history %r' % ([OPS[i] for i in word],),
                raised=[Base, Left, Diamond, ValueError],
                accepts=ACCEPTS[1:5])
    cx.state([[(h[0].__name__, h[1]) for h in m.handlers] for m in model])


# -- within an application: wherever the exception comes from

SOURCES = ['view', 'converter', 'missing', 'method', 'accept', 'name',
           'redirect', 'generator-view']
HANDLED = [
    None, Exception, Base, Left, Right, Diamond, http.HTTPException,
    http.NotFound, http.MethodNotAllowed, http.NotAcceptable,
    http.NotImplemented, RequestRedirect, ValueError,
]


def app_cases():
    for source in range(len(SOURCES)):
        for first in range(len(HANDLED)):
            for second in range(len(HANDLED)):
                for builtin in (True, False):
                    yield source, first, second, builtin


def run_app(case, cx):
    source, first, second, builtin = case
    source = SOURCES[source]
    raised = []
    seen = []

    from verktyg.routing import BaseConverter

    class Exploding(BaseConverter):
        def to_python(self, value):
            raised.append(Diamond('converter'))
            raise raised[-1]

    builder = ApplicationBuilder(default_redirect_handler=builtin)
    builder.add_converters(boom=Exploding)
    builder.add_routes(
        Route('/boom/<boom:x>', endpoint='boom'),
        Route('/view', endpoint='view'), Route('/dir/', endpoint='view'),
        Route('/nobody', endpoint='nobody'))

    @builder.expose('view', content_type='text/html')
    def view(app, req):
        raised.append(Diamond('view'))
        raise raised[-1] from KeyError('cause')

    for number, index in enumerate((first, second)):
        if HANDLED[index] is None:
            continue

        def handler(app_, req, exc_type, exc_value, exc_traceback,
                    number=number):
            seen.append((number, app_ is app, req.path, exc_type, exc_value,
                         exc_traceback))
            return Response('handled %d' % number, status=500 + number)
        if number:
            builder.exception_handler(HANDLED[index])(handler)
        else:
            builder.add_exception_handler(HANDLED[index], handler)
    app = builder('http://example.com')
    request = {
        'view': ('/view', 'GET', 'text/html', Diamond),
        'generator-view': ('/view', 'HEAD', 'text/html', Diamond),
        'converter': ('/boom/1', 'GET', '*/*', Diamond),
        'missing': ('/nothing', 'GET', '*/*', http.NotFound),
        'method': ('/view', 'POST', 'text/html', http.MethodNotAllowed),
        'accept': ('/view', 'GET', 'image/png', http.NotAcceptable),
        'name': ('/nobody', 'GET', '*/*', http.NotImplemented),
        'redirect': ('/dir', 'GET', '*/*', RequestRedirect),
    }[source]
    path, method, accept, cls = request
    result = call(app, environ(path, method, headers=[('Accept', accept)]))
    cx.step()
    # which handler applies: the first class in the MRO that has one, the
    # last of those registered for it
    want = None
    for base in cls.__mro__:
        for number, index in reversed(list(enumerate((first, second)))):
            if HANDLED[index] is base:
                want = number
                break
        if want is not None:
            break
        if builtin and base is RequestRedirect:
            want = 'builtin'
            break
    what = 'exception from %s with handlers %r, %r builtin=%r' % (
        source, HANDLED[first], HANDLED[second], builtin)
    cx.outcome((source, want))
    cx.state((source, want, first, second))
    if want is None:
        if not isinstance(result.error, cls):
            fail('%s: should have propagated, got %r %r' % (
                what, result.status, result.error))
        if raised and result.error is not raised[-1]:
            fail('%s: another exception propagated' % what)
        if raised:
            # as it was raised: with its cause, its context and where it
            # came from
            error = result.error
            same(error.args, (('converter',) if source == 'converter'
                              else ('view',)), what)
            cause = error.__cause__
            if source != 'converter':
                same(type(cause), KeyError, what + ': the cause')
            names = []
            tb = error.__traceback__
            while tb is not None:
                names.append(tb.tb_frame.f_code.co_name)
                tb = tb.tb_next
            same(names[-1], 'to_python' if source == 'converter' else 'view',
                 what + ': the innermost frame of %r' % names)
        same(seen, [], what)
    elif want == 'builtin':
        same((result.code, result.get('Location')),
             (301, 'http://example.com/dir/'), what)
    else:
        same(result.error, None, what)
        same(result.code, 500 + want, what)
        same(len(seen), 1, what)
        number, is_app, seen_path, exc_type, exc_value, tb = seen[0]
        same((number, is_app, seen_path), (want, True, path), what)
        if exc_type is not cls or not isinstance(exc_value, cls):
            fail('%s: handler was given %r %r' % (what, exc_type, exc_value))
        if raised and exc_value is not raised[-1]:
            fail('%s: handler was given another exception' % what)
        if exc_value.__traceback__ is not tb:
            fail('%s: handler was given another traceback' % what)


# -- the headers of the request decide, all the way through an application

def app_negotiation_cases():
    for first in range(len(NPOOL)):
        for second in range(len(NPOOL)):
            yield first, second


def run_app_negotiation(case, cx):
    model = ModelDispatcher()
    builder = ApplicationBuilder()
    builder.add_routes(Route('/', endpoint='v'))

    @builder.expose('v')
    def view(app, req):
        raise Diamond()

    for number, i in enumerate(case):
        def handler(app, req, t, v, tb, number=number):
            return Response('handled %d' % number, status=500 + number)
        cls, rep = NPOOL[i]
        model.handlers.append((cls, rep, number))
        options = dict(content_type=rep[0], language=rep[1], charset=rep[2],
                       qs=rep[3])
        if number:
            builder.exception_handler(cls, **options)(handler)
        else:
            builder.add_exception_handler(cls, handler, **options)
    app = builder()
    for accept, language, charset in NASKS:
        headers = [(k, v) for k, v in (
            ('Accept', accept), ('Accept-Language', language),
            ('Accept-Charset', charset)) if v is not None]
        cx.step()
        want = model.lookup(Diamond, accept, language, charset)
        result = call(app, environ('/', headers=headers))
        what = 'handlers %r for %r' % ([
            (NPOOL[i][0].__name__,) + NPOOL[i][1] for i in case], headers)
        if want is None:
            same(isinstance(result.error, Diamond), True, what)
        else:
            same((result.error, result.code), (None, 500 + want), what)
        cx.outcome(want)
    cx.state(case)


# -- the exception itself reaches the handler, not one it has to do with

def chain_cases():
    return itertools.product(
        (Base, Diamond, KeyError, http.NotFound),
        (None, Base, Diamond, KeyError, http.NotFound),
        ('cause', 'context', 'none', 'group', 'notes'),
        (None, 'same', 'cause', Exception, 'object'))


def run_chain(case, cx):
    cls, other, how, handled = case
    error = cls('outer')
    inner = other('inner') if other else None
    seen = []
    builder = ApplicationBuilder()
    builder.add_routes(Route('/', endpoint='v'))

    @builder.expose('v')
    def view(app, req):
        if inner is None:
            raise error
        if how == 'cause':
            raise error from inner
        if how == 'none':
            try:
                raise inner
            except Exception:
                raise error from None
        if how == 'context':
            try:
                raise inner
            except Exception:
                raise error
        if how == 'group':
            error.__context__ = ExceptionGroup('g', [inner])
            raise error
        error.add_note('inner')
        error.args += (inner,)
        raise error

    target = {'same': cls, 'cause': other, 'object': object}.get(
        handled, handled)
    if target is not None:
        @builder.exception_handler(target)
        def handle(app, req, t, v, tb):
            seen.append((t, v, tb is v.__traceback__))
            return Response('handled')
    result = call(builder(), environ('/'))
    cx.step()
    if target is not None and issubclass(cls, target):
        same((result.error, seen), (None, [(cls, error, True)]), 'handled')
        cx.outcome('handled')
    else:
        same(result.error is error, True, 'propagated')
        same(seen, [], 'handled')
        cx.outcome('propagated')
    same(error.__cause__ is (inner if how == 'cause' else None), True,
         'cause')
    if inner is not None and how == 'context':
        same(error.__context__ is inner, True, 'context')
    cx.state(case)


# -- exceptions raised by handlers, and ones that are not for handlers

def nested_cases():
    for accept in (None, 'text/html', 'application/json'):
        for kind in ('handler-raises', 'keyboard', 'exit'):
            for catch in (Exception, BaseException):
                yield accept, kind, catch.__name__


def run_nested(case, cx):
    accept, kind, catch = case
    error = {'handler-raises': Base(), 'keyboard': KeyboardInterrupt(),
             'exit': SystemExit()}[kind]
    second = Right()
    calls = []
    builder = ApplicationBuilder()
    builder.add_routes(Route('/', endpoint='v'))

    @builder.expose('v')
    def view(app, req):
        raise error

    @builder.exception_handler(Exception if catch == 'Exception'
                               else BaseException)
    def handler(app, req, t, v, tb):
        calls.append(v)
        raise second

    app = builder()
    cx.step()
    cx.state(case)
    try:
        call(app, environ('/', headers=[('Accept', accept)] if accept
                          else []), catch=False)
    except BaseException as e:
        if kind == 'handler-raises':
            same((e is second, calls), (True, [error]), 'handler error')
        else:
            same((e is error, calls), (True, []), 'not an Exception')
        cx.outcome(type(e).__name__)
    else:
        fail('%r: exception got lost' % (case,))


# -- many handlers, deep hierarchies

SIZES = tuple(range(1, 21)) + (33, 65, 129)


def size_cases():
    return itertools.product(('types', 'siblings', 'chain'),
                             ('call', 'each', 'nested'), SIZES)


def run_sizes(case, cx):
    shape, way, n = case
    classes = [Exception]
    for i in range(n):
        classes.append(type('E%d' % i, (
            classes[-1] if shape == 'chain' else Exception,), {}))
    model = ModelDispatcher()
    for i in range(n):
        rep = REPS[0]
        cls = classes[i]
        if shape == 'types':
            rep = ('text/t%d' % i, None, None, None)
            cls = classes[1]
        elif shape == 'chain' and i % 2:
            rep = ('text/t%d' % i, None, None, None)
        model.handlers.append((cls, rep, action()))
    handlers = [make(*h) for h in model.handlers]
    dispatcher = ExceptionDispatcher()
    if way == 'call':
        dispatcher.add_exception_handlers(*handlers)
    elif way == 'each':
        for handler in handlers:
            dispatcher.add_exception_handlers(handler)
    else:
        dispatcher.add_exception_handlers(ExceptionDispatcher(handlers))
    for cls in classes:
        for accept in {None, 'text/t0', 'text/t%d' % (n // 2 | 1),
                       'text/t%d' % (n - 1), 'text/*', 'text/t%d' % n}:
            cx.step()
            want = model.lookup(cls, accept)
            got = dispatcher.lookup(cls, accept=accept)
            cx.outcome(want is not None)
            if got is not want:
                fail('%d handlers (%s, %s): lookup(%s, %r) gave %r, model '
                     'says %r' % (n, shape, way, cls.__name__, accept, got,
                                  want))
    # a class far away from the only one with a handler
    if shape == 'chain':
        act = action()
        dispatcher = ExceptionDispatcher([
            ExceptionHandler(classes[1], act)])
        for cls in classes[1:]:
            same(dispatcher.lookup(cls), act, 'handler of a far base class')
        same(dispatcher.lookup(Exception), None, 'handler of the parent')
    cx.state(case)


check = Check('C08', [
    Space('flat', run_flat, flat_cases(2), flat_cases(3), chunk=10),
    Space('histories', run_history, history_cases(4), history_cases(5),
          chunk=100),
    Space('negotiation', run_negotiation, negotiation_cases(2),
          negotiation_cases(3), chunk=20),
    Space('app-negotiation', run_app_negotiation, app_negotiation_cases,
          chunk=20),
    Space('application', run_app, app_cases, chunk=20),
    Space('chained', run_chain, chain_cases, chunk=20),
    Space('nested', run_nested, nested_cases, chunk=5),
    Space('sizes', run_sizes, size_cases, chunk=4),
], bounds='up to 2 (thorough: 3) handlers from a pool of %d over a class '
    'hierarchy with multiple inheritance; histories of up to 4 (5) add and '
    'nest operations, with and without lookups in between; every pair of application handlers x every source of '
    'exceptions' % len(POOL))
