"""C07: finding the binding for a name, a method and a representation."""
import itertools
import json

from verktyg.application import ApplicationBuilder
from verktyg.dispatch import Binding, Dispatcher
from verktyg.exceptions import (
    MethodNotAllowed, NotAcceptable, NotImplemented as HTTPNotImplemented,
)
from verktyg.responses import BaseResponse, Response
from verktyg.routing import Route
from verktyg.views import ClassView, JsonView, View, expose, expose_json

from mc import model_accept
from mc.core import Check, Space, fail, same
from mc.wsgi_client import call, environ


class ModelDispatcher:
    """A list of (name, method, representation, label)"""

    def __init__(self):
        self.bindings = []

    def lookup(self, name, method='GET', accept=None, language=None,
               charset=None):
        named = [b for b in self.bindings if b[0] == name]
        if not named:
            return 'NotImplemented'
        fitting = [b for b in named if b[1] == method]
        if not fitting and method == 'HEAD':
            fitting = [b for b in named if b[1] == 'GET']
        if not fitting:
            return 'MethodNotAllowed'
        chosen = model_accept.select(
            [b[2] for b in fitting], accept, language, charset)
        if chosen is None:
            return 'NotAcceptable'
        return 'ok', fitting[chosen][3]


def lookup(dispatcher, *args, **kwargs):
    try:
        found = dispatcher.lookup(*args, **kwargs)
    except HTTPNotImplemented as e:
        return 'NotImplemented' if e.code == 501 else e.code
    except MethodNotAllowed as e:
        return 'MethodNotAllowed' if e.code == 405 else e.code
    except NotAcceptable as e:
        return 'NotAcceptable' if e.code == 406 else e.code
    return 'ok', found('app', 'req')


def action(label):
    def view(app, req, **kwargs):
        return label
    return view


NAMES = ['n', 'm', ('tuple', 1)]
METHODS = ['GET', 'HEAD', 'POST', 'PUT', 'get', 'CUSTOM', 'OPTIONS', 'TRACE',
           'PATCH', 'DELETE', 'CONNECT']
REPS = [(None, None, None, None), ('text/html', None, None, None),
        ('application/json', None, None, None),
        ('application/json', None, None, 0.5), (None, 'en', None, None),
        (None, None, 'utf-8', None), ('text/html', 'fr', 'ascii', 0.9)]

POOL = (
    [('n', m, REPS[0]) for m in ('GET', 'HEAD', 'POST')] +
    [('n', 'GET', REPS[1]), ('n', 'GET', REPS[2]), ('n', 'GET', REPS[3]),
     ('n', 'HEAD', REPS[1]), ('n', 'GET', REPS[4]),
     ('m', 'GET', REPS[0]), ('m', 'PUT', REPS[2]),
     (('tuple', 1), 'CUSTOM', REPS[0]), ('n', 'GET', REPS[5]),
     ('m', 'GET', REPS[6])]
)
ACCEPTS = [None, '*/*', 'text/html', 'application/json', 'image/png',
           'text/html;q=0.5,application/json;q=0.6']


def compare(dispatcher, model, cx, what, quick=False):
    for name in NAMES + ['missing']:
        for method in (METHODS[:3] if quick else METHODS):
            for accept in (ACCEPTS[1:5] if quick else ACCEPTS):
                for language in ((None,) if quick else (None, 'en', 'fr')):
                    cx.step()
                    want = model.lookup(name, method, accept, language)
                    cx.outcome(want if isinstance(want, str) else 'ok')
                    got = lookup(
                        dispatcher, name, method, accept=accept,
                        accept_language=language)
                    if got != want:
                        fail('%s: lookup(%r, %r, %r, %r) gave %r, model '
                             'says %r' % (what, name, method, accept,
                                          language, got, want))
        for charset in ('utf-8', 'ascii', '*;q=0.1,ascii;q=0'):
            cx.step()
            want = model.lookup(name, 'GET', None, None, charset)
            got = lookup(dispatcher, name, 'GET', accept=None,
                         accept_charset=charset)
            if got != want:
                fail('%s: lookup(%r) for charset %r gave %r, model says %r' % (
                    what, name, charset, got, want))
        want = model.lookup(name)
        got = lookup(dispatcher, name)
        if got != want:
            fail('%s: lookup(%r) gave %r, model says %r' % (
                what, name, got, want))


def make(i, label):
    name, method, rep = POOL[i]
    return Binding(name, action(label), method=method, content_type=rep[0],
                   language=rep[1], charset=rep[2], qs=rep[3])


def flat_cases(size):
    def gen():
        for n in range(0, size + 1):
            for word in itertools.product(range(len(POOL)), repeat=n):
                yield (word,)
    return gen


def run_flat(case, cx):
    word, = case
    model = ModelDispatcher()
    bindings = []
    for position, i in enumerate(word):
        label = 'L%d' % position
        bindings.append(make(i, label))
        model.bindings.append(POOL[i] + (label,))
    if len(word) % 2:
        dispatcher = Dispatcher(bindings)
    else:
        dispatcher = Dispatcher()
        dispatcher.add_bindings(*bindings)
    cx.state(word)
    what = 'bindings %r' % [POOL[i] for i in word]
    compare(dispatcher, model, cx, what, quick=len(word) > 2)
    if len(word) == 2:
        compare(Dispatcher([dispatcher]), model, cx, 'nested ' + what)


# -- histories: add, nest and look up in any order

OPS = [('add', 0, 0), ('add', 0, 3), ('add', 1, 4), ('add', 1, 0),
       ('add', 2, 6), ('add', 2, 2), ('nest', 0, 1), ('nest', 0, 2),
       ('nest', 1, 2), ('new',), ('look',)]


def history_cases(depth):
    def gen():
        for n in range(1, depth + 1):
            for word in itertools.product(range(len(OPS)), repeat=n):
                yield (word,)
    return gen


def run_history(case, cx):
    word, = case
    real = [Dispatcher(), Dispatcher(), Dispatcher()]
    model = [ModelDispatcher(), ModelDispatcher(), ModelDispatcher()]
    what = 'history %r' % ([OPS[i] for i in word],)
    count = 0
    for code in word:
        op = OPS[code]
        cx.step()
        if op[0] == 'add':
            label = 'L%d' % count
            count += 1
            real[op[1]].add_bindings(make(op[2], label))
            model[op[1]].bindings.append(POOL[op[2]] + (label,))
        elif op[0] == 'nest':
            real[op[1]].add_bindings(real[op[2]])
            model[op[1]].bindings += model[op[2]].bindings
        elif op[0] == 'new':
            real[0] = Dispatcher([real[0], real[1]])
            model[0], old = ModelDispatcher(), model[0]
            model[0].bindings = old.bindings + model[1].bindings
        else:
            compare(real[0], model[0], cx, what, quick=True)
    for r, m in zip(real, model):
        compare(r, m, cx, what, quick=True)
    cx.state([[b[:3] for b in m.bindings] for m in model])


# -- views

def view_cases():
    for methods in (None, 'POST', 'GET', ('GET', 'POST'), ['PUT'],
                    ('GET', 'HEAD', 'DELETE')):
        for kind in ('view', 'json', 'expose', 'expose_json', 'builder'):
            for rep in range(len(REPS)):
                yield methods, kind, rep


def run_views(case, cx):
    methods, kind, number = case
    rep = REPS[number]
    allowed = {'GET'} if methods is None else (
        {methods} if isinstance(methods, str) else set(methods))
    given = methods
    if isinstance(methods, tuple):
        given = iter(methods)       # any iterable will do, read only once
    calls = []

    def act(app, req, *args, **kwargs):
        calls.append((app, req, args, kwargs))
        return {'label': ['x', 1, None]}

    options = dict(methods=given, content_type=rep[0], language=rep[1],
                   charset=rep[2], qs=rep[3])
    dispatcher = Dispatcher()
    is_json = 'json' in kind
    if kind == 'view':
        dispatcher.add_bindings(View('n', act, **options))
    elif kind == 'expose':
        if expose(dispatcher, 'n', **options)(act) is not act:
            fail('expose does not return the function')
    elif kind == 'json':
        dispatcher.add_bindings(
            JsonView('n', act, methods=given, qs=rep[3]) if number % 2 else
            JsonView('n', act, given, rep[3]))
    elif kind == 'expose_json':
        expose_it = expose_json(dispatcher, 'n', given, rep[3]) \
            if number % 2 else expose_json(
                dispatcher, 'n', methods=given, qs=rep[3])
        if expose_it(act) is not act:
            fail('expose_json does not return the function')
    else:
        class Builder(ApplicationBuilder):
            def add_bindings(self, *factories):
                super().add_bindings(*factories)
                dispatcher.add_bindings(*factories)

        if Builder().expose('n', **options)(act) is not act:
            fail('expose does not return the function')
    if is_json:
        rep = ('application/json', None, None, rep[3])
    asks = [(a, None, None) for a in ACCEPTS] + [
        (None, 'en', None), (None, 'fr', None), (None, None, 'utf-8'),
        (None, None, 'ascii'), ('text/html', 'fr', 'ascii')]
    for method in METHODS:
        for accept, language, charset in asks:
            cx.step()
            want = 'ok'
            if method not in allowed and not (
                    method == 'HEAD' and 'GET' in allowed):
                want = 'MethodNotAllowed'
            elif model_accept.select(
                    [rep], accept, language, charset) is None:
                want = 'NotAcceptable'
            cx.outcome(want)
            cx.state((kind, methods, method, accept, language, charset,
                      rep, want))
            what = '%s view %r %r for %r %r' % (
                kind, methods, rep, method, accept)
            try:
                found = dispatcher.lookup(
                    'n', method, accept=accept, accept_language=language,
                    accept_charset=charset)
            except (MethodNotAllowed, NotAcceptable) as e:
                same(type(e).__name__, want, what)
                continue
            same('ok', want, what)
            app = object()
            given_to = {'key': 'val', 'none': None, 'zero': 0, 'empty': ''}
            out = found(app, 'req', 'pos', None, **given_to)
            if calls[-1] != (app, 'req', ('pos', None), given_to):
                fail('%s: called with %r' % (what, calls[-1]))
            if is_json:
                same(json.loads(b''.join(out.response).decode('utf-8')
                                if isinstance(out.response[0], bytes)
                                else ''.join(out.response)),
                     {'label': ['x', 1, None]}, what)
                same(out.headers['Content-Type'].split(';')[0],
                     'application/json', what)
            else:
                same(out, {'label': ['x', 1, None]}, what)


# -- several views under one name: negotiation sees what each declares

def rival_view(kind, rep, act):
    options = dict(content_type=rep[0], language=rep[1], charset=rep[2],
                   qs=rep[3])
    if kind == 'json':
        return [JsonView('n', act, qs=rep[3])], (
            'application/json', None, None, rep[3])
    if kind == 'expose_json':
        out = Dispatcher()
        expose_json(out, 'n', None, rep[3])(act)
        return [out], ('application/json', None, None, rep[3])
    if kind == 'view':
        return [View('n', act, methods=['GET', 'POST'], **options)], rep
    if kind == 'expose':
        out = Dispatcher()
        expose(out, 'n', **options)(act)
        return [out], rep
    views = []

    class Builder(ApplicationBuilder):
        def add_bindings(self, *factories):
            views.extend(factories)
    Builder().expose('n', **options)(act)
    return views, rep


RIVALS = [(k, r) for k in ('view', 'json', 'expose', 'expose_json',
                           'builder')
          for r in (REPS if 'json' not in k else (REPS[2], REPS[3]))] + [
    ('view', ('text/html', 'en', None, 0.2)),
    ('view', ('text/html', 'en', 'utf-8', 0.8)),
    ('expose', ('text/html', 'fr', 'utf-8', 0.7)),
    ('json', (None, None, None, 0.25))]
RIVALS += [('view', ('text/html', None, None, 0)),
           ('expose', (None, None, None, 0.0)),
           ('json', (None, None, None, 0))]
RIVAL_ASKS = [(a, None, None) for a in ACCEPTS] + [
    (None, 'en', None), (None, 'fr,en;q=0.5', None), (None, None, 'utf-8'),
    ('text/html', 'en;q=0.5,fr;q=0.5', 'utf-8'), ('*/*', '*', '*')]


def rival_cases(size):
    def gen():
        for n in range(2, size + 1):
            for word in itertools.product(range(len(RIVALS)), repeat=n):
                if n > 2 and len(set(word)) < n:
                    continue
                yield (word,)
    return gen


def run_rivals(case, cx):
    word, = case
    model = ModelDispatcher()
    dispatcher = Dispatcher()
    called = []
    for position, i in enumerate(word):
        def act(app, req, position=position):
            called.append(position)
            return None
        views, rep = rival_view(RIVALS[i][0], RIVALS[i][1], act)
        dispatcher.add_bindings(*views)
        model.bindings.append(('n', 'GET', rep, position))
    # a dispatcher with all of these in it is no different
    nested = Dispatcher([Dispatcher([dispatcher])])
    for which, (accept, language, charset) in itertools.product(
            (dispatcher, nested), RIVAL_ASKS):
        cx.step()
        want = model.lookup('n', 'GET', accept, language, charset)
        del called[:]
        got = lookup(which, 'n', 'GET', accept=accept,
                     accept_language=language, accept_charset=charset)
        if not isinstance(got, str):
            got = ('ok', called[0])
        if got != want:
            fail('%sviews %r for %r %r %r gave %r, model says %r' % (
                'nested ' if which is nested else '',
                [RIVALS[i] for i in word], accept, language, charset, got,
                want))
        cx.outcome(want)
    cx.state(word)


# -- the same view more than once, in several places

def twice_cases(depth):
    def gen():
        for n in range(2, depth + 1):
            for word in itertools.product(range(3), repeat=n):
                for how in ('one', 'flat', 'nested', 'deep', 'mixed'):
                    for given in (('GET',), ('GET', 'POST')):
                        for kind in (View, JsonView):
                            yield word, how, given, kind.__name__
    return gen


def run_twice(case, cx):
    word, how, given, kind = case
    kind = {'View': View, 'JsonView': JsonView}[kind]
    called = []
    views = []
    mutable = list(given)
    for i in range(3):
        def act(app, req, i=i):
            called.append(i)
            return None
        # what happens to the list later does not matter
        views.append(kind('n', act, methods=[
            mutable, iter(given), tuple(given)][i]))
    mutable.clear()
    dispatcher = Dispatcher()
    if how == 'one':
        for i in word:
            dispatcher.add_bindings(views[i])
    elif how == 'flat':
        dispatcher.add_bindings(*[views[i] for i in word])
    elif how == 'nested':
        dispatcher.add_bindings(Dispatcher([views[i] for i in word]))
    elif how == 'deep':
        for i in word:
            dispatcher.add_bindings(Dispatcher([Dispatcher([views[i]])]))
    else:
        bindings = {i: list(views[i].get_bindings()) for i in set(word)}
        inner = Dispatcher()
        for i in word:
            inner.add_bindings(*bindings[i])
        dispatcher = Dispatcher([inner])
    for copy in (dispatcher, Dispatcher([dispatcher]),
                 Dispatcher([Dispatcher([dispatcher])])):
        for method in ('GET', 'POST', 'HEAD', 'PUT'):
            cx.step()
            want = 'MethodNotAllowed'
            if method in given or method == 'HEAD':
                want = ('ok', word[-1])
            del called[:]
            got = lookup(copy, 'n', method)
            if not isinstance(got, str):
                got = ('ok', called[0])
            same(got, want, '%s of %r' % (method, case))
            cx.outcome(want)
    cx.state(case)


# -- dispatchers, views and bindings given together

TOGETHER = ('binding', 'view', 'dispatcher', 'nested', 'empty', 'json')


def together_cases(size):
    def gen():
        for n in range(1, size + 1):
            for word in itertools.product(TOGETHER, repeat=n):
                for how in ('constructor', 'once', 'one by one', 'builder'):
                    yield word, how
    return gen


def run_together(case, cx):
    word, how = case
    factories = []
    model = ModelDispatcher()
    called = []
    for position, kind in enumerate(word):
        def act(app, req, position=position):
            called.append(position)
            return None

        html = Binding('n', act, content_type='text/html')
        plain = Binding('n', act, method='POST')
        two = [('n', 'GET', REPS[1], position), ('n', 'POST', REPS[0],
                                                 position)]
        if kind == 'binding':
            factories.append(html)
            two = two[:1]
        elif kind == 'view':
            factories.append(View('n', act, methods=['POST', 'GET']))
            two = [('n', m, REPS[0], position) for m in ('GET', 'POST')]
        elif kind == 'dispatcher':
            factories.append(Dispatcher([html, plain]))
        elif kind == 'nested':
            factories.append(Dispatcher([Dispatcher([html]), plain]))
        elif kind == 'empty':
            factories.append(Dispatcher())
            two = []
        else:
            factories.append(JsonView('n', act))
            two = [('n', 'GET', REPS[2], position)]
        model.bindings += two
    if how == 'constructor':
        dispatcher = Dispatcher(factories)
    elif how == 'builder':
        builder = ApplicationBuilder()
        builder.add_routes(Route('/', endpoint='n'))
        builder.add_bindings(*factories)
        dispatcher = builder('http://example.com')
    else:
        dispatcher = Dispatcher()
        if how == 'once':
            dispatcher.add_bindings(*factories)
        else:
            for factory in factories:
                dispatcher.add_bindings(factory)
    for method in ('GET', 'POST', 'HEAD', 'PUT'):
        for accept in (None, 'text/html', 'application/json',
                       'text/html;q=0.5,*/*;q=0.4'):
            cx.step()
            want = model.lookup('n', method, accept)
            del called[:]
            if how == 'builder':
                try:
                    list(dispatcher(environ('/', method, headers=[
                        ('Accept', accept)] if accept else []),
                        lambda *a: None))
                except (MethodNotAllowed, NotAcceptable,
                        HTTPNotImplemented) as e:
                    got = type(e).__name__
                except Exception:
                    # the view answered with nothing
                    got = ('ok', called[0])
                else:
                    got = ('ok', called[0])
            else:
                got = lookup(dispatcher, 'n', method, accept=accept)
                if not isinstance(got, str):
                    got = ('ok', called[0])
            same(got, want, '%s %r of %r' % (method, accept, case))
            cx.outcome(want)
    cx.state(case)


# -- names are any hashable values

ODD = ['', 0, None, (), False, frozenset(), 1, 1.5, 'n', b'n', ('n',)]


def odd_cases():
    for n in (1, 2):
        yield from itertools.permutations(range(len(ODD)), n)


def run_odd(case, cx):
    names = [ODD[i] for i in case]
    if len({(n,) for n in names}) < len(names):
        return      # equal
    dispatcher = Dispatcher()
    model = ModelDispatcher()
    for number, name in enumerate(names):
        label = 'L%d' % number
        if number:
            expose(dispatcher, name)(action(label))
        else:
            dispatcher.add_bindings(Binding(name, action(label)))
        model.bindings.append((name, 'GET', REPS[0], label))
    for asked in ODD:
        for method in ('GET', 'POST'):
            cx.step()
            want = model.lookup(asked, method)
            same(lookup(dispatcher, asked, method), want,
                 'lookup(%r) among %r' % (asked, names))
            cx.outcome(want)
    cx.state(case)


class Bare:
    pass


class OwnResponse(Response):
    pass


class BareResponse(BaseResponse):
    pass


READY = {'response': Response, 'own response': OwnResponse,
         'streamed response': Response, 'base response': BaseResponse,
         'bare response': BareResponse}


UNSAYABLE = {'set': {1}, 'object': Bare, 'bytes': b'x', 'complex': 1j,
             'inside': {'a': [object]}, 'keys': {(1, 2): 3}}


def run_unsayable(case, cx):
    """What is not JSON is an error, not something else"""
    name, debug = case
    app = Bare()
    app.debug = debug
    view = Dispatcher([JsonView(
        'n', lambda app, req: UNSAYABLE[name])]).lookup('n')
    cx.step()
    cx.state(case)
    try:
        got = view(app, None)
    except TypeError:
        cx.outcome('TypeError')
    else:
        fail('%r gave %r' % (UNSAYABLE[name], got.response))


def json_cases():
    values = [None, {}, [], 0, 1, 1.5, True, False, '', 'text', '\xe9\u2603',
              {'a': [1, {'b': None}]}, [None], {'k': '\U0001f600'}, [[]],
              *READY,
              {'long': '\xe9\u2603' * 50}, list(range(300)),
              {'n%d' % i: [i, {'x': None}] for i in range(40)}, 10 ** 30,
              '</script>', '\u2028', '\x00\x7f', {1: 'a', 'b': 'c'},
              {None: 0, True: 1, 1.5: 2, 'z': 3, 'a': 4}, (1, (2,)),
              float('inf')]
    for value in range(len(values)):
        for debug in ('absent', True, False):
            yield values[value], debug


def run_json(case, cx):
    value, debug = case
    made = isinstance(value, str) and value in READY
    ready = READY[value if made else 'response'](
        iter(['rea', 'dy']) if value == 'streamed response' else 'ready',
        status=418)
    dispatcher = Dispatcher([JsonView(
        'n', lambda app, req: ready if made else value)])
    app = Bare()
    if debug != 'absent':
        app.debug = debug
    got = dispatcher.lookup('n')(app, None)
    cx.step()
    cx.state(case)
    if made:
        same(got is ready, True, 'a response is passed through')
        return
    env = environ()
    result = call(got, env)
    if value is None:
        same((result.code, result.body), (204, b''), 'None gives no content')
        cx.outcome('empty')
        return
    cx.outcome('json')
    same(result.code, 200, 'status for %r' % (value,))
    same(result.get('Content-Type').split(';')[0], 'application/json',
         'type for %r' % (value,))
    same(json.loads(result.body.decode('utf-8')),
         json.loads(json.dumps(value)), 'json body')


def class_cases():
    names = ['GET', 'HEAD', 'POST', 'PUT', 'DELETE']
    for n in range(len(names) + 1):
        for combo in itertools.combinations(names, n):
            yield (combo,)


def run_class(case, cx):
    combo, = case
    body = {m: (lambda m: lambda self, app, req, **kw: (m, app, req, kw))(m)
            for m in combo}
    body['name'] = 'n'
    body['helper'] = lambda self: None
    if len(combo) == 2:
        # one method from a base class, one put on the object
        inherited = type('W', (ClassView,), {
            combo[0]: body.pop(combo[0])})
        late = body.pop(combo[1])
        view = type('V', (inherited,), body)()
        setattr(view, combo[1], late.__get__(view))
    else:
        view = type('V', (ClassView,), body)()
    dispatcher = Dispatcher([view])
    for method in METHODS + ['helper']:
        cx.step()
        target = method
        if method == 'HEAD' and 'HEAD' not in combo:
            target = 'GET'
        try:
            got = dispatcher.lookup('n', method)('app', 'req', k=1)
        except HTTPNotImplemented:
            same(combo, (), 'no methods at all')
            continue
        except MethodNotAllowed:
            same(target in combo, False, '%s on %r' % (method, combo))
            cx.outcome('405')
            continue
        same(got, (target, 'app', 'req', {'k': 1}),
             '%s on %r' % (method, combo))
        cx.outcome('ok')
        cx.state((combo, method))


# -- the whole way through an application

def app_cases():
    for n in range(1, 4):
        for word in itertools.product(range(len(POOL)), repeat=n):
            if n == 3 and (word[0] > word[1] or word[2] > 5):
                continue
            yield (word,)


APP_ASKS = [(a, None, None) for a in ACCEPTS[:5]] + [
    (None, 'fr', None), (None, None, 'ascii'),
    ('text/html', 'en', 'utf-8')]


def run_app(case, cx):
    word, = case
    builder = ApplicationBuilder()
    builder.add_routes(Route('/n/<int:k>', endpoint='n'),
                       Route('/m/', endpoint='m'),
                       Route('/none', endpoint='none'))
    model = ModelDispatcher()
    for position, i in enumerate(word):
        name, method, rep = POOL[i]
        label = 'L%d' % position
        model.bindings.append(POOL[i] + (label,))

        def act(app, req, label=label, **kwargs):
            return Response('%s %r' % (label, sorted(kwargs.items())))
        builder.add_bindings(Binding(
            name, act, method=method, content_type=rep[0], language=rep[1],
            charset=rep[2], qs=rep[3]))
    for code in (404, 405, 406, 501):
        from verktyg import exceptions
        cls = {404: exceptions.NotFound, 405: MethodNotAllowed,
               406: NotAcceptable, 501: HTTPNotImplemented}[code]
        builder.add_exception_handler(
            cls, lambda app, req, t, v, tb: Response(
                'error', status=v.code))
    app = builder('http://example.com')
    for path, name, kwargs in (('/n/7', 'n', [('k', 7)]), ('/m/', 'm', []),
                               ('/none', 'none', []), ('/zip', None, [])):
        for method in METHODS[:4]:
            for accept, language, charset in APP_ASKS[:None if method == 'GET'
                                                      else 5]:
                headers = [
                    (key, value) for key, value in (
                        ('Accept', accept), ('Accept-Language', language),
                        ('Accept-Charset', charset)) if value is not None]
                # which mean nothing
                headers += [('X-HTTP-Method-Override', 'POST'),
                            ('X-Forwarded-Host', 'example.com'),
                            ('Content-Language', 'fr')]
                result = call(app, environ(path, method, headers=headers))
                cx.step()
                what = 'app %r: %s %s %r' % (
                    [POOL[i] for i in word], method, path, headers)
                if name is None:
                    want = 404
                else:
                    want = model.lookup(
                        name, method, accept, language, charset)
                    want = {'NotImplemented': 501, 'MethodNotAllowed': 405,
                            'NotAcceptable': 406}.get(want, want) \
                        if isinstance(want, str) else want
                if isinstance(want, int):
                    same(result.code, want, what)
                    cx.outcome(want)
                else:
                    same(result.code, 200, what)
                    cx.outcome('ok')
                    if method != 'HEAD':
                        same(result.body.decode(), '%s %r' % (
                            want[1], kwargs), what)
    cx.state(word)


# -- many bindings

SIZES = tuple(range(1, 21)) + (33, 65, 129)


def size_cases():
    return itertools.product(('methods', 'names', 'types', 'languages'),
                             ('call', 'each', 'nested', 'view'), SIZES)


def run_sizes(case, cx):
    shape, way, n = case
    model = ModelDispatcher()
    bindings = []
    for i in range(n):
        name, method, rep = 'n', 'GET', (None, None, None, None)
        if shape == 'methods':
            method = 'M%d' % i
        elif shape == 'names':
            name = 'n%d' % i
        elif shape == 'types':
            rep = ('text/t%d' % i, None, None, None)
        else:
            rep = (None, 'l%s' % chr(97 + i % 26) * (1 + i // 26), None, None)
        label = 'L%d' % i
        model.bindings.append((name, method, rep, label))
        bindings.append(Binding(
            name, action(label), method=method, content_type=rep[0],
            language=rep[1]))
    dispatcher = Dispatcher()
    if way == 'call':
        dispatcher.add_bindings(*bindings)
    elif way == 'each':
        for binding in bindings:
            dispatcher.add_bindings(binding)
    elif way == 'nested':
        dispatcher.add_bindings(Dispatcher(bindings))
    else:
        dispatcher = Dispatcher(iter(bindings))
        if shape == 'methods':
            # a view that answers all of them
            dispatcher = Dispatcher([View(
                'n', action('L0'), methods=['M%d' % i for i in range(n)])])
            model.bindings = [b[:3] + ('L0',) for b in model.bindings]
    asked = [(b[0], b[1], b[2][0], b[2][1]) for b in model.bindings]
    asked += [('n', 'GET', None, None), ('n', 'HEAD', None, None),
              ('n', 'GET', 'text/*', None), ('n', 'M%d' % n, None, None),
              ('n%d' % n, 'GET', None, None), ('n', 'GET', 'a/b', None),
              ('n', 'GET', None, 'zz')]
    for name, method, accept, language in asked:
        cx.step()
        want = model.lookup(name, method, accept, language)
        got = lookup(dispatcher, name, method=method, accept=accept,
                     accept_language=language)
        if got != want:
            fail('%d bindings (%s, %s): lookup(%r) gave %r, model says %r' % (
                n, shape, way, (name, method, accept, language), got, want))
        cx.outcome(want == got)
    same(len(list(dispatcher.get_bindings())), n, 'bindings')
    cx.state(case)


check = Check('C07', [
    Space('flat', run_flat, flat_cases(3), flat_cases(4), chunk=20),
    Space('histories', run_history, history_cases(4), history_cases(5),
          chunk=100),
    Space('views', run_views, view_cases, chunk=2),
    Space('rivals', run_rivals, rival_cases(2), rival_cases(3), chunk=50),
    Space('twice', run_twice, twice_cases(3), twice_cases(5), chunk=20),
    Space('together', run_together, together_cases(3), together_cases(4),
          chunk=20),
    Space('odd-names', run_odd, odd_cases, chunk=10),
    Space('json', run_json, json_cases, chunk=4),
    Space('not-json', run_unsayable, lambda: itertools.product(
        UNSAYABLE, (True, False)), chunk=4),
    Space('class-views', run_class, class_cases, chunk=4),
    Space('application', run_app, app_cases, chunk=10),
    Space('sizes', run_sizes, size_cases, chunk=10),
], bounds='up to 3 (thorough: 4) bindings out of %d in every order; '
    'histories of up to 4 (5) add, nest and lookup operations' % len(POOL))
