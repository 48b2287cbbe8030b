"""C25: an application is what its builder was told, no more and no less."""
import itertools

from verktyg.application import ApplicationBuilder, BaseApplication
from verktyg.dispatch import Binding, Dispatcher
from verktyg.exception_dispatch import ExceptionDispatcher, ExceptionHandler
from verktyg.exceptions import HTTPException, NotFound
from verktyg.requests import BaseRequest
from verktyg.responses import Response
from verktyg.routing import (
    BaseConverter, BuildError, EndpointPrefix, Route, Submount,
)
from verktyg.views import View, expose

from mc.core import Check, Space, fail, same
from mc.wsgi_client import call, environ


class Doubled(BaseConverter):
    def to_python(self, value):
        return value * 2

    def to_url(self, value):
        return value[:len(value) // 2]


class Shouted(BaseConverter):
    def to_python(self, value):
        return value.upper()

    def to_url(self, value):
        return value.lower()


class AppMixin:
    who = 'first'

    def greet(self):
        return 'app mixin'


class OtherAppMixin:
    who = 'second'

    def part(self):
        return 'other'


class ReqMixin:
    who = 'req'

    @property
    def flavour(self):
        return 'req ' + self.path


class OtherReqMixin:
    who = 'other req'
    shade = 'dark'


def middleware(app, mark, after='', **extra):
    """Notes what passes through it, on the way in and on the way out"""
    def wrapped(env, start_response):
        env['marks'] = env.get('marks', '') + mark

        def start(status, headers, exc_info=None):
            headers = list(headers) + [
                ('X-Mark', mark + after + ''.join(sorted(extra)))]
            return start_response(status, headers)
        return app(env, start)
    return wrapped


def body(label):
    def view(app, req, **kwargs):
        return Response('%s %r %s %s %s %s %s' % (
            label, sorted(kwargs.items()),
            req.environ.get('marks', ''),
            req.environ['verktyg.application'] is app,
            getattr(req, 'flavour', None), getattr(req, 'shade', None),
            getattr(req, 'binding', None) is not None))
    view.__name__ = 'n_' + label
    return view


class Model:
    """What one builder has been told"""

    def __init__(self, redirects=True, mixins=True):
        self.routes = []          # (path, endpoint, converter or None)
        self.bindings = []        # (endpoint, method, label)
        self.handlers = [('redirect', None)] if redirects else []
        self.converters = {}
        self.middleware = []      # (mark, what it adds on the way out)
        self.config = {}
        self.app_mixins = []
        self.req_mixins = []
        self.default_mixins = mixins

    def snapshot(self, root):
        new = Model()
        for name, value in vars(self).items():
            setattr(new, name, value if isinstance(value, bool)
                    else type(value)(value))
        new.root = root
        return new


# each operation changes a builder and, in the same way, its model

def op_expose_route(b, m):
    f = body('E')
    if b.expose(route='/e')(f) is not f:
        fail('expose does not return the function')
    m.routes.append(('/e', 'n_E', None))
    m.bindings.append(('n_E', 'GET', 'E'))


def op_expose_post(b, m):
    f = body('P')
    b.expose('posted', methods=['POST'], route='/p')(f)
    m.routes.append(('/p', 'posted', None))
    m.bindings.append(('posted', 'POST', 'P'))


def op_expose_again(b, m):
    """The same endpoint once more: the newer wins"""
    b.expose('n_E')(body('E2'))
    m.bindings.append(('n_E', 'GET', 'E2'))


def op_routes(b, m):
    b.add_routes(Submount('/s', [Route('/x', endpoint='sx'),
                                 Route('/dir/', endpoint='sd')]),
                 EndpointPrefix('pre.', [Route('/q', endpoint='q')]))
    m.routes += [('/s/x', 'sx', None), ('/s/dir/', 'sd', None),
                 ('/q', 'pre.q', None)]


def op_bindings(b, m):
    inner = Dispatcher()
    expose(inner, 'sd')(body('SD'))
    b.add_bindings(View('sx', body('SX')), inner,
                   Binding('pre.q', body('Q')))
    m.bindings += [('sx', 'GET', 'SX'), ('sd', 'GET', 'SD'),
                   ('pre.q', 'GET', 'Q')]


def op_converted(b, m):
    b.add_routes(Submount('/c', [Route('/<conv:v>', endpoint='c')]))
    b.add_bindings(View('c', body('C')))
    m.routes.append(('/c/*', 'c', 'conv'))
    m.bindings.append(('c', 'GET', 'C'))


def op_doubled(b, m):
    b.add_converters(conv=Doubled)
    m.converters['conv'] = 'double'


def op_shouted(b, m):
    b.add_converters(conv=Shouted, unused=Doubled)
    m.converters['conv'] = 'shout'


def handler(label):
    def handle(app, req, t, v, tb):
        return Response('%s %s' % (label, req.environ.get('marks', '')),
                        status=getattr(v, 'code', 500))
    return handle


def op_handler(b, m):
    f = handler('H1')
    if b.exception_handler(HTTPException)(f) is not f:
        fail('exception_handler does not return the function')
    m.handlers.append((HTTPException, 'H1'))


def op_handlers(b, m):
    b.add_exception_handlers(
        ExceptionDispatcher([ExceptionHandler(NotFound, handler('H2'))]))
    b.add_exception_handler(Exception, handler('H3'))
    m.handlers += [(NotFound, 'H2'), (Exception, 'H3')]


def op_middleware(b, m):
    b.add_middleware(middleware, 'a')
    m.middleware.append(('a', 'a'))


def op_middleware_args(b, m):
    b.add_middleware(middleware, 'b', after='!', more=1)
    m.middleware.append(('b', 'b!more'))


def op_config(b, m):
    b.config['k'] = b.config.get('k', 0) + 1
    m.config['k'] = m.config.get('k', 0) + 1


def op_config_replace(b, m):
    b.config = {'z': 1}
    m.config = {'z': 1}


def op_app_mixins(b, m):
    b.add_application_mixins(AppMixin)
    if AppMixin not in m.app_mixins:
        m.app_mixins.append(AppMixin)


def op_both_mixins(b, m):
    b.add_application_mixins(AppMixin, OtherAppMixin, AppMixin)
    b.add_request_mixins(OtherReqMixin, OtherReqMixin)
    for mixin in (AppMixin, OtherAppMixin):
        if mixin not in m.app_mixins:
            m.app_mixins.append(mixin)
    if OtherReqMixin not in m.req_mixins:
        m.req_mixins.append(OtherReqMixin)


def op_req_mixins(b, m):
    b.add_request_mixins(ReqMixin)
    if ReqMixin not in m.req_mixins:
        m.req_mixins.append(ReqMixin)


TELL = [op_expose_route, op_expose_post, op_expose_again, op_routes,
        op_bindings, op_converted, op_doubled, op_shouted, op_handler,
        op_handlers, op_middleware, op_middleware_args, op_config,
        op_config_replace, op_app_mixins, op_both_mixins, op_req_mixins]


def op_config_falsy(b, m):
    b.config.update(none=None, zero=0, empty='', off=False)
    m.config.update(none=None, zero=0, empty='', off=False)


TELL.append(op_config_falsy)


def op_other_mixin(b, m):
    b.add_application_mixins(OtherAppMixin)
    if OtherAppMixin not in m.app_mixins:
        m.app_mixins.append(OtherAppMixin)


TELL.append(op_other_mixin)
BUILD = len(TELL)           # build an application from the first builder
OTHER = len(TELL) + 1       # swap the two builders
ROOTS = ['', 'http://example.org', 'https://example.org/At',
         'http://example.org:8080']


def expected(m, path, method, query):
    """(status, body) or the name of the exception that escapes"""
    exc = None
    for pattern, endpoint, converter in m.routes:
        kwargs = []
        if pattern.endswith('*'):
            if not path.startswith(pattern[:-1]) or path == pattern[:-1]:
                continue
            value = path[len(pattern) - 1:]
            kwargs = [('v', value * 2 if m.converters['conv'] == 'double'
                       else value.upper())]
        elif pattern == path + '/':
            exc = 'redirect'
            break
        elif pattern != path:
            continue
        named = [b for b in m.bindings if b[0] == endpoint]
        if not named:
            exc = 501
            break
        fitting = [b for b in named if b[1] == method]
        if not fitting:
            exc = 405
            break
        marks = ''.join(mark for mark, _ in reversed(m.middleware))
        return 200, '%s %r %s %s %s %s %s' % (
            fitting[-1][2], kwargs, marks, True,
            'req ' + path if ReqMixin in m.req_mixins else None,
            'dark' if OtherReqMixin in m.req_mixins else None, True)
    else:
        exc = 404
    mro = ['redirect', Exception] if exc == 'redirect' else (
        [NotFound, HTTPException, Exception] if exc == 404
        else [HTTPException, Exception])
    if exc == 'redirect':
        # a redirect is an http error like the others
        mro = ['redirect', HTTPException, Exception]
    for cls in mro:
        for kind, label in reversed(m.handlers):
            if kind != cls:
                continue
            if kind == 'redirect':
                return 301, None
            marks = ''.join(mark for mark, _ in reversed(m.middleware))
            return (301 if exc == 'redirect' else exc), '%s %s' % (
                label, marks)
    return 'escapes', exc


ASKS = [('/e', 'GET', ''), ('/p', 'POST', ''), ('/p', 'GET', ''),
        ('/s/x', 'GET', ''), ('/s/dir', 'GET', 'a=1&b=%C3%A9&a=2'),
        ('/s/dir', 'GET', 'q=\xc3\xa9'), ('/s/dir/', 'GET', ''), ('/q', 'GET', ''), ('/c/ab', 'GET', ''),
        ('/nope', 'GET', '')]
LINKS = [('n_E', {}), ('posted', {}), ('sx', {}), ('sd', {'page': 2}),
         ('pre.q', {}), ('c', {'v': 'abab'}), ('sx', {'page': ''}),
         ('sd', {'page': None}), ('n_E', {'page': 0})]


def observe(app, m, cx, what):
    for path, method, query in ASKS:
        cx.step()
        result = call(app, environ(path, method, query=query))
        want = expected(m, path, method, query)
        here = '%s: %s %s' % (what, method, path)
        cx.outcome((method, path, want[0]))
        if want[0] == 'escapes':
            if result.error is None:
                fail('%s: got %r, should raise' % (here, result.status))
            continue
        same(result.error, None, here)
        same(result.code, want[0], here)
        if want[1] is not None:
            same(result.body.decode('utf-8'), want[1], here)
        elif m.root:
            same(result.get('Location'), m.root + path + '/?' +
                 query.replace('\xc3\xa9', '%C3%A9'), here)
        same(result.getlist('X-Mark'), [out for _, out in m.middleware],
             here + ' marks')
    for endpoint, values in LINKS:
        cx.step()
        want = None
        for pattern, name, converter in m.routes:
            if name == endpoint:
                want = pattern
                break
        if want is not None:
            if want.endswith('*'):
                want = want[:-1] + (
                    'ab' if m.converters['conv'] == 'double' else 'abab')
            if m.root.endswith('/At'):
                want = '/At' + want
            if 'page' in values:
                want += {None: ''}.get(
                    values['page'], '?page=%s' % values['page'])
        try:
            got = app.url_for(endpoint, **values)
        except BuildError:
            got = None
        same(got, want, '%s: url_for(%r, %r)' % (what, endpoint, values))
    same(dict(app.config), m.config, what + ': config')
    try:
        app.config['new'] = 1
    except TypeError:
        pass
    else:
        fail('%s: the configuration can be changed' % what)
    same(isinstance(app, BaseApplication), True, what)
    for mixin in (AppMixin, OtherAppMixin):
        same(isinstance(app, mixin), mixin in m.app_mixins, what + ' mixin')
    same(issubclass(app.request_class, BaseRequest), True, what)
    # the mixin which was added first wins
    same(getattr(app, 'who', None),
         m.app_mixins[0].who if m.app_mixins else None, what + ' mixins')
    same(getattr(app.request_class, 'who', None),
         m.req_mixins[0].who if m.req_mixins else None,
         what + ' request mixins')
    for mixin in (ReqMixin, OtherReqMixin):
        same(issubclass(app.request_class, mixin), mixin in m.req_mixins,
             what + ' request mixin')
    for name in ('authorization', 'if_none_match', 'cache_control',
                 'content_length'):
        same(hasattr(app.request_class, name), m.default_mixins,
             '%s: %s' % (what, name))


def run_history(case, cx):
    word, root, redirects, mixins = case
    root = ROOTS[root]
    pair = []
    for _ in range(2):
        pair.append((
            ApplicationBuilder(default_redirect_handler=redirects,
                               default_request_mixins=mixins),
            Model(redirects, mixins)))
    apps = []
    what = 'history %r' % ([
        TELL[i].__name__ if i < BUILD else {BUILD: 'build',
                                            OTHER: 'other'}[i]
        for i in word],)

    def build(builder, model):
        cx.step()
        missing = 'conv' not in model.converters and any(
            r[2] for r in model.routes)
        # each route belongs to one application only
        once = any(r[0] in ('/e', '/p') for r in model.routes)
        if once and getattr(model, 'built', False):
            return
        try:
            app = builder(root) if root else builder()
        except LookupError:
            same(missing, True, what + ': unknown converter')
            if once:
                model.built = True
            return
        same(missing, False, what + ': unknown converter')
        model.built = True
        apps.append((app, model.snapshot(root)))

    for code in word:
        cx.step()
        builder, model = pair[0]
        if code == OTHER:
            pair.reverse()
        elif code == BUILD:
            build(builder, model)
            if apps and len(word) < 4:
                observe(*apps[-1], cx, what + ' midway')
        else:
            TELL[code](builder, model)
    for builder, model in pair:
        build(builder, model)
    for app, model in apps:
        observe(app, model, cx, what)
    cx.state((case, len(apps)))


def history_cases(depth, every):
    def gen():
        symbols = list(range(len(TELL))) + [BUILD, OTHER]
        for n in range(0, depth + 1):
            for number, word in enumerate(
                    itertools.product(symbols, repeat=n)):
                if any(a == b == OTHER for a, b in zip(word, word[1:])):
                    continue
                if n < depth or every:
                    for root in range(4):
                        yield word, root, True, True
                    if n < 3:
                        yield word, 1, False, True
                        yield word, 1, True, False
                else:
                    yield word, (sum(word) + n) % 4, True, True
    return gen


# -- one application within another, one request after another ---------------

def run_nested(case, cx):
    """What an application adds to the environment of a request is about
    that application, even if another one was there before."""
    names, how, keep = case
    env = environ('/x')
    apps = {}
    seen = []

    def make(name):
        builder = ApplicationBuilder()

        @builder.expose('x', route='/x')
        def view(app, req):
            seen.append((name, app is apps[name],
                         req.environ['verktyg.application'] is apps[name],
                         req.environ['verktyg.request'] is req,
                         req.binding.name, isinstance(
                             req, apps[name].request_class)))
            return Response(name)
        apps[name] = builder('http://%s.example' % name)
        same(apps[name].url_for('x'), '/x', 'url of ' + name)

    for name in 'abc':
        make(name)
    if how == 'after':
        for name in names:
            copy = env if keep else environ('/x')
            same(call(apps[name], copy).body, name.encode(), 'response')
            cx.step()
    else:
        # each is asked by the one before
        def chain(rest):
            builder = ApplicationBuilder()
            level = str(len(rest))

            @builder.expose('x', route='/x')
            def view(app, req):
                inner = req.environ if keep else dict(req.environ)
                body = call(apps[rest[0]] if len(rest) == 1
                            else chain(rest[1:]), inner).body
                same(app is apps[level], True, 'application of the view')
                return Response(body)
            apps[level] = builder()
            return apps[level]
        same(call(chain(names), env).body, names[-1].encode(), 'response')
        cx.step()
        same([s[0] for s in seen], [names[-1]], 'views called')
    for entry in seen:
        same(entry[1:], (True, True, True, 'x', True),
             'environment of %s' % entry[0])
    cx.outcome(len(seen))
    cx.state(case)


def nested_cases(depth):
    def gen():
        for n in range(1, depth + 1):
            for names in itertools.product('abc', repeat=n):
                for how in ('after', 'within'):
                    for keep in (True, False):
                        yield names, how, keep
    return gen


# -- mixins come in the order they were added --------------------------------

def run_order(case, cx):
    kind, word, grouped, defaults, names = case
    mixins = [type(names % i if '%' in names else names, (), {
        'who': i, 'only%d' % i: True, 'path': property(lambda self: 'mixin'),
        'url_for': lambda self, name: 'mixin', 'added': i})
        for i in range(6)]
    builder = ApplicationBuilder(default_request_mixins=defaults)
    add = builder.add_application_mixins if kind == 'application' \
        else builder.add_request_mixins
    if grouped:
        for at in range(0, len(word), grouped):
            add(*[mixins[i] for i in word[at:at + grouped]])
    else:
        add(*[mixins[i] for i in word])
    seen = {}

    @builder.expose('x', route='/x')
    def view(app, req):
        thing = app if kind == 'application' else req
        seen['mro'] = [c for c in type(thing).__mro__ if c in mixins]
        seen['who'] = thing.who
        return Response(thing.path if kind == 'request' else
                        thing.url_for('x'))
    app = builder()
    cx.step()
    result = call(app, environ('/x'))
    same((result.error, result.code), (None, 200), 'response')
    # what the application and the request do themselves stays
    same(result.body, b'/x', 'body')
    order = list(dict.fromkeys(word))
    same(seen['mro'], [mixins[i] for i in order], 'order')
    same(seen['who'], order[0], 'the first wins')
    cx.outcome(len(order))
    cx.state(case)


def order_cases(depth):
    def gen():
        for kind in ('application', 'request'):
            for defaults in ((True, False) if kind == 'request' else (True,)):
                for n in range(1, depth + 1):
                    for word in itertools.product(range(4), repeat=n):
                        for grouped in (0, 1, 2):
                            for names in ('M%d', 'Mixin'):
                                yield kind, word, grouped, defaults, names
                for word in itertools.permutations(range(6)):
                    yield kind, word, 0, defaults, 'M%d'
                    yield kind, word, 0, defaults, 'Request'
    return gen


# -- a decorator used for several functions ----------------------------------

def run_decorators(case, cx):
    given, route, times, kind = case
    builder = ApplicationBuilder()
    views = []
    for i in range(times):
        def view(app, req, i=i):
            return Response('view %d' % i)
        view.__name__ = 'v%d' % i
        views.append(view)
    kwargs = {'methods': ['GET', 'POST']}
    if kind == 'handler':
        builder.add_routes(Route('/r', endpoint='r'))

        @builder.expose('r')
        def fails(app, req):
            raise KeyError('k')
        decorate = builder.exception_handler(
            KeyError, content_type='text/html')
        for i in range(times):
            def handle(app, req, t, v, tb, i=i):
                return Response('view %d' % i)
            same(decorate(handle) is handle, True, 'decorator')
        result = call(builder(), environ('/r'))
        same(result.body, b'view %d' % (times - 1), 'handled')
        cx.step()
        cx.outcome(kind)
        cx.state(case)
        return
    if route:
        kwargs['route'] = '/r'
    if given is not None:
        kwargs['endpoint'] = given
    if kind == 'builder':
        decorate = builder.expose(**kwargs)
    else:
        kwargs.pop('route', None)
        decorate = expose(builder, kwargs.pop('endpoint', None) or 'v0',
                          **kwargs)
        builder.add_routes(Route('/r', endpoint=given or 'v0'))
    for view in views:
        same(decorate(view) is view, True, 'decorator')
    if not route and kind == 'builder':
        for i in range(times):
            if given is None or i == 0:
                builder.add_routes(
                    Route('/r%d' % i, endpoint=given or 'v%d' % i))
    app = builder()
    asked = {}
    if kind == 'expose' or given is not None:
        # the newest one
        asked['/r' if kind == 'expose' or route else '/r0'] = times - 1
    elif route:
        # all have the same route: the first one wins or the last
        pass
    else:
        asked = {'/r%d' % i: i for i in range(times)}
    if kind == 'builder' and given is None:
        for i in range(times):
            same(app.url_for('v%d' % i), '/r' if route else '/r%d' % i,
                 'url')
    for path, i in asked.items():
        for method in ('GET', 'POST'):
            result = call(app, environ(path, method))
            same((result.error, result.body), (None, b'view %d' % i),
                 'response of %s' % path)
            cx.step()
    cx.outcome(len(asked))
    cx.state(case)


def decorator_cases():
    return itertools.product((None, 'e'), (True, False), (1, 2, 3),
                             ('builder', 'expose', 'handler'))


# -- names of endpoints may be anything --------------------------------------

def run_names(case, cx):
    given, route, methods = case
    builder = ApplicationBuilder()

    def view(app, req):
        return Response('view')
    kwargs = {'methods': methods} if methods else {}
    if route:
        kwargs['route'] = '/r'
    args = () if given == 'omitted' else (given,)
    if builder.expose(*args, **kwargs)(view) is not view:
        fail('expose does not return the function')
    name = 'view' if given in ('omitted', None) else given
    if not route:
        builder.add_routes(Route('/r', endpoint=name))
    app = builder('http://example.org')
    same(app.url_for(name), '/r', 'url')
    for method in ('GET', 'POST', 'HEAD'):
        cx.step()
        result = call(app, environ('/r', method))
        fine = method in (methods or ['GET']) or (
            method == 'HEAD' and 'GET' in (methods or ['GET']))
        if fine:
            same((result.error, result.code), (None, 200), 'response')
        else:
            same(getattr(result.error, 'code', None), 405, 'error')
        cx.outcome(fine)
    cx.state(case)


def name_cases():
    return itertools.product(
        ('omitted', None, 'n', '', 'a.b', '\xfc', ' '), (True, False),
        (None, ('POST',), ('GET', 'POST')))


# -- a view gets exactly what the route says ----------------------------------

VALUES = [None, 0, '', 'x', False, 1.5, (), 'none']


def run_arguments(case, cx):
    defaults, placeholder, kind = case
    builder = ApplicationBuilder()
    seen = []

    def view(app, req, **kwargs):
        seen.append(kwargs)
        return Response('fine')
    values = dict(zip('abc', defaults))
    path = '/r' + placeholder[0]
    builder.add_routes(Route(path, defaults=dict(values), endpoint='r'))
    if kind == 'expose':
        builder.expose('r')(view)
    elif kind == 'binding':
        builder.add_bindings(Binding('r', view))
    else:
        builder.add_bindings(Dispatcher([View('r', view)]))
    app = builder()
    for text, value in placeholder[1]:
        del seen[:]
        result = call(app, environ('/r' + text))
        same((result.error, result.code), (None, 200), 'response')
        want = dict(values)
        if value is not None:
            want['value'] = value
        same(seen, [want], 'arguments of the view')
        same([type(seen[0][key]) for key in sorted(want)],
             [type(want[key]) for key in sorted(want)], 'their types')
        cx.step()
        cx.outcome(len(want))
    cx.state(case)


def argument_cases():
    placeholders = [
        ('', [('', None)]), ('/<value>', [('/0', '0'), ('/None', 'None')]),
        ('/<int:value>', [('/0', 0), ('/7', 7)]),
        ('/<path:value>', [('/a/b', 'a/b'), ('/0', '0')])]
    for n in range(4):
        for defaults in itertools.product(VALUES[:5] if n == 3 else VALUES,
                                          repeat=n):
            for placeholder in placeholders:
                for kind in ('expose', 'binding', 'nested'):
                    yield defaults, placeholder, kind


# -- many of everything -------------------------------------------------------

SIZES = tuple(range(1, 21)) + (33, 65, 129)


def run_sizes(case, cx):
    shape, together, n = case
    builder = ApplicationBuilder()

    def tell(method, *things):
        if together:
            method(*things)
        else:
            for thing in things:
                method(thing)

    def view(app, req, **kwargs):
        seen.append((app, req, kwargs))
        return Response('v%d' % len(kwargs))
    seen = []
    paths = ['/e']
    want = {'/e': (200, b'v0')}
    builder.expose('e', route='/e')(view)
    if shape == 'middleware':
        for i in range(n):
            builder.add_middleware(middleware, '%d.' % i)
    elif shape in ('app mixins', 'req mixins'):
        mixins = [type('M%d' % i, (), {'who': i, 'only%d' % i: i})
                  for i in range(n)]
        tell(builder.add_application_mixins if shape == 'app mixins'
             else builder.add_request_mixins, *mixins)
    elif shape == 'routes':
        tell(builder.add_routes, *[
            Route('/r%d/<value>' % i, endpoint='e%d' % i) for i in range(n)])
        tell(builder.add_bindings, *[
            Binding('e%d' % i, lambda app, req, i=i, **kw: Response(
                '%d %s' % (i, kw['value']))) for i in range(n)])
        for i in range(n):
            want['/r%d/x' % i] = 200, b'%d x' % i
        want['/r%d/x' % n] = 404, None
    elif shape == 'methods':
        tell(builder.add_bindings, *[
            Binding('e', lambda app, req, i=i: Response('m%d' % i),
                    method='M%d' % i) for i in range(n)])
    elif shape == 'converters':
        for i in range(n):
            builder.add_converters(**{'c%d' % i: Doubled if i % 2
                                      else Shouted})
        for i in range(n):
            builder.add_routes(Route('/c%d/<c%d:value>' % (i, i),
                                     endpoint='c'))
        builder.expose('c')(lambda app, req, value: Response(value))
        for i in range(n):
            want['/c%d/x' % i] = 200, (b'xx' if i % 2 else b'X')
    elif shape == 'handlers':
        errors = [type('E%d' % i, (Exception,), {}) for i in range(n)]

        @builder.expose('f', route='/f/<int:number>')
        def failing(app, req, number):
            raise errors[number]()
        tell(builder.add_exception_handlers, *[
            ExceptionHandler(errors[i], lambda app, req, t, v, tb, i=i:
                             Response('h%d' % i, status=500 + i % 3))
            for i in range(n)])
        for i in range(n):
            want['/f/%d' % i] = 500 + i % 3, b'h%d' % i
    else:
        for i in range(n):
            builder.config['k%d' % i] = i
    app = builder()
    for path, (code, text) in want.items():
        cx.step()
        result = call(app, environ(path))
        if code == 404:
            same(type(result.error).__name__, 'NotFound', 'error')
            continue
        same((result.error, result.code, result.body), (None, code, text),
             'response to ' + path)
    application, request, _ = seen[0]
    if shape == 'middleware':
        marks = ['%d.' % i for i in range(n)]
        same(request.environ['marks'], ''.join(reversed(marks)), 'marks')
        result = call(app, environ('/e'))
        same([v for k, v in result.headers if k == 'X-Mark'], marks,
             'marks of the response')
    elif shape in ('app mixins', 'req mixins'):
        thing = application if shape == 'app mixins' else request
        same([c for c in type(thing).__mro__ if c in mixins], mixins,
             'order of mixins')
    elif shape == 'methods':
        for i in range(n):
            result = call(app, environ('/e', method='M%d' % i))
            same(result.body, b'm%d' % i, 'method %d' % i)
    elif shape == 'routes':
        for i in range(n):
            same(app.url_for('e%d' % i, value='y'), '/r%d/y' % i, 'url_for')
    elif shape == 'configuration':
        same(dict(app.config), {'k%d' % i: i for i in range(n)}, 'config')
    cx.state(case)
    cx.outcome(shape)


def size_cases():
    return itertools.product(
        ('middleware', 'app mixins', 'req mixins', 'routes', 'methods',
         'converters', 'handlers', 'configuration'), (True, False), SIZES)


# -- values that look alike ---------------------------------------------------

ALIKE = [1, True, 1.0, '1', 0, False, 0.0, '0', '']


def run_alike(case, cx):
    endpoint, values = case

    def make():
        builder = ApplicationBuilder()
        builder.add_routes(Route('/s/<value>', endpoint='s'),
                           Route('/i/<int:value>', endpoint='i'),
                           Route('/f/<float:value>', endpoint='f'),
                           Route('/q', endpoint='q'))
        return builder()

    def build(app, value):
        try:
            return app.url_for(endpoint, value=value)
        except (BuildError, ValueError) as e:
            return type(e).__name__
    app = make()
    for value in values:
        same(build(app, value), build(make(), value),
             'url for {!r} after {!r}'.format(value, values))
        cx.step()
    cx.state(case)
    cx.outcome(endpoint)


def alike_cases():
    for endpoint in 'sifq':
        for values in itertools.product(ALIKE, repeat=2):
            yield endpoint, values


check = Check('C25', [
    Space('histories', run_history, history_cases(3, True),
          history_cases(4, False), chunk=20),
    Space('nested', run_nested, nested_cases(3), nested_cases(4), chunk=10),
    Space('order of mixins', run_order, order_cases(3), order_cases(4),
          chunk=30),
    Space('arguments', run_arguments, argument_cases, chunk=50),
    Space('decorators', run_decorators, decorator_cases, chunk=4),
    Space('endpoint names', run_names, name_cases, chunk=10),
    Space('sizes', run_sizes, size_cases, chunk=10),
    Space('alike', run_alike, alike_cases, chunk=50),
], bounds='all histories of up to 3 (thorough: 4) of %d operations on two '
    'builders, including building several applications, under three roots'
    % (len(TELL) + 2))
