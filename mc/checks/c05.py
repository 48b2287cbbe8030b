"""C05: requests that are handled at the same time do not affect each other.

Real threads run the real code under a scheduler that decides, at each
operation on something shared, who goes on.  Every schedule with one
preemption (at the granularity of bytecodes) and with two preemptions (at the
granularity of lines or calls) is executed.
"""
import itertools
import json

from mc import scheduler as _scheduler

_scheduler.install()

import verktyg  # noqa
from verktyg import exceptions
from verktyg.application import ApplicationBuilder
from verktyg.dispatch import Binding, Dispatcher
from verktyg.exception_dispatch import ExceptionDispatcher, ExceptionHandler
from verktyg.http import (
    http_date, parse_cookie, parse_date, parse_options_header,
)
from verktyg.responses import Response
from verktyg.routing import Route, Submount, URLMap
from verktyg.views import JsonView, View
from verktyg.wsgi import DispatcherMiddleware

from mc.core import Check, Space, expect, fail, same
from mc.scheduler import Deadlock, Scheduler, package_dir, points
from mc.wsgi_client import call, environ

PACKAGE = package_dir(verktyg)


# -- what is shared, and what is done to it ----------------------------------

def make_map():
    return URLMap([
        Route('/<name>', endpoint='name'),
        Route('/<name>/<int:n>', endpoint='number'),
        Route('/index', endpoint='index'),
        Route('/d/<int:page>', endpoint='d'),
        Route('/d/', endpoint='d', defaults={'page': 1}),
        Route('/folder/', endpoint='folder'),
        Route('/old/<x>', endpoint='moved', redirect_to='new/<x>'),
        Route('/call/<int:x>', endpoint='call',
              redirect_to=lambda adapter, x: 'to/%d' % x),
        Route('/k/<any("in", "out"):a>/<float:f>', endpoint='kinds'),
        Route('/a/<int:x>', endpoint='aliased', alias=True),
        Route('/canonical/<int:x>', endpoint='aliased'),
        Route('/e/<name>/', endpoint='e', defaults={'page': 1}),
        Route('/e/<name>/<int:page>', endpoint='e'),
        Submount('/sub', [Route('/', endpoint='sub'),
                          Route('/<path:p>', endpoint='deep')]),
    ]).bind('example.com', '/app')


def outcome(function, *args, **kwargs):
    try:
        return function(*args, **kwargs)
    except exceptions.HTTPException as e:
        return type(e).__name__, getattr(e, 'new_url', None)


MAP_ACTIONS = [
    lambda a: outcome(a.match, '/index'),
    lambda a: outcome(a.match, '/joe'),
    lambda a: outcome(a.match, '/d/1', query_args='x=1'),
    lambda a: outcome(a.match, '/sub/x/y'),
    lambda a: outcome(a.match, '/folder', query_args={'a': 'b'}),
    lambda a: outcome(a.match, '/none/of/these'),
    lambda a: a.build('number', {'name': 'x', 'n': 5, 'q': 'z'}),
    lambda a: a.build('d', {'page': 1}),
    lambda a: a.build('deep', {'p': 'x/y'}, force_external=True),
    lambda a: outcome(a.match, '/old/7'),
    lambda a: a.test('/index'),
    lambda a: sorted(r.endpoint for r in a.router.iter_routes()),
    # like others, with other values
    lambda a: a.build('number', {'name': 'y', 'n': 66, 'r': 'w'}),
    lambda a: outcome(a.match, '/old/8'),
    lambda a: outcome(a.match, '/bob'),
    lambda a: outcome(a.match, '/sub/z'),
    lambda a: outcome(a.match, '/folder', query_args={'c': 'd'}),
    lambda a: a.build('deep', {'p': 'z'}, force_external=True),
    lambda a: outcome(a.match, '/joe/12'),
    lambda a: outcome(a.match, '/bob/345'),
    lambda a: outcome(a.match, '/k/in/0.5'),
    lambda a: outcome(a.match, '/k/out/1.25'),
    lambda a: a.build('kinds', {'a': 'in', 'f': 2.5}),
    lambda a: a.build('kinds', {'a': 'out', 'f': 0.25}),
    lambda a: outcome(a.match, '/a/1'),
    lambda a: outcome(a.match, '/a/2'),
    lambda a: outcome(a.match, '/call/1'),
    lambda a: outcome(a.match, '/call/2'),
    lambda a: outcome(a.match, '/e/joe/1'),
    lambda a: outcome(a.match, '/e/ann/1'),
]
MAP_TWINS = [(6, 12), (9, 13), (1, 14), (3, 15), (4, 16), (8, 17), (18, 19),
             (20, 21), (22, 23), (24, 25), (26, 27), (28, 29)]
MAP_TWINS += [(b, a) for a, b in MAP_TWINS]


def make_shared_map():
    """One map, but every request has its own adapter"""
    return make_map().router


SHARED_ACTIONS = [
    lambda m: outcome(m.bind_to_environ(environ('/index')).match),
    lambda m: outcome(m.bind_to_environ(environ(
        '/d/1', host='other.org', query='q=1')).match),
    lambda m: m.bind('third.net', '/x').build(
        'number', {'name': 'x', 'n': 5}, force_external=True),
    lambda m: outcome(m.bind('h', path_info='/folder').match),
]


class Broken(Exception):
    pass


def make_app():
    builder = ApplicationBuilder()
    builder.add_routes(
        Route('/<name>', endpoint='name'),
        Route('/index', endpoint='index'),
        Route('/d/<int:page>', endpoint='page'),
        Route('/d/', endpoint='page', defaults={'page': 1}),
        Route('/broken/<kind>', endpoint='broken'),
        Route('/folder/', endpoint='index'),
    )

    def show(app, req, **kwargs):
        return json.dumps([
            req.path, req.method, sorted(req.args.items(multi=True)),
            sorted(req.cookies.items()), req.get_data(as_text=True),
            req.headers.get('X-Who'), sorted(kwargs.items()),
            app.url_for('page', page=3, who=req.headers.get('X-Who')),
        ])

    def text(app, req, **kwargs):
        response = Response(show(app, req, **kwargs))
        response.set_cookie('who', req.headers.get('X-Who') or '-')
        return response

    def as_json(app, req, **kwargs):
        return {'shown': show(app, req, **kwargs)}

    def broken(app, req, kind):
        if kind == 'http':
            raise exceptions.Conflict(req.headers.get('X-Who'))
        raise Broken(req.headers.get('X-Who'))

    for name in ('name', 'index', 'page'):
        builder.add_bindings(
            View(name, text, content_type='text/plain'),
            JsonView(name, as_json))
    builder.add_bindings(
        View('index', text, methods=['POST'], content_type='text/plain'),
        View('broken', broken))

    @builder.exception_handler(Broken, content_type='text/plain')
    def plain(app, req, exc_type, exc, tb):
        return Response('broken for %s' % exc, status=500)

    @builder.exception_handler(exceptions.HTTPException)
    def http(app, req, exc_type, exc, tb):
        return Response('%s %s' % (exc.code, req.headers.get('X-Who')),
                        status=exc.code)

    return builder('http://example.com/')


def get(path, **kwargs):
    def action(app):
        result = call(app, environ(path, **kwargs))
        return (result.status, sorted(result.headers or ()), result.body,
                repr(result.error))
    return action


APP_ACTIONS = [
    get('/index', query='a=1', headers=[('X-Who', 'one'), ('Accept', '*/*')]),
    get('/joe', headers=[('X-Who', 'two'), ('Accept', 'application/json'),
                         ('Cookie', 'c=2')]),
    get('/d/1', query='b=3', headers=[('X-Who', 'three')]),
    get('/d/5', headers=[('X-Who', 'four'), ('Accept', 'text/plain')]),
    get('/broken/http', headers=[('X-Who', 'five')]),
    get('/broken/other', headers=[('X-Who', 'six'), ('Accept', 'text/plain')]),
    get('/index', method='POST', body=b'seven',
        headers=[('X-Who', 'seven'), ('Accept', 'text/plain')]),
    get('/x/y/z', headers=[('X-Who', 'eight')]),
    get('/index', method='DELETE', headers=[('X-Who', 'nine')]),
    get('/folder', query='c=4', headers=[('X-Who', 'ten')]),
    get('/index', headers=[('X-Who', 'eleven'), ('Accept', 'image/png')]),
    get('/jane', query='z=9', headers=[
        ('X-Who', 'twelve'), ('Accept', 'application/json')]),
    get('/broken/other', headers=[('X-Who', 'thirteen'),
                                  ('Accept', 'text/plain')]),
]


# -- requests that use everything there is

def make_rich():
    builder = ApplicationBuilder()

    @builder.expose('rich', route='/<name>', methods=['GET', 'POST'])
    def rich(app, req, name):
        auth = req.authorization
        response = Response(json.dumps([
            name, req.url, req.base_url, req.host, req.mimetype,
            sorted(req.mimetype_params.items()), req.content_length,
            auth and (auth.username, auth.password),
            req.if_none_match.to_header(), str(req.if_modified_since),
            req.range and req.range.ranges, str(req.cache_control),
            sorted(req.pragma), req.access_route, req.is_xhr,
            sorted(req.headers), sorted(req.cookies.items()),
            req.stream.read(3).decode(), req.get_data(as_text=True),
        ]), mimetype='text/plain')
        response.cache_control.max_age = len(name)
        response.vary.add(name)
        response.date = 784111777
        response.last_modified = 784111777 + len(name)
        response.set_etag(name)
        response.www_authenticate.set_basic(name)
        response.content_language.update(['de', name])
        response.set_cookie(name, name + ' value', path='/' + name)
        response.headers.add('Link', '/' + name, rel=name)
        response.location = '/' + name
        return response.make_conditional(req)
    return builder('http://example.com/')


RICH_ACTIONS = [
    get('/one', query='a=1', host='one.com', headers=[
        ('Authorization', 'Basic dTpw'), ('If-None-Match', '"one", W/"x"'),
        ('Range', 'bytes=0-5'), ('Cookie', 'c=one'), ('Pragma', 'no-cache'),
        ('Cache-Control', 'max-age=1'), ('X-Forwarded-For', '1.1.1.1')]),
    get('/second', query='b=2', host='two.com', headers=[
        ('Authorization', 'Basic dXU6cHA='), ('If-None-Match', '"other"'),
        ('Range', 'bytes=2-'), ('Cookie', 'd="two"; e=f'), ('Pragma', 'p'),
        ('Cache-Control', 'no-store'),
        ('X-Requested-With', 'XMLHttpRequest')]),
    get('/third', method='POST', body=b'some body', headers=[
        ('Content-Type', 'text/plain; charset=utf-8; a=b'),
        ('If-Modified-Since', 'Sun, 06 Nov 1994 08:49:37 GMT')]),
    get('/fourth', method='POST', body=b'another body', headers=[
        ('Content-Type', 'application/json; x="y z"'),
        ('If-Modified-Since', 'Sun, 06 Nov 2094 08:49:37 GMT')]),
]


def make_dispatchers():
    plain = Dispatcher([
        Binding('x', 'html', content_type='text/html', qs=0.9),
        Binding('x', 'json', content_type='application/json'),
        Binding('x', 'de', method='POST', language='de'),
        Binding('x', 'en', method='POST', language='en'),
    ])
    errors = ExceptionDispatcher([
        ExceptionHandler(LookupError, 'lookup'),
        ExceptionHandler(Exception, 'html', content_type='text/html'),
        ExceptionHandler(Exception, 'any'),
    ])
    return plain, errors


DISPATCH_ACTIONS = [
    lambda d: d[0].lookup('x', accept='text/html').action,
    lambda d: d[0].lookup('x', accept='application/json;q=0.5').action,
    lambda d: d[0].lookup(
        'x', method='POST', accept_language='en, de;q=0.3').action,
    lambda d: outcome(d[0].lookup, 'x', method='PUT'),
    lambda d: d[1].lookup(KeyError),
    lambda d: d[1].lookup(ValueError, accept='text/html'),
]


def make_mounts():
    def leaf(name):
        def app(env, start_response):
            start_response('200 OK', [('X-Leaf', name)])
            return [json.dumps([name, env['SCRIPT_NAME'], env['PATH_INFO']])
                    .encode('ascii')]
        return app
    return DispatcherMiddleware(leaf('default'), {
        '/a': leaf('a'), '/a/b': leaf('a/b')})


MOUNT_ACTIONS = [get('/a/b/c'), get('/a/x'), get('/'), get('/b')]

HELPER_ACTIONS = [
    lambda _: parse_date('Sun, 06 Nov 1994 08:49:37 GMT'),
    lambda _: parse_date('Tue, 01 Feb 2011 00:00:01 GMT'),
    lambda _: http_date(784111777),
    lambda _: http_date(1296518401),
    lambda _: sorted(parse_cookie('a=b; c="d\\073"').items()),
    lambda _: sorted(parse_cookie('a=x; e=f').items()),
    lambda _: parse_options_header('text/html; charset=utf-8; a="b c"'),
    lambda _: parse_options_header('text/plain; a=d'),
]

SCENARIOS = {
    'adapter': (make_map, MAP_ACTIONS),
    'map': (make_shared_map, SHARED_ACTIONS),
    'application': (make_app, APP_ACTIONS),
    'rich': (make_rich, RICH_ACTIONS),
    'dispatchers': (make_dispatchers, DISPATCH_ACTIONS),
    'mounts': (make_mounts, MOUNT_ACTIONS),
    'helpers': (lambda: None, HELPER_ACTIONS),
}


def alone(scenario, action):
    make, actions = SCENARIOS[scenario]
    thing = make()
    try:
        return 'ok', actions[action](thing)
    except Exception as e:
        return 'raised', type(e).__name__, str(e)[:300]


_alone = {}


def expected(scenario, action):
    key = scenario, action
    if key not in _alone:
        _alone[key] = alone(scenario, action)
    return _alone[key]


def run_schedule(case, cx):
    scenario, actions, warm, grain, plan = case
    make, menu = SCENARIOS[scenario]
    thing = make()
    want = [expected(scenario, a) for a in actions]
    if warm:
        for a in actions:
            try:
                menu[a](thing)
            except Exception:
                pass
    scheduler = Scheduler(
        [lambda a=a: menu[a](thing) for a in actions], plan, PACKAGE, grain)
    try:
        results = scheduler.run()
    except Deadlock:
        fail('nobody can move')
    if ('raised', 'Deadlock', '') in results:
        fail('nobody can move')
    for a, got, good in zip(actions, results, want):
        if got != good:
            fail('%s: action %d gave %r, but %r on its own' % (
                scenario, a, got, good))
    # and whatever they left behind works
    for a, good in zip(actions, want):
        try:
            got = 'ok', menu[a](thing)
        except Exception as e:
            got = 'raised', type(e).__name__, str(e)[:300]
        if got != good:
            fail('%s: action %d gave %r afterwards, but %r on its own' % (
                scenario, a, got, good))
    cx.step(scheduler.switches + 1)
    cx.outcome((scenario, actions, len(plan)))
    cx.state((scenario, actions, warm, grain, plan))


def count(scenario, action, warm, grain, memory={}):
    key = scenario, action, warm, grain
    if key not in memory:
        make, menu = SCENARIOS[scenario]
        thing = make()
        if warm:
            try:
                menu[action](thing)
            except Exception:
                pass
        memory[key] = points(lambda: menu[action](thing), PACKAGE, grain)
    return memory[key]


def one_preemption(choose, warms, grain='opcode', stride=1):
    """The first thread is interrupted once, at each of its points"""
    def gen():
        for scenario, pairs in choose.items():
            for first, second in pairs:
                for warm in warms:
                    n = count(scenario, first, warm, grain)
                    for i in range(1, n + 1, stride):
                        yield (scenario, (first, second), warm, grain,
                               ((0, i), (1, None)))
    return gen


def two_preemptions(choose, grain):
    """The first is interrupted by the second, which is interrupted by the
    first, which finishes before the second goes on"""
    def gen():
        for scenario, pairs in choose.items():
            for first, second in pairs:
                n = count(scenario, first, False, grain)
                m = count(scenario, second, False, grain)
                for i in range(1, n + 1):
                    for j in range(1, m + 1):
                        yield (scenario, (first, second), False, grain,
                               ((0, i), (1, j), (0, None)))
    return gen


def three_threads(choose, grain):
    """The first is interrupted by the second, the second by the third"""
    def gen():
        for scenario, triples in choose.items():
            for a, b, c in triples:
                n = count(scenario, a, False, grain)
                m = count(scenario, b, False, grain)
                for i in range(1, n + 1):
                    for j in range(1, m + 1):
                        for rest in ((0, None), (1, None)):
                            yield (scenario, (a, b, c), False, grain,
                                   ((0, i), (1, j), (2, None), rest))
    return gen


def some_pairs():
    def ring(n):
        return [(i, (i + k) % n) for i in range(n) for k in (0, 1)]
    pairs = {name: ring(len(actions) if name != 'adapter' else 12)
             for name, (_, actions) in SCENARIOS.items()
             if name not in ('application', 'rich')}
    pairs['adapter'] += MAP_TWINS[:12]
    return pairs


def app_pairs():
    return {'application': [(0, 1), (1, 0), (2, 3), (4, 5), (5, 4), (6, 7),
                            (3, 6), (7, 2), (1, 11), (5, 12)]}


def rich_pairs():
    return {'rich': [(0, 1), (2, 3)]}


def all_pairs():
    pairs = {name: list(itertools.product(
        range(len(actions) if name != 'adapter' else 12), repeat=2))
             for name, (_, actions) in SCENARIOS.items()
             if name not in ('application', 'rich')}
    pairs['adapter'] += MAP_TWINS
    return pairs


def every_request():
    return {'application': list(itertools.product(
        range(len(APP_ACTIONS)), repeat=2))}


QUICK_TWO = {'adapter': [(0, 1), (7, 2), (3, 6)], 'map': [(0, 1), (2, 3)],
             'dispatchers': [(0, 1), (2, 4)], 'application': [(0, 1)]}
DEEP_TWO = {'adapter': [(0, 1), (7, 2)], 'map': [(0, 1)],
            'dispatchers': [(0, 1), (2, 4)],
            'mounts': list(itertools.product(range(4), repeat=2)),
            'helpers': [(0, 1), (2, 3), (4, 5), (6, 7)]}
THREE = {'adapter': [(0, 1, 2), (7, 3, 2)], 'map': [(0, 1, 2)],
         'dispatchers': [(0, 2, 4)], 'application': [(0, 1, 2)]}

check = Check('C05', [
    Space('one preemption', run_schedule,
          one_preemption(some_pairs(), (False,)),
          one_preemption(all_pairs(), (False, True)), chunk=40),
    Space('requests', run_schedule,
          one_preemption(app_pairs(), (False,)),
          one_preemption(every_request(), (False,)), chunk=40),
    Space('rich requests', run_schedule,
          one_preemption(rich_pairs(), (False,), 'line'),
          one_preemption({'rich': list(itertools.product(
              range(4), repeat=2))}, (False,)), chunk=40),
    Space('two preemptions', run_schedule,
          two_preemptions(QUICK_TWO, 'call'),
          two_preemptions(dict(all_pairs(), **app_pairs()), 'call'),
          chunk=40),
    Space('two preemptions at lines', run_schedule,
          two_preemptions({'mounts': [(0, 1), (2, 3)],
                           'helpers': [(0, 1), (2, 3)]}, 'line'),
          two_preemptions(DEEP_TWO, 'line'), chunk=40),
    Space('three threads', run_schedule,
          three_threads({'map': [(0, 1, 2)]}, 'call'),
          three_threads(THREE, 'call'), chunk=40),
], bounds='two threads, every schedule with one preemption before any '
   'bytecode that touches something shared (thorough: all pairs of actions, '
   'cold and warm); every schedule with two preemptions at calls (thorough: '
   'all pairs, and some at lines); three threads with two preemptions at calls',
   assumptions=[
       'code outside of the package (the standard library, handlers) runs '
       'without interruption',
       'CPython with the global interpreter lock: bytecodes are atomic',
   ])
