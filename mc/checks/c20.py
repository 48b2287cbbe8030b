"""C20: mounted applications and shared files get exactly their own requests.

The files live in a scratch directory which each worker process creates and
removes.  Anything the middleware could reach outside of the exported folders
is a marker file in the same scratch directory.
"""
import atexit
import importlib
import itertools
import os
import shutil
import sys
import tempfile
import zipfile
from email.utils import formatdate, parsedate_to_datetime

import verktyg.wsgi
from verktyg.wsgi import DispatcherMiddleware, SharedDataMiddleware

from mc.core import Check, Space, expect, same, words
from mc.wsgi_client import call, environ

BIG = bytes(range(256)) * 80      # several reads

FILES = {
    'pub/a.txt': b'a of pub',
    'pub/sub/a.txt': b'a of sub',
    'pub/sub/b.html': b'<b>',
    'pub/k.qzq': b'secret',
    'pub/sub/k.qzq': b'secret too',
    'pub/noext': BIG,
    'pub/t.tar.gz': b'packed',
    'other/a.txt': b'a of other',
    'other/b.html': b'<b> of other',
    'other/only.css': b'',
    'pubx/a.txt': b'a of pubx',
    'outside.txt': b'outside',
    'a.txt': b'outside too',
}
TYPES = {'txt': 'text/plain', 'html': 'text/html', 'css': 'text/css',
         'gz': 'application/x-tar'}

_scratch = {}


def scratch():
    """One directory for each process"""
    pid = os.getpid()
    if pid not in _scratch:
        base = tempfile.mkdtemp(prefix='verktyg-mc-')
        _scratch[pid] = base
        for n, (name, content) in enumerate(sorted(FILES.items())):
            put(base, name, content, 1000000000 + n * 100)
    return _scratch[pid]


def put(base, name, content, mtime):
    path = os.path.join(base, name)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'wb') as f:
        f.write(content)
    os.utime(path, (mtime, mtime))


def drop():
    base = _scratch.pop(os.getpid(), None)
    if base is not None and os.path.basename(base).startswith('verktyg-mc-'):
        shutil.rmtree(base, ignore_errors=True)


class Opened:
    """Notes which files the middleware opens"""

    def __enter__(self):
        self.files = []

        def opener(*args, **kwargs):
            f = open(*args, **kwargs)
            self.files.append(f)
            return f
        verktyg.wsgi.open = opener
        return self

    def __exit__(self, *args):
        del verktyg.wsgi.open

    def check(self):
        for f in self.files:
            expect(f.closed, 'the file is still open')


class Wrapped:
    def __init__(self):
        self.calls = []

    def __call__(self, env, start_response):
        self.calls.append(env)
        start_response('418 wrapped', [('X-Wrapped', '1')])
        return [b'wrapped']


# -- the model ---------------------------------------------------------------

def clean(path):
    return [s for s in path.split('/') if s and s != '..']


def locate(exports, path):
    """The file which the exports have for the path: None if there is none,
    ... if the property does not say."""
    segments = clean(path)
    for key, target in exports:
        prefix = clean(key)
        if segments[:len(prefix)] != prefix:
            continue
        rest = segments[len(prefix):]
        if target in FILES:
            if rest:
                return ...
            return target
        if not rest:
            continue
        name = target + '/' + '/'.join(s for s in rest if s != '.')
        if rest[-1] != '.' and name in FILES:
            return name
        if any(s == '.' for s in rest):
            return ...
    return None


def is_disallowed(name, disallow):
    base = name.split('/')[-1]
    if disallow is None:
        return False
    for rule in [disallow] if isinstance(disallow, str) else disallow:
        if rule == base or (rule[:1] == '*' and base.endswith(rule[1:])):
            return True
    return False


def served(result, content, name, cache, timeout, mtime):
    same(result.code, 200, 'status')
    same(result.body, content, 'content')
    same(result.get('Content-Length'), str(len(content)), 'length')
    extension = name.rpartition('.')[2] if '.' in name else None
    same(result.get('Content-Type').split(';')[0],
         TYPES.get(extension, 'application/x-fallback'), 'type')
    same(parsedate_to_datetime(result.get('Last-Modified')).timestamp(),
         float(int(mtime)), 'last modified')
    control = result.get('Cache-Control')
    expect('public' in control, 'cache control {}', control)
    same(result.get('Etag') is not None, cache, 'has an etag')
    same(result.get('Expires') is not None, cache, 'expires')
    same('max-age=%d' % timeout in control.replace(' ', '').split(','), cache,
         'max-age in %s' % control)
    if cache:
        ahead = (parsedate_to_datetime(result.get('Expires')) -
                 parsedate_to_datetime(result.get('Date'))).total_seconds()
        expect(abs(ahead - timeout) <= 30, 'expires in {}', ahead)


def run_static(case, cx):
    exports, disallow, cache, timeout, path = case
    base = scratch()
    wrapped = Wrapped()
    app = SharedDataMiddleware(
        wrapped, {k: os.path.join(base, v) for k, v in exports},
        disallow=disallow, cache=cache, cache_timeout=timeout,
        fallback_mimetype='application/x-fallback')
    want = locate(exports, path)
    env = environ(path.encode('utf-8', 'ignore').decode('utf-8'),
                  query='q=1')
    # bytes which are not text are written as surrogates here
    env['PATH_INFO'] = path.encode('utf-8', 'surrogateescape').decode(
        'latin1')
    before = dict(env)
    with Opened() as opened:
        result = call(app, env, catch=False)
        opened.check()
    cx.step()
    same(result.started, 1, 'responses')
    # whatever is served comes from an exported file
    allowed = set()
    for key, target in exports:
        allowed.update(
            content for name, content in FILES.items()
            if (name == target or name.startswith(target + '/')) and
            not is_disallowed(name, disallow))
    if result.code == 200:
        expect(result.body in allowed, 'served {!r}', result.body)
    if want is ...:
        return
    if want is None or is_disallowed(want, disallow):
        same(result.code, 418, 'status of %r' % path)
        same(result.body, b'wrapped', 'body')
        same(len(wrapped.calls), 1, 'calls of the wrapped application')
        for key in before:
            same(wrapped.calls[0].get(key), before[key], 'environ ' + key)
        cx.outcome('wrapped')
    else:
        same(wrapped.calls, [], 'calls of the wrapped application')
        mtime = os.path.getmtime(os.path.join(base, want))
        served(result, FILES[want], want, cache, timeout, mtime)
        cx.outcome(want)
        # the client asks again, with what it was told
        etag, date = result.get('Etag'), result.get('Last-Modified')
        asks = [([('If-Modified-Since', date)], 304),
                ([('If-Modified-Since', formatdate(mtime - 1, usegmt=True))],
                 200),
                ([('If-Modified-Since', formatdate(mtime + 1, usegmt=True))],
                 304),
                ([('If-None-Match', '"other"')], 200)]
        if cache:
            asks += [([('If-None-Match', etag)], 304),
                     ([('If-None-Match', '"x", ' + etag)], 304),
                     ([('If-None-Match', etag),
                       ('If-Modified-Since', date)], 304)]
        for headers, status in asks:
            with Opened() as opened:
                again = call(app, environ(path, headers=headers),
                             catch=False)
                opened.check()
            cx.step()
            if status == 304 and cache:
                same(again.code, 304, 'status for %r' % (headers,))
                same(again.body, b'', 'body')
                same(again.get('Etag'), etag, 'etag')
            else:
                same(again.code, 200, 'status for %r' % (headers,))
                same(again.body, FILES[want], 'content')
        # only reading can be answered with nothing
        for method in ('POST', 'PUT'):
            headers = [('If-None-Match', etag)] if etag else []
            again = call(app, environ(path, method=method, headers=headers),
                         catch=False)
            cx.step()
            same(again.code, 200, 'status for ' + method)
            same(again.body, FILES[want], 'content')
        # the client goes away
        for stop in (0, 1, 2):
            with Opened() as opened:
                part = call(app, environ(path), stop_after=stop, catch=False)
                opened.check()
            expect(FILES[want].startswith(part.body), 'content')
            cx.step()
        # the server has a better way of sending files
        handed = []

        def wrapper(f, size=None):
            handed.append(f)
            return [f.read()]
        env = environ(path)
        env['wsgi.file_wrapper'] = wrapper
        again = call(app, env, catch=False)
        same(len(handed), 1, 'files handed to the server')
        handed[0].close()
        same(again.body, FILES[want], 'content')
    cx.state((case, want))


EXPORTS = (('/s', 'pub'), ('/s/sub', 'other'), ('/', 'other'),
           ('/s/a.txt', 'pubx/a.txt'), ('/sub', 'pub/sub'), ('/s/', 'pubx'))
SEGMENTS = ('s', 'sub', 'a.txt', 'b.html', 'k.qzq', 'noext', '..', '', '.',
            'sx', 'only.css', 'outside.txt', 'pub')


def static(n, depth):
    def gen():
        paths = ['/' + '/'.join(w) for w in words(SEGMENTS, depth)]
        paths += ['', '//s//a.txt', '/s/../../outside.txt',
                  '/s/../pubx/a.txt', '/s/..././a.txt', '/s/%2e%2e/a.txt',
                  '/s/..\\outside.txt', '/s/a.txt\0', '/s/..//../a.txt',
                  '/../outside.txt', '/s/sub/../../outside.txt',
                  '/s/sub/..', '/s/sub/a.txt/', '/s//etc/passwd',
                  '/s/.../a.txt', '/s/a.txt/..', '/s/t.tar.gz',
                  '/s/\udcff', '/s/a\udcff/a.txt', '/\udcc3(']
        for k in range(0, n + 1):
            for exports in itertools.permutations(EXPORTS, k):
                for path in paths:
                    yield exports, None, True, 43200, path
                    if k <= 1:
                        yield exports, '*.qzq', False, 60, path
                        yield exports, ['*.html', 'a.txt'], True, 60, path
                        yield (exports, ['*.css', 'x', '*.qzq', 'b.html'],
                               True, 86400 * 365, path)
    return gen


# -- rules of one's own ------------------------------------------------------

class Ruled(SharedDataMiddleware):
    def is_allowed(self, filename):
        return not filename.endswith(('.qzq', '.html'))

    def generate_etag(self, mtime, file_size, real_filename):
        return 'own-%d' % file_size


def run_ruled(case, cx):
    disallow, cache, path = case
    base = scratch()
    app = Ruled(Wrapped(), {'/s': os.path.join(base, 'pub'),
                            '/f': os.path.join(base, 'a.txt')},
                disallow=disallow, cache=cache)
    name = locate((('/s', 'pub'), ('/f', 'a.txt')), path)
    if name is ...:
        return
    if disallow is None:
        hidden = name is not None and name.endswith(('.qzq', '.html'))
    else:
        # takes the place of what the class says
        hidden = name is not None and is_disallowed(name, disallow)
    result = call(app, environ(path), catch=False)
    cx.step()
    cx.outcome(result.code)
    cx.state((case, result.code))
    if name is None or hidden:
        same(result.code, 418, 'status')
        return
    same(result.code, 200, 'status')
    same(result.body, FILES[name], 'content')
    etag = '"own-%d"' % len(FILES[name]) if cache else None
    same(result.get('Etag'), etag, 'entity tag')
    if cache:
        for tags, status in ((etag, 304), ('"x"', 200), ('W/"y", ' + etag, 304)):
            again = call(app, environ(
                path, headers=[('If-None-Match', tags)]), catch=False)
            same(again.code, status, 'status for ' + tags)
            cx.step()


def ruled():
    return itertools.product(
        (None, '*.txt', ['*.qzq'], []), (True, False),
        ['/' + '/'.join(w) for w in words(
            ('s', 'f', 'sub', 'a.txt', 'b.html', 'k.qzq', 'noext'), 3)])


# -- many exports, rules, segments and mounts ----------------------------------

SIZES = tuple(range(1, 21)) + (33, 65)


def run_many(case, cx):
    what, n = case
    base = scratch()
    pub = os.path.join(base, 'pub')
    wrapped = Wrapped()

    def ask(app, path):
        cx.step()
        with Opened():
            result = call(app, environ(path), catch=False)
        return result.code, result.body

    missing = ask(wrapped, '/nothing')
    want = 200, FILES['pub/a.txt']
    if what == 'exports':
        for order in (1, -1):
            exports = [('/d%d' % i, pub if i % 2 else
                        os.path.join(pub, 'a.txt')) for i in range(n)]
            app = SharedDataMiddleware(wrapped, dict(exports[::order]))
            for i in range(n):
                same(ask(app, '/d%d%s' % (i, '/a.txt' if i % 2 else '')),
                     want, 'export %d of %d' % (i, n))
            same(ask(app, '/d%d/a.txt' % n)[0], missing[0], 'no export')
    elif what == 'rules':
        for at in sorted({0, n // 2, n - 1}):
            rules = ['*.no%d' % i for i in range(n)]
            rules[at] = '*.qzq'
            app = SharedDataMiddleware(wrapped, {'/s': pub}, disallow=rules)
            same(ask(app, '/s/a.txt'), want, 'allowed')
            same(ask(app, '/s/k.qzq')[0], missing[0], 'disallowed')
    elif what == 'depth':
        parts = ['deep'] + ['d%d' % i for i in range(n)]
        name = '/'.join(parts + ['x.txt'])
        put(base, name, b'deep down', 1000000000)
        try:
            app = SharedDataMiddleware(
                wrapped, {'/s': os.path.join(base, 'deep'),
                          '/' + '/'.join(parts): pub})
            same(ask(app, '/s/' + name[5:]), (200, b'deep down'), 'deep file')
            same(ask(app, '/' + '/'.join(parts) + '/a.txt'), want,
                 'long export')
            same(ask(app, '/s/' + name[5:-6])[0], missing[0], 'folder')
        finally:
            shutil.rmtree(os.path.join(base, 'deep'))
    else:
        mounts = tuple('/m%d' % i if i % 2 else '/m%d' % (i + 1) + '/x' * i
                       for i in range(n))
        for i in sorted({0, 1, n // 2, n - 1, n}):
            for path in ('/m%d' % i, '/m%d/a' % i, '/m%dx' % i,
                         '/m%d' % i + '/x' * (i - 1) + '/y/z',
                         '/m%d' % i + '/x' * i + '/y', '/m1' + '/a' * n):
                run_mount((mounts, None, '', path), cx)
    cx.state(case)
    cx.outcome(what)


def many():
    return itertools.product(('exports', 'rules', 'depth', 'mounts'), SIZES)


# -- several requests to the same middleware --------------------------------

def run_requests(case, cx):
    """Each is answered as if it was the only one"""
    disallow, paths = case
    base = scratch()
    exports = {'/s': os.path.join(base, 'pub'),
               '/f': os.path.join(base, 'a.txt'),
               '/': os.path.join(base, 'other')}

    def middleware():
        return SharedDataMiddleware(
            Wrapped(), dict(exports),
            disallow=disallow if isinstance(disallow, str) else (
                disallow and list(disallow)))

    def ask(app, path, headers=()):
        with Opened() as opened:
            result = call(app, environ(path, headers=headers), catch=False)
            opened.check()
        cx.step()
        return result.code, result.body, result.get('Etag'), (
            result.get('Content-Type'))
    shared = middleware()
    for path in paths:
        want = ask(middleware(), path)
        same(ask(shared, path), want, 'answer for %r' % path)
        name = locate((('/s', 'pub'), ('/f', 'a.txt'), ('/', 'other')), path)
        same(want[0], 418 if name is None or is_disallowed(name, disallow)
             else 200, 'status of %r' % path)
        if want[2]:
            same(ask(shared, path, [('If-None-Match', want[2])])[0], 304,
                 'status of %r once known' % path)
    cx.outcome(len(paths))
    cx.state(case)


def sequences(depth):
    def gen():
        names = ('/s/a.txt', '/s/k.qzq', '/s/sub/k.qzq', '/b.html', '/f',
                 '/a.txt', '/missing')
        for disallow in (None, '*.qzq', ('*.html', '*.qzq'),
                         ('a.txt', 'x', '*.qzq')):
            for chosen in words(names, depth, 1):
                yield disallow, chosen
    return gen


# -- data of packages --------------------------------------------------------

PACKAGED = {
    'data/a.txt': b'a of data',
    'data/sub/b.html': b'<b> of data',
    'data/sub/noext': BIG,
    'data/k.qzq': b'',
    'other/a.txt': b'a of other',
    'a.txt': b'a of the package',
    '__init__.py': b'secret = 1',
}


def packages():
    """The names of a package in a folder and of one in an archive"""
    base = scratch()
    names = 'mcfolder%d' % os.getpid(), 'mczipped%d' % os.getpid()
    if not os.path.exists(os.path.join(base, names[0])):
        with zipfile.ZipFile(os.path.join(base, 'z.zip'), 'w') as z:
            for name, content in PACKAGED.items():
                put(os.path.join(base, names[0]), name, content, 1000000000)
                z.writestr('%s/%s' % (names[1], name), content)
        sys.path[:0] = [base, os.path.join(base, 'z.zip')]
        importlib.invalidate_caches()
    return names


def run_package(case, cx):
    which, exports, disallow, path = case
    package = packages()[which]
    wrapped = Wrapped()
    app = SharedDataMiddleware(
        wrapped, {k: (package, v) for k, v in exports}, disallow=disallow,
        fallback_mimetype='application/x-fallback')
    segments = clean(path)
    want = None
    for key, target in exports:
        prefix = clean(key)
        rest = segments[len(prefix):]
        if segments[:len(prefix)] == prefix and rest:
            name = target + '/' + '/'.join(rest)
            if name in PACKAGED:
                want = name
                break
    with Opened() as opened:
        result = call(app, environ(path), catch=False)
        opened.check()
    cx.step()
    if want is None or is_disallowed(want, disallow):
        same(result.code, 418, 'status of %r' % path)
        same(len(wrapped.calls), 1, 'calls of the wrapped application')
        cx.outcome('wrapped')
        cx.state((case, None))
        return
    same(wrapped.calls, [], 'calls of the wrapped application')
    same(result.code, 200, 'status')
    same(result.body, PACKAGED[want], 'content')
    same(result.get('Content-Length'), str(len(PACKAGED[want])), 'length')
    etag = result.get('Etag')
    for method, headers, status in (
            ('GET', [('If-None-Match', etag)], 304),
            ('GET', [('If-None-Match', '"other"')], 200),
            ('POST', [('If-None-Match', etag)], 200)):
        again = call(app, environ(path, method=method, headers=headers),
                     catch=False)
        cx.step()
        same(again.code, status, 'status for %r' % (headers,))
        same(again.body, b'' if status == 304 else PACKAGED[want], 'content')
    cx.outcome(want)
    cx.state((case, want))


def packaged(depth):
    def gen():
        exports = (('/s', 'data'), ('/s/sub', 'other'), ('/', 'data/sub'))
        names = ('s', 'sub', 'a.txt', 'b.html', 'noext', 'k.qzq', '..', '',
                 '__init__.py', 'data')
        for which in (0, 1):
            for k in (1, 2):
                for some in itertools.permutations(exports, k):
                    for disallow in (None, ['*.html']):
                        for path in words(names, depth):
                            yield which, some, disallow, '/' + '/'.join(path)
    return gen


# -- a file that changes -----------------------------------------------------

VERSIONS = [(b'one', 1000000000.0), (b'two', 1000000001.0),
            (b'three', 1000000060.5), (b'', 1000000000.0),
            (b'one' + bytes(65536), 1000000000.0), (b'on', 1000000000.0)]
OPS = ('w0', 'w1', 'w2', 'w3', 'w4', 'w5', 'delete', 'get', 'etag', 'since')


def run_history(ops, cx):
    base = scratch()
    folder = os.path.join(base, 'history')
    path = os.path.join(folder, 'x.txt')
    if os.path.exists(path):
        os.remove(path)
    os.makedirs(folder, exist_ok=True)
    wrapped = Wrapped()
    app = SharedDataMiddleware(
        wrapped, {'/h': folder}, fallback_mimetype='application/x-fallback')
    current = None
    known = None      # (etag, date, content, mtime) which the client has
    for op in ops:
        cx.step()
        if op[0] == 'w':
            current = VERSIONS[int(op[1])]
            put(folder, 'x.txt', *current)
        elif op == 'delete':
            current = None
            if os.path.exists(path):
                os.remove(path)
        else:
            headers = []
            if op == 'etag' and known:
                headers = [('If-None-Match', known[0])]
            elif op == 'since' and known:
                headers = [('If-Modified-Since', known[1])]
            with Opened() as opened:
                result = call(app, environ('/h/x.txt', headers=headers),
                              catch=False)
                opened.check()
            if current is None:
                same(result.code, 418, 'status of a missing file')
                known = None
            else:
                fresh = False
                if headers and op == 'etag':
                    fresh = known[2:] == current
                elif headers:
                    fresh = int(current[1]) <= int(known[3])
                if fresh:
                    same(result.code, 304, 'status of an unchanged file')
                    same(result.body, b'', 'body')
                    cx.outcome('304')
                else:
                    served(result, current[0], 'x.txt', True, 43200,
                           current[1])
                    known = (result.get('Etag'),
                             result.get('Last-Modified')) + current
                    cx.outcome('200')
        cx.state((current, known and known[2:]))


def history(depth):
    def gen():
        for ops in words(OPS, depth, least=1):
            # the last operation looks
            if ops[-1] in ('get', 'etag', 'since'):
                yield ops
    return gen


# -- mounted applications ----------------------------------------------------

class Leaf:
    def __init__(self, name, log):
        self.name = name
        self.log = log

    def __call__(self, env, start_response):
        self.log.append((self.name, env))
        start_response('200 OK', [])
        return [self.name.encode('utf-8')]


MOUNTS = ('/a', '/b', '/a/b', '/a/a', '/a/b/a', '/ab', '')


def dispatch(mounts, path):
    """(mount or None, remaining path)"""
    segments = path.split('/')
    for n in range(len(segments), 0, -1):
        prefix = '/'.join(segments[:n])
        if prefix in mounts:
            return prefix, path[len(prefix):]
    return None, path


def run_mount(case, cx):
    mounts, inner, script, path = case
    log = []
    default = Leaf('default', log)
    tree = {m: Leaf(m, log) for m in mounts}
    if inner is not None:
        tree[inner[0]] = DispatcherMiddleware(
            Leaf('inner default', log),
            {m: Leaf('inner ' + m, log) for m in inner[1]})
    app = DispatcherMiddleware(default, tree)
    if path is None:
        env = environ('/', script=script)
        del env['PATH_INFO']
        path = ''
    else:
        env = environ(path, script=script)
    before = dict(env)
    result = call(app, env, catch=False)
    cx.step()
    mount, rest = dispatch(tree, path)
    name = 'default' if mount is None else mount
    prefix = mount or ''
    if inner is not None and mount == inner[0]:
        second, rest = dispatch(inner[1], rest)
        name = 'inner ' + ('default' if second is None else second)
        prefix += second or ''
    same([n for n, _ in log], [name], 'application for %r' % path)
    seen = log[0][1]
    same(seen['SCRIPT_NAME'], script + prefix, 'script name')
    same(seen['PATH_INFO'], rest, 'path info')
    same(seen['SCRIPT_NAME'] + seen['PATH_INFO'], script + path, 'whole path')
    for key in before:
        if key not in ('SCRIPT_NAME', 'PATH_INFO'):
            same(seen.get(key), before[key], 'environ ' + key)
    same(result.body, name.encode('utf-8'), 'body')
    cx.outcome(name)
    cx.state((mounts, inner, name, rest))


def mounted(n, depth):
    def gen():
        paths = ['/' + '/'.join(w) for w in words(
            ('a', 'b', 'ab', ''), depth)]
        for k in range(0, n + 1):
            for mounts in itertools.combinations(MOUNTS, k):
                for path in paths + ['', None]:
                    yield mounts, None, '', path
                    if k <= 2:
                        yield mounts, None, '/root', path
                        for inner in (('/a', ('/a', '/b')),
                                      ('/a/b', ('/a', '')), ('', ('/a',))):
                            yield mounts, inner, '', path
    return gen


atexit.register(drop)

check = Check('C20', [
    Space('static', run_static, static(2, 3), static(3, 4), cleanup=drop),
    Space('own rules', run_ruled, ruled, cleanup=drop),
    Space('requests', run_requests, sequences(3), sequences(5),
          cleanup=drop),
    Space('packages', run_package, packaged(3), packaged(4), cleanup=drop),
    Space('history', run_history, history(5), history(6), cleanup=drop),
    Space('many', run_many, many, cleanup=drop),
    Space('mounts', run_mount, mounted(3, 4), mounted(7, 6)),
], bounds='static: every ordered choice of up to 2 (thorough 3) of 6 exports '
   'x every path of up to 3 (4) segments over 13; packages: the same for data '
   'of packages in folders and archives; history: every sequence of '
   'up to 5 (6) writes, deletions and (conditional) requests; mounts: every '
   'set of up to 3 (7) mounts, also nested, x paths of up to 4 (6) segments',
   assumptions=[
       'POSIX paths, no symbolic links out of an exported folder',
       'a file is not replaced by one with the same size and the same '
       'modification time in seconds',
   ])
