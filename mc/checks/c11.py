"""C11: validators and conditional requests."""
import itertools
from datetime import datetime, timedelta

from verktyg.application import ApplicationBuilder
from verktyg.http import (
    ETags, generate_etag, http_date, is_resource_modified, parse_etags,
    quote_etag, unquote_etag,
)
from verktyg.requests import Request
from verktyg.responses import BaseResponse, ETagResponseMixin, Response

from mc.core import Check, Space, caught, expect, same, strings, words
from mc.wsgi_client import call, environ

T0 = datetime(2015, 3, 4, 5, 6, 7)


def date(offset):
    when = T0 + timedelta(seconds=offset)
    days = ('Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun')
    months = ('Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep',
              'Oct', 'Nov', 'Dec')
    return '%s, %02d %s %d %02d:%02d:%02d GMT' % (
        days[when.weekday()], when.day, months[when.month - 1], when.year,
        when.hour, when.minute, when.second)


def render(tag):
    """(weak, value) or '*'"""
    if tag == '*':
        return '*'
    weak, value = tag
    return {None: '', 'w': 'w/', 'W': 'W/'}[weak] + '"%s"' % value


def tag_matches(etag, tags):
    """The documented comparison: weak tags are compared with weak and strong
    ones, strong tags with strong ones only."""
    if '*' in tags:
        return True
    weak, value = etag
    for w, v in tags:
        if v == value and (weak or not w):
            return True
    return False


def unmodified(etag, modified, tags, since):
    result = False
    if since is not None and modified is not None and modified <= since:
        result = True
    if etag is not None and tags:
        result = tag_matches(etag, tags)
    return result


def run_decide(case, cx):
    etag, modified, tags, sep, since, method, how = case
    headers = []
    if tags is not None:
        headers.append(('If-None-Match', sep.join(render(t) for t in tags)))
    if since is not None:
        headers.append(('If-Modified-Since',
                        date(since) if isinstance(since, int) else since))
    env = environ(method=method, headers=headers)
    since_value = since if isinstance(since, int) else None
    want = unmodified(etag, modified, tags or (), since_value)
    if method not in ('GET', 'HEAD'):
        want = False
    raw = render(etag) if etag is not None else None
    if how == 'function':
        if method not in ('GET', 'HEAD'):
            return
        got = not is_resource_modified(
            env, raw, None,
            None if modified is None
            else T0 + timedelta(seconds=modified, microseconds=999999))
        same(got, want, 'unmodified')
        got = not is_resource_modified(
            env, raw, None, None if modified is None else date(modified))
        same(got, want, 'unmodified with a string')
    else:
        response = Response('content')
        if etag is not None:
            response.set_etag(etag[1], weak=bool(etag[0]))
        if modified is not None:
            response.last_modified = T0 + timedelta(seconds=modified)
        target = env if how == 'environ' else Request(env)
        same(response.make_conditional(target) is response, True, 'returns')
        result = call(response, env)
        same(result.code, 304 if want else 200, 'status')
        if want or method == 'HEAD':
            same(result.body, b'', 'body')
        else:
            same(result.body, b'content', 'body')
            same(result.get('Content-Length'), '7', 'length')
        if method in ('GET', 'HEAD'):
            expect(result.get('Date') is not None, 'no date')
        if etag is not None:
            same(unquote_etag(result.get('ETag')), (etag[1], bool(etag[0])),
                 'etag of the response')
    cx.step()
    cx.state(case)
    cx.outcome((want, etag is not None, modified is not None, method))


TAGS = [(None, 'x'), ('w', 'x'), (None, 'y'), ('W', 'y'), (None, 'a,b'), '*']


def decisions(depth, seps, methods, hows):
    def gen():
        etags = [None, (None, 'x'), ('w', 'x'), (None, 'y'), (None, 'a,b')]
        headers = [None] + list(words(TAGS, depth, 1))
        for tags in headers:
            for sep in (seps if tags and len(tags) > 1 else seps[:1]):
                for etag, modified, since, method, how in itertools.product(
                        etags, (None, 0, 1),
                        (None, -1, 0, 1, 3600, 'garbage', ''),
                        methods, hows):
                    yield etag, modified, tags, sep, since, method, how
    return gen


# -- sets of tags ------------------------------------------------------------

def run_set(case, cx):
    strong, weak, star = case
    sets = [ETags(strong, weak, star)]
    if not star:
        sets.append(parse_etags(sets[0].to_header()))
        tags = [render((None, t)) for t in strong] + [
            render(('W', t)) for t in weak]
        sets.append(parse_etags(', '.join(tags)))
        sets.append(parse_etags(','.join(reversed(tags))))
        sets.append(parse_etags('  ,  '.join(tags)))
        env = environ(headers=[('If-Match', ', '.join(tags)),
                               ('If-None-Match', ', '.join(tags))])
        sets.append(Request(env).if_match)
        sets.append(Request(env).if_none_match)
    elif not weak:
        sets.append(parse_etags('*'))
        same(sets[0].to_header(), '*', 'header')
    for etags in sets:
        same(bool(etags.star_tag), star, 'star')
        same(bool(etags), bool(strong or weak or star), 'truth')
        if not star:
            same(set(etags.as_set()), set(strong), 'strong tags')
            same(set(etags.as_set(True)), set(strong) | set(weak), 'all tags')
            same(set(etags), set(strong), 'iteration')
        for tag in UNIVERSE:
            cx.step()
            in_strong = star or tag in strong
            same(etags.contains(tag), in_strong, 'contains %r' % tag)
            same(tag in etags, in_strong, 'in %r' % tag)
            same(etags.is_weak(tag), tag in weak, 'is_weak %r' % tag)
            same(etags.contains_weak(tag), in_strong or tag in weak,
                 'contains_weak %r' % tag)
            same(etags.contains_raw('"%s"' % tag), in_strong,
                 'contains_raw strong %r' % tag)
            for prefix in ('w/', 'W/'):
                same(etags.contains_raw(prefix + '"%s"' % tag),
                     in_strong or tag in weak, 'contains_raw weak %r' % tag)
            if not star:
                same(etags(tag), tag in strong, 'call %r' % tag)
                same(etags(tag, include_weak=True),
                     tag in strong or tag in weak, 'weak call %r' % tag)
    cx.state(case)
    cx.outcome((len(strong), len(weak), star))


UNIVERSE = ['x', 'y', 'a,b', 'a b', '*', 'W/', '']


def tag_sets():
    for strong in powerset(UNIVERSE):
        for weak in powerset(UNIVERSE, 2):
            yield strong, weak, False
    for weak in powerset(UNIVERSE):
        yield (), weak, True


def powerset(values, most=None):
    for n in range((len(values) if most is None else most) + 1):
        yield from itertools.combinations(values, n)


# -- single tags -------------------------------------------------------------

def run_tag(value, cx):
    cx.step()
    for weak in (False, True):
        kind, quoted = caught(quote_etag, value, weak)
        if '"' in value:
            same((kind, quoted), ('raised', 'ValueError'), 'quote_etag')
            kind, _ = caught(Response().set_etag, value, weak)
            same(kind, 'raised', 'set_etag')
            continue
        same(kind, 'ok', 'quote_etag')
        same(unquote_etag(quoted), (value, weak), 'unquote_etag')
        same(quoted.lower().startswith('w/'), weak, 'weak prefix')
        response = Response()
        response.set_etag('other')
        response.set_etag(value, weak)
        same(response.get_etag(), (value, weak), 'get_etag')
        same(len(response.headers.getlist('etag')), 1, 'number of etags')
        # what the server sends is recognised when it comes back
        sent = response.headers['ETag']
        expect(parse_etags(sent).contains_raw(sent), 'not recognised')
        env = environ(headers=[('If-None-Match', sent)])
        expect(not is_resource_modified(env, sent) or not value,
               'own etag {!r} does not match', sent)
    cx.state(value)
    cx.outcome('"' in value)


def run_unquote_total(value, cx):
    etag, weak = unquote_etag(value)
    if value:
        expect(isinstance(etag, str) and weak in (True, False), 'types')
    tags = parse_etags(value)
    header = tags.to_header()
    again = parse_etags(header)
    if '"' not in value:
        same(again.as_set(True), tags.as_set(True), 'reparsed tags')
    env = environ(headers=[('If-None-Match', value)])
    is_resource_modified(env, '"x"')
    cx.step()
    cx.state(value)
    cx.outcome((weak, tags.star_tag))


# -- many tags ---------------------------------------------------------------

MANY = sorted(set(range(1, 40)) | {63, 64, 65, 99, 100, 101, 127, 128, 129,
                                   255, 256, 257, 512, 1000, 1024, 1025})


def run_many(n, cx):
    """Many tags, and long ones"""
    tags = ['t%d' % i for i in range(n)]
    for weak in ('', 'W/', 'w/'):
        for sep in (', ', ','):
            header = sep.join(weak + '"%s"' % t for t in tags)
            etags = parse_etags(header)
            same(set(etags.as_set(True)), set(tags), 'all tags')
            same(set(etags.as_set()), set() if weak else set(tags), 'strong')
            again = parse_etags(etags.to_header())
            same(again.as_set(True), etags.as_set(True), 'written')
            for i in {0, n // 2, n - 1, n}:
                for own in ('', 'W/'):
                    env = environ(headers=[('If-None-Match', header)])
                    same(is_resource_modified(env, own + '"t%d"' % i),
                         i == n or weak != '' and own == '', 'modified')
                    same(is_resource_modified(env, own + '"T%d"' % i), True,
                         'another tag')
                    cx.step()
    for tag in ('x' * n, 'x ' * n, '\\' * n, ',' * n):
        run_tag(tag, cx)
        env = environ(headers=[
            ('If-None-Match', '"%s", "other"' % tag)])
        expect(is_resource_modified(env, '"%sz"' % tag), 'longer tag')
        expect(is_resource_modified(env, '"%s"' % tag[:-1]), 'shorter tag')
        expect(is_resource_modified(env, '"%s"' % tag.swapcase())
               or tag.swapcase() == tag, 'other case')
    cx.state(n)
    cx.outcome(n)


# -- generated etags ---------------------------------------------------------

def run_generate(case, cx):
    a, b = case
    same(generate_etag(a) == generate_etag(b), a == b,
         'etags of %r and %r' % (a, b))
    expect('"' not in generate_etag(a), 'unusable etag')
    first, second = Response(a), Response([b])
    first.add_etag()
    second.add_etag(weak=True)
    same(first.get_etag()[0] == second.get_etag()[0], a == b, 'add_etag')
    same((first.get_etag()[1], second.get_etag()[1]), (False, True), 'weak')
    # existing tags are only replaced when asked for
    old = first.headers['etag']
    first.set_data(b)
    first.add_etag()
    same(first.headers['etag'], old, 'etag was replaced')
    first.add_etag(overwrite=True)
    same(first.get_etag(), (generate_etag(b), False), 'etag not replaced')
    same(not is_resource_modified(
        environ(headers=[('If-None-Match', old)]), data=b), a == b,
        'comparison with data')

    class Mixed(ETagResponseMixin, BaseResponse):
        pass
    frozen = Mixed(iter([a]))
    frozen.freeze()
    same(frozen.get_etag(), (generate_etag(a), False), 'etag after freeze')
    frozen = Mixed(iter([a]))
    frozen.freeze(no_etag=True)
    same(frozen.get_etag(), (None, None), 'etag after freeze(no_etag)')
    for etag, weak in (('mine', False), ('mine', True), ('', False)):
        frozen = Mixed(iter([a]))
        frozen.set_etag(etag, weak)
        frozen.freeze()
        same(frozen.get_etag(), (etag, weak), 'own etag after freeze')
    cx.step()
    cx.state(case)
    cx.outcome(a == b)


# -- caches ------------------------------------------------------------------

def run_cache(case, cx):
    """A client that caches must always see what the server has."""
    mode, method_mix, history = case
    server = {'content': b'A', 'time': 0}
    builder = ApplicationBuilder()

    @builder.expose('index', route='/')
    def index(app, req):
        response = Response(server['content'])
        if mode in ('etag', 'weak', 'both'):
            response.add_etag(weak=mode == 'weak')
        if mode in ('date', 'both'):
            response.last_modified = T0 + timedelta(seconds=server['time'])
        return response.make_conditional(req)

    app = builder('http://example.com')
    cached = {}
    fresh = False

    for action in history:
        cx.step()
        if action in 'ABC':
            content = action.encode('ascii')
            if content != server['content']:
                fresh = False
            if mode in ('date', 'both') and content != server['content']:
                server['time'] += 1
            server['content'] = content
            continue
        headers = []
        if cached:
            # a client lists everything it has in its cache
            if mode != 'date':
                headers.append(('If-None-Match', ', '.join(cached)))
            if mode in ('date', 'both'):
                headers.append(('If-Modified-Since', cached_date))
        method = 'HEAD' if action == 'h' else 'GET'
        result = call(app, environ('/', method=method, headers=headers))
        expect(result.error is None, 'failed {!r}', result.error)
        if mode != 'date':
            tag = result.get('ETag')
            expect(tag, 'no etag')
            known = tag in cached
        else:
            tag = 'x'
            known = bool(cached) and fresh
        same(result.code, 304 if known else 200, 'status')
        if action == 'h':
            same(result.body, b'', 'body of HEAD')
            continue
        if result.code == 200:
            cached[tag] = result.body
            if mode in ('date', 'both'):
                cached_date = result.get('Last-Modified')
                expect(cached_date, 'no last modified')
            fresh = True
        else:
            same(result.body, b'', 'body of 304')
        same(cached[tag], server['content'], 'content seen by the client')
    cx.state((mode, sorted(cached.items()), server['content']))
    cx.outcome((mode, len(cached)))


def caches(depth):
    def gen():
        for mode in ('etag', 'weak', 'date', 'both'):
            for history in strings('ABCgh', depth):
                yield mode, None, history
    return gen


# -- request attributes ------------------------------------------------------

def run_request(case, cx):
    name, attr, offset = case
    headers = [] if offset is None else [
        (name, date(offset) if isinstance(offset, int) else offset)]
    req = Request(environ(headers=headers))
    got = getattr(req, attr)
    if attr == 'if_range':
        if isinstance(offset, int):
            same(got.date, T0 + timedelta(seconds=offset), 'if_range date')
            same(got.etag, None, 'if_range etag')
            same(got.to_header(), date(offset), 'if_range header')
        elif offset is None:
            same((got.date, got.etag), (None, None), 'if_range')
            same(got.to_header(), '', 'if_range header')
        else:
            same(got.date, None, 'if_range date')
            same(got.etag, unquote_etag(offset)[0], 'if_range etag')
    elif isinstance(offset, int):
        same(got, T0 + timedelta(seconds=offset), attr)
        same(http_date(got), date(offset), 'dumped date')
    else:
        same(got, None, attr)
    expect(getattr(req, attr) is got, 'attribute changed')
    cx.step()
    cx.state(case)
    cx.outcome(attr)


def request_cases():
    for name, attr in (('If-Modified-Since', 'if_modified_since'),
                       ('If-Unmodified-Since', 'if_unmodified_since'),
                       ('If-Range', 'if_range')):
        for offset in [None, 0, 1, 59, 3600, 86400, 31 * 86400, -1,
                       366 * 86400, '"x"', 'w/"y"', 'unquoted']:
            yield name, attr, offset


DATA = [b'', b'a', b'b', b'ab', b'ba', b'\x00', b'a' * 100, b'A', b'a\n',
        b'\xff', b'a' * 200000, b'a' * 199999 + b'b', b'b' + b'a' * 199999]

check = Check('C11', [
    Space('decision', run_decide,
          decisions(2, [', ', ','], ['GET', 'HEAD', 'POST'],
                    ['function', 'environ', 'request']),
          decisions(3, [', ', ',', ' , '], ['GET', 'HEAD', 'POST', 'PUT'],
                    ['function', 'environ', 'request'])),
    Space('tag sets', run_set, tag_sets),
    Space('tags', run_tag, lambda: strings('aAW/*, "', 4),
          lambda: strings('aAwW/*, "\'', 5)),
    Space('many tags', run_many, lambda: iter(MANY),
          lambda: iter(sorted(set(MANY) | set(range(1, 400)))), chunk=2),
    Space('tag parser', run_unquote_total,
          lambda: strings('xW/*, "', 5), lambda: strings('xW/*, "', 7)),
    Space('generated tags', run_generate,
          lambda: itertools.product(DATA, DATA)),
    Space('caches', run_cache, caches(5), caches(7),
          rule='all histories of changes and requests of a caching client'),
    Space('request dates', run_request, request_cases),
], bounds='up to 3 entity tags per header, cache histories of up to 7 steps',
    assumptions=['two versions of a resource modified within the same second '
                 'have different entity tags or dates'])
