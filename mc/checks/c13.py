"""C13: immutable containers never change, observable ones always tell."""
import copy
import itertools
import pickle

from verktyg.application import ApplicationBuilder
from verktyg.datastructures import (
    CallbackDict, CombinedMultiDict, ImmutableDict, ImmutableList,
    ImmutableMultiDict, ImmutableOrderedMultiDict,
    ImmutableTypeConversionDict, MultiDict, OrderedMultiDict,
    TypeConversionDict,
)
from verktyg.http import (
    ResponseCacheControl, WWWAuthenticate, parse_authorization_header,
    parse_cache_control_header,
)
from verktyg.requests import Request

from mc.core import (
    Check, Space, expect, fail, known_findings, same, words,
)
from mc.wsgi_client import environ

ITEMS = (('a', '1'), ('b', '2'), ('a', '3'))


def ior(d, other):
    d |= other
    return d


def iadd(d, other):
    d += other
    return d


def imul(d, n):
    d *= n
    return d


def delete(d, key):
    del d[key]


def assign(d, key, value):
    d[key] = value


DICT_OPS = {
    'set': lambda d: assign(d, 'a', '9'),
    'set new': lambda d: assign(d, 'z', '9'),
    'del': lambda d: delete(d, 'a'),
    'del missing': lambda d: delete(d, 'z'),
    'pop': lambda d: d.pop('a'),
    'pop default': lambda d: d.pop('a', None),
    'pop missing': lambda d: d.pop('z', None),
    'popitem': lambda d: d.popitem(),
    'clear': lambda d: d.clear(),
    'update': lambda d: d.update({'a': '9'}),
    'update kw': lambda d: d.update(z='9'),
    'update empty': lambda d: d.update({}),
    'setdefault': lambda d: d.setdefault('a', '9'),
    'setdefault new': lambda d: d.setdefault('z', '9'),
    'setdefault none': lambda d: d.setdefault('z'),
    'ior': lambda d: ior(d, {'a': '9'}),
    'ior pairs': lambda d: ior(d, [('z', '9')]),
    'ior empty': lambda d: ior(d, {}),
    'ior itself': lambda d: ior(d, dict(d)),
    'update nothing': lambda d: d.update(),
    'set same': lambda d: assign(d, 'a', d.get('a')),
}
MULTI_OPS = dict(DICT_OPS, **{
    'add': lambda d: d.add('a', '9'),
    'add new': lambda d: d.add('z', '9'),
    'setlist': lambda d: d.setlist('a', ['9']),
    'setlistdefault': lambda d: d.setlistdefault('a'),
    'setlistdefault new': lambda d: d.setlistdefault('z', ['9']),
    'poplist': lambda d: d.poplist('a'),
    'poplist missing': lambda d: d.poplist('z'),
    'popitemlist': lambda d: d.popitemlist(),
    'setlist same': lambda d: d.setlist('a', d.getlist('a')),
    'setlist empty': lambda d: d.setlist('z', []),
})
LIST_OPS = {
    'set': lambda l: assign(l, 0, '9'),
    'set slice': lambda l: assign(l, slice(0, 1), ['9', '8']),
    'set end': lambda l: assign(l, slice(99, None), ['9']),
    'del': lambda l: delete(l, 0),
    'del slice': lambda l: delete(l, slice(None)),
    'append': lambda l: l.append('9'),
    'remove': lambda l: l.remove('a'),
    'extend': lambda l: l.extend(['9']),
    'extend empty': lambda l: l.extend([]),
    'insert': lambda l: l.insert(0, '9'),
    'pop': lambda l: l.pop(),
    'pop first': lambda l: l.pop(0),
    'reverse': lambda l: l.reverse(),
    'sort': lambda l: l.sort(),
    'sort reverse': lambda l: l.sort(reverse=True),
    'clear': lambda l: l.clear(),
    'iadd': lambda l: iadd(l, ['9']),
    'imul': lambda l: imul(l, 2),
    'iadd empty': lambda l: iadd(l, []),
    'imul one': lambda l: imul(l, 1),
    'set slice empty': lambda l: assign(l, slice(0, 0), []),
    'del slice empty': lambda l: delete(l, slice(0, 0)),
}
HEADER_OPS = {
    'set item': lambda h: assign(h, 'a', '9'),
    'set index': lambda h: assign(h, 0, ('a', '9')),
    'set slice': lambda h: assign(h, slice(None), []),
    'del': lambda h: delete(h, 'a'),
    'del index': lambda h: delete(h, 0),
    'add': lambda h: h.add('a', '9'),
    'add params': lambda h: h.add('a', '9', b='c'),
    'add_header': lambda h: h.add_header('a', '9'),
    'set': lambda h: h.set('a', '9'),
    'setdefault': lambda h: h.setdefault('z', '9'),
    'extend': lambda h: h.extend([('a', '9')]),
    'extend empty': lambda h: h.extend([]),
    'remove': lambda h: h.remove('a'),
    'pop': lambda h: h.pop('a'),
    'pop default': lambda h: h.pop('z', None),
    'pop last': lambda h: h.pop(),
    'popitem': lambda h: h.popitem(),
    'clear': lambda h: h.clear(),
    'insert': lambda h: h.insert(0, ('a', '9')),
}
CONTROL_OPS = dict(DICT_OPS, **{
    'no_cache': lambda d: setattr(d, 'no_cache', True),
    'no_store off': lambda d: setattr(d, 'no_store', False),
    'max_age': lambda d: setattr(d, 'max_age', 5),
    'max_age off': lambda d: setattr(d, 'max_age', None),
    'max_stale': lambda d: setattr(d, 'max_stale', 5),
    'del max_age': lambda d: delattr(d, 'max_age'),
})


def flat(items):
    return dict(reversed(items))


def app_config(items):
    builder = ApplicationBuilder()
    builder.config.update(flat(items))
    config = builder('http://example.com').config
    builder.config['a'] = 'changed later'
    return config


def request(items):
    return Request(environ(
        query='&'.join('%s=%s' % item for item in items),
        headers=[('Cookie', '; '.join('%s=%s' % i for i in flat(
            items).items()))] if items else [],
        ip='1.2.3.4'))


def header_request(items):
    return Request(environ(headers=list(flat(items).items())))


DICT = ('dict', 'typed', 'config', 'cookies')
MULTI = ('multi', 'ordered', 'combined', 'args')
MAKE = {
    'dict': lambda i: ImmutableDict(flat(i)),
    'typed': lambda i: ImmutableTypeConversionDict(flat(i)),
    'config': app_config,
    'cookies': lambda i: request(i).cookies,
    'multi': lambda i: ImmutableMultiDict(list(i)),
    'ordered': lambda i: ImmutableOrderedMultiDict(list(i)),
    'combined': lambda i: CombinedMultiDict(
        [MultiDict(list(i[:1])), OrderedMultiDict(list(i[1:]))]),
    'args': lambda i: request(i).args,
    'list': lambda i: ImmutableList([k for k, v in i]),
    'route': lambda i: Request(environ(headers=[
        ('X-Forwarded-For', ', '.join(k for k, v in i))] if i else []
    )).access_route,
    'headers': lambda i: header_request(i).headers,
    'control': lambda i: parse_cache_control_header(
        ', '.join('%s=%s' % p for p in i)),
    'request control': lambda i: Request(environ(headers=[
        ('Cache-Control', ', '.join('%s=%s' % p for p in i))])).cache_control,
    'authorization': lambda i: parse_authorization_header(
        'Digest username="u", realm="r", nonce="n", uri="/", response="x", '
        + ', '.join('%s="%s"' % p for p in i)),
}
OPS = {'list': LIST_OPS, 'route': LIST_OPS, 'headers': HEADER_OPS,
       'control': CONTROL_OPS, 'request control': CONTROL_OPS,
       'authorization': DICT_OPS}
for name in DICT:
    OPS[name] = DICT_OPS
for name in MULTI:
    OPS[name] = MULTI_OPS


def contents(kind, value):
    if kind in MULTI:
        return sorted((k, list(v)) for k, v in value.lists()), list(
            value.items(multi=True)), len(value)
    if kind in ('list', 'route'):
        return list(value), len(value)
    if kind == 'headers':
        return list(value), len(value), value.get('a')
    return dict(value), list(value.items()), len(value), value.get('a')


def run_frozen(case, cx):
    kind, count, history = case
    items = ITEMS[:count]
    value = MAKE[kind](items)
    before = contents(kind, value)
    unhashable = kind == 'headers'
    if not unhashable:
        code = hash(value)
    for op in history:
        cx.step()
        try:
            got = OPS[kind][op](value)
        except (TypeError, AttributeError):
            raised = True
        else:
            raised = False
            del got
        same(contents(kind, value), before, 'contents after ' + op)
        # everything that could have changed it is refused
        expect(raised or 'off' in op or op.startswith('del max'),
               '{} was not refused', op)
        if not unhashable:
            same(hash(value), code, 'hash after ' + op)
    if not unhashable:
        again = MAKE[kind](items)
        expect(again == value, 'equal contents, unequal objects')
        same(hash(again), code, 'hash of an equal object')
        same({value: 1}[again], 1, 'as key')
    cx.state((kind, count, history[-1:]))
    cx.outcome((kind, count))


def frozen(depth):
    def gen():
        for kind in MAKE:
            counts = (0, 1, 2, 3)
            for count in counts:
                for history in words(sorted(OPS[kind]), depth):
                    yield kind, count, history
    return gen


# -- copies ------------------------------------------------------------------

MUTABLE = {'dict': dict, 'typed': TypeConversionDict, 'multi': MultiDict,
           'ordered': OrderedMultiDict}


def run_copy(case, cx):
    kind, count, op = case
    items = ITEMS[:count]
    value = MAKE[kind](items)
    before = contents(kind, value)
    thawed = value.copy()
    same(type(thawed), MUTABLE[kind], 'class of a copy')
    same(contents(kind, thawed), before, 'contents of a copy')
    expect(copy.copy(value) is value, 'copy.copy of an immutable')
    pickled = pickle.loads(pickle.dumps(value, 2))
    same(type(pickled), type(value), 'class of a pickle')
    same(contents(kind, pickled), before, 'contents of a pickle')
    expect(pickled == value, 'pickle is unequal')
    same(hash(pickled), hash(value), 'hash of a pickle')
    deep = copy.deepcopy(value)
    same(contents(kind, deep), before, 'contents of a deep copy')
    try:
        OPS[kind][op](thawed)
    except (KeyError, TypeError):
        pass
    same(contents(kind, value), before, 'original after changing the copy')
    thawed = value.copy()
    thawed['z'] = '9'
    same(thawed['z'], '9', 'copies are mutable')
    expect('z' not in value, 'change of a copy reached the original')
    # the source does not reach in either
    source = [list(items), flat(items)][kind in ('dict', 'typed')]
    if kind in ('multi', 'ordered'):
        source = MUTABLE[kind](source)
    value = {'dict': ImmutableDict, 'typed': ImmutableTypeConversionDict,
             'multi': ImmutableMultiDict,
             'ordered': ImmutableOrderedMultiDict}[kind](source)
    try:
        OPS[kind][op](source)
    except (KeyError, TypeError):
        pass
    same(contents(kind, value), before, 'contents after changing the source')
    cx.step()
    cx.state(case)
    cx.outcome(kind)


def copies():
    for kind in MUTABLE:
        for count in range(4):
            for op in sorted(OPS[kind]):
                yield kind, count, op


# -- fromkeys ----------------------------------------------------------------

def run_hash(case, cx):
    kind, a, b = case
    x, y = MAKE[kind](a), MAKE[kind](b)
    if kind == 'list':
        want = [k for k, v in a] == [k for k, v in b]
    elif kind == 'ordered':
        want = a == b
    elif kind == 'multi':
        want = {k: [v for j, v in a if j == k] for k, _ in a} == {
            k: [v for j, v in b if j == k] for k, _ in b}
    else:
        want = flat(a) == flat(b)
    same(x == y, want, '==')
    same(x != y, not want, '!=')
    if want:
        same(hash(x), hash(y), 'hash')
    same(len({x, y}), 1 if want else 2, 'set')
    cx.step()
    cx.state(case)
    cx.outcome((kind, want))


def hashes(depth):
    def gen():
        pairs = [('a', '1'), ('a', '2'), ('b', '1')]
        for kind in ('dict', 'typed', 'multi', 'ordered', 'list'):
            for a, b in itertools.product(list(words(pairs, depth)),
                                          repeat=2):
                yield kind, a, b
    return gen


# -- immutable objects of different kinds --------------------------------------

ORDERED_HASH = 'hash-of-ordered'


def run_kinds(case, cx):
    kind_a, a, kind_b, b = case
    x, y = MAKE[kind_a](a), MAKE[kind_b](b)
    same(x == y, y == x, 'symmetry')
    same(x != y, not x == y, '!=')
    for stranger in (None, 5, 'a', (), object()):
        expect(x != stranger and not x == stranger, '{!r} is {!r}', x,
               stranger)
    ordered = [MAKE_ORDERED in k for k in (kind_a, kind_b)]
    if x == y and not (ordered in ([True, False], [False, True])
                       and ORDERED_HASH in known_findings('C13')):
        same(hash(x), hash(y), 'hashes of equal objects')
    cx.step()
    cx.state(case)
    cx.outcome((kind_a, kind_b, x == y))


MAKE_ORDERED = 'ordered'


def ordered_hash_differs():
    pairs = [('a', '1')]
    x, y = ImmutableOrderedMultiDict(pairs), ImmutableMultiDict(pairs)
    return x == y and hash(x) != hash(y)


def kind_cases(depth):
    def gen():
        pairs = [('a', '1'), ('a', '2'), ('b', '1')]
        texts = list(words(pairs, depth))
        for kind_a in ('multi', 'ordered', 'combined', 'args'):
            for kind_b in ('multi', 'ordered', 'combined', 'args'):
                for a, b in itertools.product(texts, repeat=2):
                    yield kind_a, a, kind_b, b
        for kind_a in ('dict', 'typed', 'config'):
            for kind_b in ('dict', 'typed', 'config'):
                for a, b in itertools.product(texts, repeat=2):
                    yield kind_a, a, kind_b, b
        for kind_a in ('list', 'route'):
            for kind_b in ('list', 'route'):
                for a, b in itertools.product(texts, repeat=2):
                    yield kind_a, a, kind_b, b
    return gen


# -- observable dictionaries -------------------------------------------------

NOTIFY_OPS = {
    'set a 1': lambda d: assign(d, 'a', '1'),
    'set a 2': lambda d: assign(d, 'a', '2'),
    'set b': lambda d: assign(d, 'b', None),
    'del a': lambda d: delete(d, 'a'),
    'pop a': lambda d: d.pop('a'),
    'pop a dflt': lambda d: d.pop('a', '7'),
    'pop b none': lambda d: d.pop('b', None),
    'popitem': lambda d: d.popitem(),
    'clear': lambda d: d.clear(),
    'update': lambda d: d.update({'a': '2', 'b': '1'}),
    'update pairs': lambda d: d.update([('a', '2')]),
    'update kw': lambda d: d.update(b='2'),
    'setdefault a': lambda d: d.setdefault('a', '9'),
    'setdefault b': lambda d: d.setdefault('b'),
    'ior': lambda d: ior(d, {'b': '4'}),
    'get': lambda d: (d.get('a'), d.get('z'), len(d), list(d), 'a' in d,
                      list(d.items()), dict(d), d == {}, repr(d)),
}
READS = ('get',)


def run_notify(case, cx):
    kind, initial, history = case
    seen = []

    def callback(d):
        seen.append(dict(d))

    if kind == 'callback':
        d = CallbackDict(dict(initial), on_update=callback)
    elif kind == 'control':
        d = ResponseCacheControl(dict(initial), on_update=callback)
    else:
        d = WWWAuthenticate('basic', dict(initial), on_update=callback)
    model = dict(d)
    for op in history:
        del seen[:]
        before = dict(d)
        try:
            want = NOTIFY_OPS[op](model)
            failed = None
        except Exception as e:
            failed = type(e)
        try:
            got = NOTIFY_OPS[op](d)
        except Exception as e:
            expect(failed is not None and isinstance(e, failed),
                   '{} raised {!r}', op, e)
            same(seen, [], 'notified of a failed operation')
        else:
            expect(failed is None, '{} did not raise', op)
            if op == 'ior':
                expect(got is d, '|= replaced the object')
            elif op not in READS:
                same(got, want, 'result of ' + op)
        same(dict(d), model, 'contents after ' + op)
        if model != before:
            expect(seen, '{} was not notified', op)
            same(seen[-1], model, 'contents during the notification')
        if op in READS or op.startswith(('pop', 'setdefault')) and (
                model == before):
            same(seen, [], 'notified of nothing by ' + op)
        cx.step()
        cx.state((kind, sorted(model.items(), key=repr)))
    cx.outcome((kind, len(model)))
    # without a callback nothing but the notification is missing
    quiet = CallbackDict(dict(initial))
    for op in history:
        try:
            NOTIFY_OPS[op](quiet)
        except KeyError:
            pass
    if kind == 'callback':
        same(dict(quiet), model, 'contents without a callback')


def notifications(depth):
    def gen():
        for kind in ('callback', 'control', 'authenticate'):
            for initial in ((), (('a', '1'),), (('a', '1'), ('b', '2'))):
                for history in words(sorted(NOTIFY_OPS), depth):
                    yield kind, initial, history
    return gen


check = Check('C13', [
    Space('immutable', run_frozen, frozen(2), frozen(3),
          rule='every sequence of mutating calls on every immutable class'),
    Space('copies', run_copy, copies),
    Space('hashes', run_hash, hashes(3), hashes(4)),
    Space('kinds', run_kinds, kind_cases(2), kind_cases(4)),
    Space('notifications', run_notify, notifications(3), notifications(4)),
], bounds='sequences of up to 3 mutators (14 immutable containers), up to 4 '
    'operations on observable dictionaries',
    assumptions=['the items stored in a container are themselves immutable',
                 'constructors are not called again on existing objects'],
    known={ORDERED_HASH: ordered_hash_differs})
