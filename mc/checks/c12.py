"""C12: multi value dictionaries behave like a list of (key, value) pairs."""
import copy
import itertools
import pickle

from verktyg.datastructures import (
    CombinedMultiDict, ImmutableMultiDict, ImmutableOrderedMultiDict,
    MultiDict, OrderedMultiDict, TypeConversionDict,
)
from verktyg.exceptions import BadRequest

from mc.core import Check, Space, expect, fail, same, words

CLASSES = {
    'multi': MultiDict, 'ordered': OrderedMultiDict,
    'imulti': ImmutableMultiDict, 'iordered': ImmutableOrderedMultiDict,
}
KEYS = ('a', 'b', 'c')


class Model:
    """A list of pairs"""

    def __init__(self, pairs=()):
        self.pairs = list(pairs)

    def keys(self):
        return list(dict.fromkeys(k for k, _ in self.pairs))

    def getlist(self, key):
        return [v for k, v in self.pairs if k == key]

    def remove(self, key):
        self.pairs = [(k, v) for k, v in self.pairs if k != key]

    def add(self, key, value):
        self.pairs.append((key, value))


def key_error(function, *args):
    try:
        got = function(*args)
    except KeyError as e:
        # a missing field of a request is the fault of the client
        expect(isinstance(e, BadRequest), 'KeyError is not a bad request')
        if args and type(args[0]) is str:
            # the error says which key
            expect(args[0] in str(e.args), 'arguments {!r} of the error for '
                   '{!r}', e.args, args[0])
        same(e.get_response({}).status_code if hasattr(e, 'get_response')
             else e.code, 400, 'status of the error')
        return
    fail('{}{!r} gave {!r} for a missing key', function.__name__, args, got)


def to_int(value):
    return int(value)


def observe(d, model, ordered, cx, deep=True):
    """Compare every view of the dictionary with the model."""
    keys = model.keys()
    pairs = model.pairs
    norm = list if ordered else (lambda x: sorted(x, key=repr))
    first = [(k, model.getlist(k)[0]) for k in keys]
    lists = [(k, model.getlist(k)) for k in keys]

    same(len(d), len(keys), 'len')
    same(bool(d), bool(keys), 'truth')
    same(norm(d), norm(keys), 'iteration')
    same(norm(d.keys()), norm(keys), 'keys')
    same(norm(d.items()), norm(first), 'items')
    multi = list(d.items(multi=True))
    same(norm(multi), norm(pairs), 'items(multi)')
    # the order of the values of one key is kept in every case
    for key in KEYS:
        same([v for k, v in multi if k == key], model.getlist(key),
             'values of %r in items(multi)' % key)
    same(norm(d.lists()), norm(lists), 'lists')
    got = list(d.listvalues())
    same(norm(got), norm([v for k, v in lists]), 'listvalues')
    same(list(zip(d.keys(), got)), list(d.lists()), 'zip(keys, listvalues)')
    same(list(zip(d.keys(), d.values())), list(d.items()),
         'zip(keys, values)')
    same(d.to_dict(), dict(first), 'to_dict')
    same(type(d.to_dict()), dict, 'type of to_dict')
    same(d.to_dict(flat=False), dict(lists), 'to_dict(flat=False)')
    for key in KEYS:
        values = model.getlist(key)
        same(d.getlist(key), values, 'getlist')
        same(key in d, bool(values), 'in')
        if values:
            same(d[key], values[0], 'd[%r]' % key)
            same(d.get(key), values[0], 'get')
            same(d.get(key, 'z'), values[0], 'get')
        else:
            key_error(d.__getitem__, key)
            same(d.get(key), None, 'get missing')
            same(d.get(key, 'z'), 'z', 'get missing with default')
        if None in values:
            continue        # the type converter chokes on it
        ints = []
        for value in values:
            try:
                ints.append(int(value))
            except ValueError:
                pass
        same(d.getlist(key, type=int), ints, 'getlist(type)')
        try:
            want = int(values[0])
        except (ValueError, IndexError):
            want = -1
        same(d.get(key, -1, type=int), want, 'get(type)')
    cx.step()
    if not deep:
        return
    # what is handed out is a copy
    for view in (d.lists(), d.to_dict(flat=False).items(),
                 [(k, d.getlist(k)) for k in KEYS]):
        for key, values in view:
            values.append('leak')
            values.reverse()
    for values in d.listvalues():
        values[:] = ['leak']
    d.to_dict()['a'] = 'leak'
    same(norm(d.items(multi=True)), norm(pairs), 'leaked internal list')
    # copies are equal and independent
    for how, other in (
        ('copy', d.copy()), ('copy.copy', copy.copy(d)),
        ('deepcopy', d.deepcopy()), ('copy.deepcopy', copy.deepcopy(d)),
        ('pickle', pickle.loads(pickle.dumps(d, 0))),
        ('pickle', pickle.loads(pickle.dumps(d, pickle.HIGHEST_PROTOCOL))),
        ('constructor', type(d)(d)),
        ('from items', type(d)(d.items(multi=True))),
        ('from lists', type(d)(d.to_dict(flat=False))),
    ):
        if how == 'from lists' and ordered:
            # flattened by key
            want = [(k, v) for k, vs in lists for v in vs]
        else:
            want = pairs
        same(norm(other.items(multi=True)), norm(want), how)
        same({k: other.getlist(k) for k in KEYS},
             {k: model.getlist(k) for k in KEYS}, how + ' lists')
        if want == pairs:
            expect(other == d and d == other, '{} is not equal', how)
            expect(not (other != d), '{} is unequal', how)
        if other is d:
            continue
        if how != 'copy':
            same(type(other), type(d), 'class of ' + how)
        if isinstance(other, (ImmutableMultiDict, ImmutableOrderedMultiDict)):
            continue
        other.add('a', 'extra')
        other.add('c', 'extra')
        expect(other != d, '{} equal after a change', how)
        other.setlist('b', ['extra'])
        other.poplist('a')
        same(norm(d.items(multi=True)), norm(pairs), 'changed by ' + how)
    cx.step()


# -- histories ---------------------------------------------------------------

def ops(ordered):
    result = []
    for key in 'ab':
        for value in (('1', 'x') if key == 'a' else ('', 0)):
            result.append(('add', key, value))
        result.append(('set', key, '2'))
        for name in ('del', 'pop', 'popdefault', 'poplist', 'setdefault'):
            result.append((name, key))
        result.append(('setlist', key, ('1', 'y')))
        if ordered:
            result.append(('setlist', key, ()))
        else:
            result.append(('setlistdefault', key))
    result += [
        ('popitem',), ('popitemlist',), ('clear',),
        ('update', 'pairs', (('b', '3'), ('a', '1'), ('b', '1'))),
        ('update', 'dict', (('a', ('4', '1')), ('c', '5'))),
        ('update', 'multi', (('a', '6'), ('c', '7'), ('a', '8'))),
        ('update', 'ordered', (('a', '6'), ('c', '7'), ('a', '8'))),
        ('ior', 'dict', (('a', ('4', '1')), ('c', '5'), ('b', ()))),
    ]
    return result


def make_source(kind, pairs):
    if kind == 'pairs':
        return list(pairs), list(pairs)
    if kind == 'tuple':
        return tuple(pairs), list(pairs)
    if kind == 'generator':
        return (p for p in pairs), list(pairs)
    if kind == 'dict':
        source = {}
        flat = []
        for k, v in pairs:
            if isinstance(v, tuple):
                source[k] = list(v)
                flat.extend((k, x) for x in v)
            else:
                source[k] = v
                flat.append((k, v))
        return source, flat
    source = {'multi': MultiDict, 'ordered': OrderedMultiDict,
              'imulti': ImmutableMultiDict,
              'iordered': ImmutableOrderedMultiDict}[kind](list(pairs))
    if 'ordered' in kind:
        return source, list(pairs)
    model = Model(pairs)
    return source, [(k, v) for k in source.keys() for v in model.getlist(k)]


def apply(op, d, model):
    name = op[0]
    key = op[1] if len(op) > 1 else None
    have = model.getlist(key)
    if name == 'add':
        d.add(key, op[2])
        model.add(key, op[2])
    elif name == 'set':
        d[key] = op[2]
        model.remove(key)
        model.add(key, op[2])
    elif name == 'del':
        if have:
            del d[key]
            model.remove(key)
        else:
            try:
                del d[key]
            except KeyError:
                pass
            else:
                fail('deleting a missing key did not raise')
    elif name == 'pop':
        if have:
            same(d.pop(key), have[0], 'pop')
            model.remove(key)
        else:
            key_error(d.pop, key)
    elif name == 'popdefault':
        for default in ('dflt', None):
            have = model.getlist(key)
            same(d.pop(key, default), have[0] if have else default, 'pop')
            model.remove(key)
    elif name == 'poplist':
        got = d.poplist(key)
        same(got, have, 'poplist')
        model.remove(key)
        got.append('leak')
    elif name == 'setdefault':
        default = 'q' if key == 'a' else None
        got = d.setdefault(key, *[default] if default else [])
        same(got, have[0] if have else default, 'setdefault')
        if not have:
            model.add(key, default)
    elif name == 'setlist':
        values = list(op[2])
        d.setlist(key, values)
        values.append('leak')
        model.remove(key)
        for value in op[2]:
            model.add(key, value)
    elif name == 'setlistdefault':
        default = ['7', '8']
        got = d.setlistdefault(key, default)
        default.append('leak')
        if not have:
            model.add(key, '7')
            model.add(key, '8')
        same(got, model.getlist(key), 'setlistdefault')
        got.append('more')          # documented to be the actual list
        model.add(key, 'more')
    elif name == 'popitem':
        if not model.pairs:
            key_error(d.popitem)
        else:
            key, value = d.popitem()
            expect(model.getlist(key), 'popped an unknown key {!r}', key)
            same(value, model.getlist(key)[0], 'popitem')
            model.remove(key)
    elif name == 'popitemlist':
        if not model.pairs:
            key_error(d.popitemlist)
        else:
            key, values = d.popitemlist()
            expect(model.getlist(key), 'popped an unknown key {!r}', key)
            same(values, model.getlist(key), 'popitemlist')
            model.remove(key)
            values.append('leak')
    elif name == 'clear':
        d.clear()
        model.pairs = []
    elif name in ('update', 'ior'):
        source, pairs = make_source(op[1], op[2])
        before = repr(source)
        if name == 'update':
            d.update(source)
        else:
            same_object = d
            d |= source
            expect(d is same_object, '|= replaced the object')
        same(repr(source), before, 'source of an update')
        for k, v in pairs:
            model.add(k, v)
        # later changes of either don't reach the other
        d.add('a', 'w')
        model.add('a', 'w')
        same(repr(source), before, 'source after the update')
        if isinstance(source, MultiDict):
            source.add('a', 'leak')
        elif isinstance(source, dict):
            source['a'].append('leak')
    else:
        raise AssertionError(name)


def run_history(case, cx):
    kind, initial, history = case
    ordered = 'ordered' in kind
    d = CLASSES[kind](list(initial))
    model = Model(initial)
    for number, op in enumerate(history):
        apply(op, d, model)
        last = number == len(history) - 1
        observe(d, model, ordered, cx, deep=last)
        cx.state((kind, tuple(model.pairs)))
    if not history:
        observe(d, model, ordered, cx)
    cx.outcome((kind, len(model.keys()), len(model.pairs)))


def histories(depth):
    def gen():
        for kind in ('multi', 'ordered'):
            alphabet = ops(kind == 'ordered')
            for initial in ((), (('a', '1'), ('b', '2'), ('a', '3'))):
                for history in words(alphabet, depth):
                    yield kind, initial, history
    return gen


# -- deep search on the linked structure of the ordered variant --------------

DEEP = [('add', 'a', '1'), ('add', 'b', '2'), ('add', 'c', '3'),
        ('poplist', 'a'), ('pop', 'b'), ('popitem',), ('set', 'c', '4'),
        ('setlist', 'a', ('5', '6'))]


def run_deep(case, cx):
    kind, history = case
    d = CLASSES[kind]()
    model = Model()
    for op in history:
        apply(op, d, model)
        cx.step()
    observe(d, model, kind == 'ordered', cx, deep=False)
    if kind == 'ordered':
        cx.state(tuple(model.pairs))
    cx.outcome(len(model.pairs))


def deep(depth):
    def gen():
        for kind in ('ordered', 'multi'):
            for history in words(DEEP, depth, depth):
                yield kind, history
    return gen


# -- sizes -------------------------------------------------------------------

def run_size(case, cx):
    """Many keys and many values"""
    kind, n, step = case
    d = CLASSES[kind]()
    model = Model()
    for i in range(n):
        op = 'add', ('a', 'b', 'c')[i % 3] if i % step else 'k%d' % i, str(i)
        apply(op, d, model)
    for op in ((), ('set', 'b', 'x'), ('add', 'a', '4'), ('pop', 'a'),
               ('add', 'a', 'z'), ('setlist', 'c', ['9'] * n),
               ('poplist', 'c'), ('popitem',), ('update', 'multi',
                                                [('a', '1')] * n),
               ('setlist', 'z', ['9'] * n), ('popitem',),
               ('setlist', 'z', ['9'] * n), ('popitemlist',),
               ('setlist', 'z', ['9'] * n), ('pop', 'z'),
               ('add', 'b', '5')):
        if op and (op[0] != 'pop' or model.getlist(op[1])):
            if op[0] == 'update':
                d.update(MultiDict(op[2]))
                for k, v in op[2]:
                    model.add(k, v)
            else:
                apply(op, d, model)
        observe(d, model, kind == 'ordered', cx, deep=n < 300)
    # equal to a dictionary of the other kind, until one value differs
    if model.pairs and n < 300:
        for other_kind, cls in sorted(CLASSES.items()):
            expect(cls(list(model.pairs)) == d and d == cls(
                list(model.pairs)), 'not equal as {}', other_kind)
            for at in sorted({0, len(model.pairs) // 2,
                              len(model.pairs) - 1}):
                pairs = list(model.pairs)
                pairs[at] = pairs[at][0], 'other'
                expect(cls(pairs) != d and d != cls(pairs),
                       'equal as {} with another value', other_kind)
    cx.state(case)
    cx.outcome(kind)


def sizes(most):
    def gen():
        for n in sorted(set(range(1, most)) | {63, 64, 65, 99, 100, 101, 127,
                                            128, 129, 255, 256, 257, 1025}):
            for step in (1, 2, n + 1):
                if n < 300 or step == n + 1:
                    yield 'multi', n, step
                    yield 'ordered', n, step
    return gen


# -- construction and equality -----------------------------------------------

def run_construct(case, cx):
    kind, source_kind, pairs = case
    source, flat = make_source(source_kind, pairs)
    d = CLASSES[kind](source)
    model = Model(flat)
    observe(d, model, 'ordered' in kind, cx)
    if isinstance(source, dict) and source_kind in ('multi', 'ordered'):
        source.add('a', 'leak')
        source.clear()
    elif source_kind == 'dict':
        for value in source.values():
            if isinstance(value, list):
                value.append('leak')
        source.clear()
    elif source_kind == 'pairs':
        source.append(('a', 'leak'))
    observe(d, model, 'ordered' in kind, cx, deep=False)
    cx.state(case)
    cx.outcome((kind, source_kind))


def constructions(depth):
    def gen():
        pair = [('a', '1'), ('a', 'x'), ('b', '1'), ('c', '2')]
        for kind in CLASSES:
            for source in ('pairs', 'tuple', 'generator', 'multi', 'ordered',
                           'imulti', 'iordered'):
                for pairs in words(pair, depth):
                    yield kind, source, pairs
            for values in itertools.product(
                    (None, '1', (), ('1',), ('1', '2'), ('x', '1', 'x')),
                    repeat=3):
                yield kind, 'dict', tuple(
                    (k, v) for k, v in zip(KEYS, values) if v is not None)
    return gen


def combine(pairs):
    return CombinedMultiDict(
        [MultiDict(pairs[:1]), OrderedMultiDict(pairs[1:])])


SIDES = dict(CLASSES, combined=combine)


def run_equal(case, cx):
    kind_a, a, kind_b, b = case
    x, y = SIDES[kind_a](list(a)), SIDES[kind_b](list(b))
    if 'ordered' in kind_a and 'ordered' in kind_b:
        want = a == b
    else:
        ma, mb = Model(a), Model(b)
        want = {k: ma.getlist(k) for k in ma.keys()} == {
            k: mb.getlist(k) for k in mb.keys()}
    same(x == y, want, '==')
    same(y == x, want, 'reverse ==')
    same(x != y, not want, '!=')
    same(y != x, not want, 'reverse !=')
    for stranger in (None, 5, 'a', (), [], object()):
        expect(x != stranger and not x == stranger, '{!r} is {!r}', x,
               stranger)
    if want and kind_a == kind_b and kind_a[0] == 'i':
        same(hash(x), hash(y), 'hash')
        same(len({x, y}), 1, 'as members of a set')
    cx.step()
    cx.state(case)
    cx.outcome((kind_a, kind_b, want))


def equalities(depth):
    def gen():
        pair = [('a', '1'), ('a', '2'), ('b', '1')]
        all_pairs = list(words(pair, depth))
        for kind_a, kind_b in itertools.product(SIDES, repeat=2):
            for a, b in itertools.product(all_pairs, repeat=2):
                yield kind_a, a, kind_b, b
    return gen


# -- combined ----------------------------------------------------------------

def run_combined(case, cx):
    kinds, parts, changes = case
    dicts = [CLASSES[kind](list(pairs)) for kind, pairs in zip(kinds, parts)]
    models = [Model(pairs) for pairs in parts]
    d = CombinedMultiDict(dicts)

    def look(d, models):
        model = Model([p for m in models for p in m.pairs])
        norm = (lambda x: sorted(x, key=repr))
        keys = model.keys()
        first = [(k, model.getlist(k)[0]) for k in keys]
        lists = [(k, model.getlist(k)) for k in keys]
        same(len(d), len(keys), 'len')
        same(bool(d), bool(keys), 'truth')
        same(norm(d), norm(keys), 'iteration')
        same(norm(d.keys()), norm(keys), 'keys')
        same(norm(d.items()), norm(first), 'items')
        same(norm(d.items(multi=True)), norm(model.pairs), 'items(multi)')
        same(norm(d.values()), norm([v for k, v in first]), 'values')
        same(norm(d.lists()), norm(lists), 'lists')
        same(norm(d.listvalues()), norm([v for k, v in lists]), 'listvalues')
        same(d.to_dict(), dict(first), 'to_dict')
        same(d.to_dict(flat=False), dict(lists), 'to_dict(flat=False)')
        for key in KEYS:
            values = model.getlist(key)
            same(d.getlist(key), values, 'getlist')
            same(key in d, bool(values), 'in')
            if values:
                same(d[key], values[0], 'd[%r]' % key)
                same(d.get(key, 'z'), values[0], 'get')
            else:
                key_error(d.__getitem__, key)
                same(d.get(key), None, 'get missing')
                same(d.get(key, 'z'), 'z', 'get missing')
            if None in values:
                continue
            ints = [int(v) for v in values if v.isdigit()]
            same(d.getlist(key, type=int), ints, 'getlist(type)')
            firsts = [m.getlist(key)[0] for m in models if m.getlist(key)]
            ints = [int(v) for v in firsts if v.isdigit()]
            same(d.get(key, -1, type=int), ints[0] if ints else -1,
                 'get(type)')
        for values in [v for _, v in d.lists()] + list(d.listvalues()) + [
                d.getlist(k) for k in KEYS]:
            values.append('leak')
        same(norm(d.items(multi=True)), norm(model.pairs), 'leaked list')
        cx.step()

    look(d, models)
    for name in ('add', 'setlist', 'poplist', 'pop', 'popitem', 'clear',
                 'update', 'setdefault', 'setlistdefault', 'popitemlist',
                 '__setitem__', '__delitem__'):
        args = {'add': ('a', '1'), 'setlist': ('a', ['1']),
                'poplist': ('a',), 'pop': ('a',), 'update': ({'a': '1'},),
                'setdefault': ('a', '1'), 'setlistdefault': ('a',),
                '__setitem__': ('a', '1'), '__delitem__': ('a',)}.get(name,
                                                                      ())
        try:
            getattr(d, name)(*args)
        except TypeError:
            pass
        else:
            fail('{} did not raise TypeError', name)
    look(d, models)
    deep = d.deepcopy()
    deep2 = copy.deepcopy(d)
    shallow = d.copy()
    frozen = [Model(m.pairs) for m in models]
    pickled = pickle.loads(pickle.dumps(d))
    # it is a view of the dictionaries it was made from
    for index, op in changes:
        if index < len(dicts) and kinds[index][0] != 'i':
            apply(op, dicts[index], models[index])
            look(d, models)
            look(shallow, models)
    alone = CombinedMultiDict(list(dicts))
    shallow = alone.copy()
    alone.dicts.append(MultiDict([('a', 'new')]))
    look(alone, models + [Model([('a', 'new')])])
    look(shallow, models)
    look(deep, frozen)
    look(deep2, frozen)
    look(pickled, frozen)
    cx.state((parts, changes))
    cx.outcome((len(parts), len(d)))


def combined(depth, pair_depth):
    def gen():
        pair = [('a', '1'), ('a', 'x'), ('b', None), ('a', '')]
        all_pairs = list(words(pair, pair_depth))
        changes = [
            (), ((0, ('add', 'c', '9')),), ((1, ('set', 'a', '9')),),
            ((0, ('poplist', 'a')), (1, ('add', 'b', '7'))),
        ]
        for n in range(depth + 1):
            for parts in itertools.product(all_pairs, repeat=n):
                for change in changes:
                    for kinds in (('multi',) * n, ('ordered',) * n,
                                  ('imulti', 'ordered', 'multi')[:n]):
                        yield kinds, parts, change
        for n in (3, 4):
            for parts in itertools.product(list(words(pair[1:], 1)),
                                           repeat=n):
                for change in changes[:2]:
                    yield ('multi', 'ordered', 'imulti', 'multi')[
                        :n], parts, change
        # many parts, keys and values
        for n in tuple(range(5, 20)) + (33, 65, 129):
            for kind in ('multi', 'ordered'):
                many = (kind,) * n
                yield many, tuple((('k%d' % i, str(i)),)
                                  for i in range(n)), changes[1]
                yield many, tuple((('a', str(i)),) for i in range(n)), ()
                for key in ('k%d', 'a'):
                    pairs = tuple((key % i if '%' in key else key, str(i))
                                  for i in range(n))
                    yield (kind,) * 2, (pairs, ()), changes[2]
                    yield (kind,) * 2, ((('b', '1'),), pairs), ()
    return gen


# -- nested values -----------------------------------------------------------

def run_nested(case, cx):
    kind, pairs = case
    values = [(k, list(v)) for k, v in pairs]
    d = CLASSES[kind](values)
    flat = copy.deepcopy(values)
    for how in ('deepcopy', 'copy.deepcopy', 'pickle'):
        other = {'deepcopy': lambda: d.deepcopy(),
                 'copy.deepcopy': lambda: copy.deepcopy(d),
                 'pickle': lambda: pickle.loads(pickle.dumps(d))}[how]()
        for _, value in other.items(multi=True):
            value.append('deep')
        same(list(Model(values).pairs), flat, 'values shared by ' + how)
    # what is shared inside of what gets copied is shared in the copy
    first = list(d.items(multi=True))[:1]
    both, (again,) = copy.deepcopy([d, [v for _, v in first][:1]] if first
                                   else [d, [None]])
    if first:
        expect(both[first[0][0]] is again, 'a deep copy copied twice')
    shallow = d.copy()
    for key in KEYS:
        for x, y in zip(d.getlist(key), shallow.getlist(key)):
            expect(x is y, 'a shallow copy copied a value')
    cx.step()
    cx.state(case)
    cx.outcome(kind)


def nested():
    for kind in CLASSES:
        for pairs in words([('a', (1,)), ('a', ()), ('b', (1, 2))], 3):
            yield kind, pairs


# -- type conversion ---------------------------------------------------------

def run_convert(case, cx):
    value, type_name, default = case
    type_ = {'int': int, 'float': float, 'str': str,
             'upper': lambda v: v.upper(), 'none': None}[type_name]
    try:
        want = value if type_ is None else type_(value)
    except ValueError:
        want = default
    for d in (TypeConversionDict(a=value), MultiDict({'a': value}),
              OrderedMultiDict({'a': value}),
              ImmutableMultiDict({'a': value}),
              CombinedMultiDict([MultiDict({'a': value})])):
        same(d.get('a', default, type=type_), want, 'conversion')
        same(d.get('a', default, type_), want, 'conversion')
        same(d.get('b', default, type=type_), default, 'missing')
        same(d['a'], value, 'value')
    cx.step()
    cx.state(case)
    cx.outcome(type_name)


def conversions():
    for value in ('', '1', '01', ' 2 ', '-3', 'x', '1.5', '1e3', 'nan\n'):
        for type_name in ('int', 'float', 'str', 'upper', 'none'):
            for default in (None, 0, -1, 'd'):
                if value == 'nan\n' and type_name == 'float':
                    continue
                yield value, type_name, default


check = Check('C12', [
    Space('histories', run_history, histories(3), histories(4), chunk=50,
          rule='every sequence of operations, every view after each'),
    Space('deep histories', run_deep, deep(5), deep(7)),
    Space('sizes', run_size, sizes(40), sizes(200), chunk=4),
    Space('construction', run_construct, constructions(3), constructions(4)),
    Space('equality', run_equal, equalities(3), equalities(4), chunk=2000),
    Space('combined', run_combined, combined(2, 2), combined(3, 2)),
    Space('nested values', run_nested, nested),
    Space('conversions', run_convert, conversions),
], bounds='all operation sequences of length <=4 (thorough) over ~26 '
    'operations, and 7 over 8 operations',
    assumptions=['keys are hashable and unchanging'])
