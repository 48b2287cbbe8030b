"""C06: content negotiation."""
import itertools

from verktyg.accept import (
    Representation, select_representation, parse_accept_header,
    parse_accept_language_header, parse_accept_charset_header,
    parse_content_type_header, parse_language_header, parse_charset_header,
)
from verktyg.accept.content_type import ContentType
from verktyg.accept.language import Language
from verktyg.accept.charset import Charset
from verktyg.exceptions import NotAcceptable

from mc import model_accept as model
from mc.core import Check, Space, fail, same

QS = ['', ';q=0', ';q=0.3', '; q=0.8']

DIMENSIONS = {
    'type': (
        [None, 'text/html', 'text/plain', 'application/json',
         'application/xhtml+xml', 'image/svg+xml'],
        ['text/html', 'text/*', '*/*', 'application/json',
         'application/xhtml+xml', 'application/xml'],
    ),
    'language': (
        [None, 'en', 'en-gb', 'fr', 'en-gb-oed', 'english'],
        ['en', 'en-gb', '*', 'fr', 'en-us', 'en-gb-oed'],
    ),
    'charset': (
        [None, 'utf-8', 'ascii', 'iso-8859-1', 'utf-16'],
        ['utf-8', 'ascii', '*', 'iso-8859-1', 'latin-1'],
    ),
}


def representation(rep):
    return Representation(content_type=rep[0], language=rep[1],
                          charset=rep[2], qs=rep[3])


def compare(reps, objects, accept, language, charset, cx):
    want = model.select(reps, accept, language, charset)
    cx.step()
    what = 'select %r for %r %r %r' % (reps, accept, language, charset)
    headers = dict(accept=accept, accept_language=language,
                   accept_charset=charset)
    try:
        got = select_representation(objects, **headers)
    except NotAcceptable:
        cx.outcome('unacceptable')
        if want is not None:
            fail('%s: NotAcceptable, model selects %r' % (what, reps[want]))
        return
    cx.outcome(want)
    if want is None:
        fail('%s: selected %r, model says nothing is acceptable' % (
            what, got))
    if got is not objects[want]:
        fail('%s: selected %r (%r), model selects %r' % (
            what, got, [i for i, o in enumerate(objects) if o is got],
            reps[want]))


def headers(dimension, size, qs=QS):
    patterns = DIMENSIONS[dimension][1]
    yield None
    options = [p + q for p in patterns for q in qs]
    for n in range(1, size + 1):
        for word in itertools.product(options, repeat=n):
            names = [w.split(';')[0] for w in word]
            if len(set(names)) == n:
                yield (', ' if n % 2 else ',').join(word)


def one_cases(size, reps):
    def gen():
        for dimension in DIMENSIONS:
            for header in headers(dimension, size):
                yield dimension, header, reps
    return gen


def run_one(case, cx):
    """One header, every list of representations that differ in it"""
    dimension, header, count = case
    slot = list(DIMENSIONS).index(dimension)
    values = DIMENSIONS[dimension][0]
    pool = []
    for value in values:
        for qs in (None, 0.5):
            rep = [None, None, None, qs]
            rep[slot] = value
            pool.append((tuple(rep), representation(rep)))
    args = [None, None, None]
    args[slot] = header
    cx.state(tuple(
        model.rank(rep, *args) for rep, _ in pool))
    for n in range(1, count + 1):
        step = pool if n < 3 else pool[::2]
        for picked in itertools.permutations(step, n):
            compare([p[0] for p in picked], [p[1] for p in picked],
                    *args, cx)


def mixed_cases(full):
    def gen():
        types = [None, 'text/html', 'application/json']
        langs = [None, 'en', 'fr']
        sets = [None, 'utf-8', 'ascii']
        reps = list(itertools.product(
            types, langs, sets, (None, 0.5) if full else (None,)))
        for a in (None, 'text/html', 'text/html;q=0.5,*/*;q=0.9',
                  'application/json;q=0.4,text/*',
                  'text/html;q=0,*/*;q=0.1'):
            for b in (None, 'en', 'fr;q=0.3,en;q=0.2', '*;q=0.5,en;q=0'):
                for c in (None, 'ascii', 'utf-8;q=0.5,*', '*;q=0'):
                    yield a, b, c, full
    return gen


def run_mixed(case, cx):
    a, b, c, full = case
    types = [None, 'text/html', 'application/json']
    langs = [None, 'en', 'fr']
    sets = [None, 'utf-8', 'ascii']
    reps = list(itertools.product(
        types, langs, sets, (None, 0.5) if full else (None,)))
    objects = [representation(r) for r in reps]
    for n in ((1, 2) if full else (1, 2)):
        for picked in itertools.permutations(range(len(reps)), n):
            compare([reps[i] for i in picked], [objects[i] for i in picked],
                    a, b, c, cx)
            cx.state((case, model.select([reps[i] for i in picked],
                                         a, b, c)))
    # chains of three in which each is incomparable with the next
    small = [i for i, r in enumerate(reps) if r[1] != 'fr' or r[0]][:9]
    for picked in itertools.permutations(small, 3):
        compare([reps[i] for i in picked], [objects[i] for i in picked],
                a, b, c, cx)


def qs_cases():
    values = [None, -1, 0, 0.0, 0.001, 0.05, 0.25, 0.5, 0.999, 1, 2]
    for n in (1, 2, 3):
        for word in itertools.product(values, repeat=n):
            yield (word,)


def run_qs(case, cx):
    """Quality of source decides between otherwise equal matches"""
    word, = case
    for base in ((None, None, None), ('text/html', None, None),
                 ('text/html', 'en', 'utf-8')):
        reps = [base + (qs,) for qs in word]
        objects = [representation(r) for r in reps]
        for accept in (None, '*/*', 'text/html', 'text/*;q=0.5'):
            compare(reps, objects, accept, None, None, cx)
            cx.state((case, base, accept))


def order_cases():
    options = ['text/html;q=0.4', 'text/*;q=0.9', '*/*;q=0.2',
               'application/json', 'text/plain;q=0', 'image/*;q=0.6']
    for n in range(2, 5):
        for combo in itertools.combinations(options, n):
            yield (combo,)


def run_order(case, cx):
    """The order of ranges within a header means nothing"""
    combo, = case
    reps = [(t, None, None, None) for t in (
        'text/html', 'text/plain', 'application/json', 'image/png',
        'video/ogg')]
    objects = [representation(r) for r in reps]
    for picked in itertools.permutations(range(len(reps)), 3):
        seen = set()
        for word in itertools.permutations(combo):
            cx.step()
            try:
                got = select_representation(
                    [objects[i] for i in picked], accept=','.join(word))
                seen.add(objects.index(got))
            except NotAcceptable:
                seen.add(None)
        if len(seen) != 1:
            fail('selection among %r depends on the order of %r: %r' % (
                [reps[i][0] for i in picked], combo, seen))
        cx.state((combo, picked, tuple(seen)))
        compare([reps[i] for i in picked], [objects[i] for i in picked],
                ','.join(combo), None, None, cx)


def value_cases(size):
    def gen():
        for dimension in DIMENSIONS:
            for header in headers(dimension, size):
                if header is not None:
                    yield dimension, header
    return gen


def run_value(case, cx):
    """Quality, membership and serialisation of parsed headers"""
    dimension, header = case
    cls, parse, spec = {
        'type': (ContentType, parse_accept_header, model.type_specificity),
        'language': (Language, parse_accept_language_header,
                     model.language_specificity),
        'charset': (Charset, parse_accept_charset_header,
                    model.charset_specificity),
    }[dimension]
    accept = parse(header)
    again = parse(accept.to_header())
    for value in DIMENSIONS[dimension][0][1:]:
        for qs in (None, 0.5):
            for parsed in (accept, again):
                cx.step()
                want = model.score(value, header, spec, '*')
                obj = cls(value, qs=qs)
                same(obj in parsed, want is not False,
                     '%r in %r' % (value, header))
                if want is False:
                    cx.outcome('unacceptable')
                    try:
                        parsed[obj]
                    except KeyError:
                        continue
                    fail('%r[%r] did not raise KeyError' % (header, value))
                got = parsed[obj]
                same(got.quality, want[1] * (1 if qs is None else qs),
                     'quality of %r (qs %r) in %r' % (value, qs, header))
                exact = {
                    'type': want[0] == (True, True),
                    'language': bool(want[0]) and dimension == 'language'
                    and want[0][0] == 0,
                    'charset': want[0] == 1,
                }[dimension]
                same(bool(got.exact_match), exact,
                     'exact match of %r in %r' % (value, header))
                cx.outcome((exact, want[1]))
                cx.state((dimension, header, value))
    same([(o.value, o.q) for o in accept], model.parse(header),
         'ranges of %r' % header)
    same(str(accept), accept.to_header(), 'text of %r' % header)
    for option in accept:
        same(str(option), option.to_header(), 'text of %r' % header)


# -- the same in other words: parsed headers, missing ones, parameters,
#    values made by hand

PARAMETERS = ['', ';level=1', ';level=1;x=y=z', '; a = b ']
CLASSES = (ContentType, Language, Charset)
PARSERS = (parse_accept_header, parse_accept_language_header,
           parse_accept_charset_header)
VALUES = (parse_content_type_header, parse_language_header,
          parse_charset_header)


def form_cases(size):
    def gen():
        for dimension in DIMENSIONS:
            patterns = DIMENSIONS[dimension][1][:4]
            for n in range(1, size + 1):
                for names in itertools.permutations(patterns, n):
                    for qs in itertools.product((None, '0', '0.5', '1.0'),
                                                repeat=n):
                        for first in (PARAMETERS if dimension == 'type'
                                      else PARAMETERS[:1]):
                            yield dimension, names, qs, first
    return gen


def run_forms(case, cx):
    dimension, names, qs, params = case
    slot = list(DIMENSIONS).index(dimension)
    plain = ','.join(
        n + (';q=' + q if q else '') for n, q in zip(names, qs))
    forms = [
        ', '.join(n + params + ('; q=' + q if q else '')
                  for n, q in zip(names, qs)),
        ' , '.join(n + (';q = %s ' % q if q else ' ') + params
                   for n, q in zip(names, qs)),
    ]
    want_params = {}
    for item in params.split(';')[1:]:
        key, _, value = item.partition('=')
        want_params[key.strip()] = value.strip()
    parse = PARSERS[slot]
    headers = [plain] + forms
    objects = [parse(h) for h in headers]
    objects += [parse(o.to_header()) for o in objects]
    objects += [type(objects[0])([
        n if q is None else (n, q) for n, q in zip(names, qs)])]
    for position, accept in enumerate(objects[1:3] + objects[4:6]):
        for option, name, q in zip(accept, names, qs):
            same((option.value, option.q, dict(option.params)),
                 (name, float(q or 1), want_params),
                 'range of %r' % accept.to_header())
    values = DIMENSIONS[dimension][0][:4]
    pool = []
    for value in values:
        for qs_ in (None, 0.5):
            rep = [None, None, None, qs_]
            rep[slot] = value
            if value is None:
                made = [representation(rep)]
            else:
                made = [representation(rep)]
                for make in (CLASSES[slot], VALUES[slot]):
                    hand = list(rep)
                    hand[slot] = make(value)
                    same(hand[slot].to_header(), value, 'written')
                    same(str(hand[slot]), value, 'as text')
                    made.append(representation(hand))
            pool.append((tuple(rep), made))
    names_ = ('accept', 'accept_language', 'accept_charset')
    args = [None, None, None]
    args[slot] = plain
    for picked in itertools.permutations(pool, 2):
        want = model.select([p[0] for p in picked], *args)
        cx.outcome(want)
        cx.state((case, tuple(p[0] for p in picked), want))
        for number, header in enumerate(headers + objects):
            cx.step()
            made = [p[1][number % len(p[1])] for p in picked]
            try:
                got = select_representation(
                    iter(made), **{names_[slot]: header})
            except NotAcceptable:
                got = None
            same(None if got is None else made.index(got), want,
                 'select %r for %s' % ([p[0] for p in picked], header))


def weight_cases():
    for dimension in DIMENSIONS:
        for ranges in (('A',), ('*',), ('A', '*'), ('*', 'A'), ('A', 'B'),
                       ('B', '*')):
            for qs in itertools.product(('0.2', '0.5', '1', '0'),
                                        repeat=len(ranges)):
                yield dimension, ranges, qs


def run_weights(case, cx):
    """Values with a quality of their own"""
    dimension, ranges, qs = case
    slot = list(DIMENSIONS).index(dimension)
    a, b = {'type': ('text/html', 'application/json'),
            'language': ('en', 'fr'), 'charset': ('utf-8', 'ascii')}[dimension]
    star = '*/*' if dimension == 'type' else '*'
    header = ','.join(
        {'A': a, 'B': b, '*': star}[r] + ';q=' + q
        for r, q in zip(ranges, qs))
    args = [None, None, None]
    args[slot] = header
    specificity = (model.type_specificity, model.language_specificity,
                   model.charset_specificity)[slot]
    for words in itertools.product(
            itertools.product((a, b), (None, 0.1, 0.5, 1.0)), repeat=2):
        reps = []
        ranks = []
        for value, own in words:
            rep = [None, None, None, None]
            make = VALUES[0] if slot == 0 else CLASSES[slot]
            rep[slot] = make(value, qs=own)
            reps.append(representation(rep))
            score = model.score(value, header, specificity, star)
            ranks.append(score and (
                score[0], score[1] * (1 if own is None else own)))
        cx.step()
        want = None
        for i, rank in enumerate(ranks):
            if rank is not False and (want is None or rank >= ranks[want]):
                want = i
        try:
            got = reps.index(select_representation(reps, *args))
        except NotAcceptable:
            got = None
        same(got, want, 'select %r for %r' % (words, header))
        cx.state((case, words, want))
        cx.outcome(want)


# -- fine qualities and long headers

FINE = ('0', '0.0', '0.000', '0.001', '0.002', '0.01', '0.1', '0.333',
        '0.334', '0.5', '0.994', '0.995', '0.999', '1', '1.0', '1.000')


def fine_cases():
    for dimension in DIMENSIONS:
        for qs in itertools.product(FINE, repeat=2):
            yield dimension, qs


def run_fine(case, cx):
    dimension, qs = case
    slot = list(DIMENSIONS).index(dimension)
    values = {'type': ('text/html', 'application/json'),
              'language': ('en', 'fr'), 'charset': ('utf-8', 'ascii')}[
                  dimension]
    header = ','.join('%s;q=%s' % pair for pair in zip(values, qs))
    reps = []
    for value in values:
        rep = [None, None, None, None]
        rep[slot] = value
        reps.append(tuple(rep))
    objects = [representation(r) for r in reps]
    args = [None, None, None]
    parsed = PARSERS[slot](header)
    same([o.q for o in parsed], [float(q) for q in qs], 'qualities')
    same([o.q for o in PARSERS[slot](parsed.to_header())],
         [float(q) for q in qs], 'qualities of %r' % parsed.to_header())
    for accept in (header, parsed.to_header()):
        args[slot] = accept
        for picked in ((0, 1), (1, 0), (0,), (1,)):
            compare([reps[i] for i in picked], [objects[i] for i in picked],
                    *args, cx)
    cx.state(case)


SOURCE = (0, 0.0001, 0.0002, 0.001, 0.0011, 0.01, 0.1, 0.333, 0.3333, 0.5,
          0.9, 0.99, 0.999, 0.9994, 0.9995, 0.99999, 1, 1.0, None)


def source_cases():
    return itertools.product(SOURCE, repeat=2)


def run_source(case, cx):
    """The smallest difference in the quality of the source counts"""
    for shape in ((None, None, None), ('text/html', None, None),
                  (None, 'en', None), ('text/html', 'en', 'utf-8')):
        reps = [shape + (qs,) for qs in case]
        objects = [representation(r) for r in reps]
        for args in ((None, None, None), ('*/*', 'en', '*'),
                     ('text/*;q=0.5', None, 'utf-8;q=0.001')):
            compare(reps, objects, *args, cx)
            compare(reps[::-1], objects[::-1], *args, cx)
    cx.state(case)


# -- one request after another about the same representations

def after_headers(dimension):
    out = [None]
    patterns = DIMENSIONS[dimension][1][:4]
    for pair in itertools.permutations(patterns, 2):
        for qs in ((None, None), (None, '0.1'), ('0.1', None), ('0', None),
                   (None, '0')):
            out.append(','.join(
                name + (';q=' + q if q else '')
                for name, q in zip(pair, qs)))
    out += patterns
    return out


def after_cases():
    for dimension in DIMENSIONS:
        for first in range(len(after_headers(dimension))):
            yield dimension, first


def run_after(case, cx):
    """What was asked before has no bearing on the answer"""
    dimension, first = case
    slot = list(DIMENSIONS).index(dimension)
    words = after_headers(dimension)
    values = DIMENSIONS[dimension][0][:5]
    reps = []
    for value in values[1:] + values[:1]:
        rep = [None, None, None, None]
        rep[slot] = value
        reps.append(tuple(rep))
    # one set of objects for everything that is asked after the first
    for header in words:
        objects = [representation(r) for r in reps]
        for asked in (words[first], header, words[first]):
            args = [None, None, None]
            args[slot] = asked
            compare(reps, objects, *args, cx)
            compare(reps[::-1], objects[::-1], *args, cx)
    cx.state(case)


def long_cases(most):
    def gen():
        for dimension in DIMENSIONS:
            for n in range(1, most):
                for at in sorted({0, n // 2, n - 1}):
                    yield dimension, n, at
    return gen


def run_long(case, cx):
    """However many ranges and representations there are"""
    dimension, n, at = case
    slot = list(DIMENSIONS).index(dimension)
    names = [('text/t%d' if dimension == 'type' else 't%d') % i
             for i in range(n)]
    ranges = ['%s;q=0.%03d' % (name, 999 if i == at else 998 - i)
              for i, name in enumerate(names)]
    ranges += ['%s;q=0' % ('text/z' if dimension == 'type' else 'z')]
    reps = []
    for name in names:
        rep = [None, None, None, None]
        rep[slot] = name
        reps.append(tuple(rep))
    objects = [representation(r) for r in reps]
    args = [None, None, None]
    for words in (ranges, ranges[::-1]):
        args[slot] = ','.join(words)
        compare(reps, objects, *args, cx)
        compare(reps[::-1], objects[::-1], *args, cx)
        for i in sorted({0, n // 2, n - 1}):
            compare([reps[i]], [objects[i]], *args, cx)
        parsed = PARSERS[slot](args[slot])
        written = PARSERS[slot](parsed.to_header())
        same([(o.value, o.q) for o in parsed],
             [(w.split(';q=')[0], float(w.split(';q=')[1])) for w in words],
             'ranges')
        same([(o.value, o.q) for o in written],
             [(o.value, o.q) for o in parsed], 'ranges written and parsed')
    # a range with as many parameters (only types have them)
    params = {'p%d' % i: 'v%d' % i for i in range(n)}
    for where in range(2) if dimension == 'type' else ():
        words = [';%s=%s' % item for item in params.items()]
        words.insert(where * n, ';q=0.5')
        parsed = PARSERS[slot](names[0] + ''.join(words))
        for accept in (parsed, PARSERS[slot](parsed.to_header())):
            same([(o.value, o.q, dict(o.params)) for o in accept],
                 [(names[0], 0.5, params)], 'range with parameters')
    cx.state(case)


# -- long lists, ranges with parameters, every pair of headers

LISTED = (('text/html', None, None, None), ('text/html', 'en', None, 0.5),
          ('application/json', None, 'utf-8', None),
          ('application/json', 'fr', None, 0.05), (None, 'en-gb', None, None),
          ('image/svg+xml', None, 'ascii', None))
LISTS = (
    (None, None, None), ('text/*, */*;q=0.5', 'en', None),
    ('application/json;q=0.4,*/*', None, 'utf-8;q=0.5,*'),
    ('text/html;q=0.2,image/*;q=0.3', 'en;q=0.1,*', None),
    ('text/html,text/html;q=0,*/*;q=0', 'en-gb,en;q=0', '*'),
    ('image/svg+xml', None, 'ascii;q=0'), ('text/html', 'en', 'utf-8'),
    ('application/json', 'fr', 'utf-8,ascii;q=0.1'))


def list_cases(length):
    def gen():
        for n in range(4, length + 1):
            for first in itertools.product(range(len(LISTED)), repeat=2):
                yield n, first
    return gen


def run_lists(case, cx):
    n, first = case
    objects = [[representation(r) for r in LISTED] for _ in range(n)]
    for rest in itertools.product(range(len(LISTED)), repeat=n - 2):
        picked = first + rest
        reps = [LISTED[i] for i in picked]
        made = [objects[at][i] for at, i in enumerate(picked)]
        for args in LISTS:
            cx.step()
            want = model.select(reps, *args)
            try:
                got = select_representation(made, *args)
            except NotAcceptable:
                got = None
            if got is not (None if want is None else made[want]):
                fail('select %r for %r: got %r, model selects %r' % (
                    reps, args, got, want))
            cx.outcome(want)
    cx.state(case)


RANGE_PARAMETERS = ('', 'level=0', 'level=1', 'q=0.5', 'charset=utf-8',
                    'v=b3', 'a=;b=c', 'q=0.3;level=2', 'level=2;q=0.3',
                    'q=0;level=1', 'a=1;b=2;c=3;q=0.4', 'ext=q')


def parameter_cases():
    ranges = DIMENSIONS['type'][1] + ['image/*']
    for one in itertools.product(ranges, RANGE_PARAMETERS):
        for two in itertools.product(ranges, RANGE_PARAMETERS[:6]):
            yield one, two


def run_parameters(case, cx):
    """What a range has besides its quality makes no difference"""
    header = ','.join(
        name + (';' + params if params else '') for name, params in case)
    reps = [(t, None, None, None) for t in DIMENSIONS['type'][0][1:]]
    objects = [representation(r) for r in reps]
    for i in range(len(reps)):
        compare([reps[i]], [objects[i]], header, None, None, cx)
        pair = [i, (i + 1) % len(reps)]
        for order in (pair, pair[::-1]):
            compare([reps[k] for k in order], [objects[k] for k in order],
                    header, None, None, cx)
    cx.state(case)


def every_cases():
    types, languages, charsets = (
        DIMENSIONS[d][0] for d in ('type', 'language', 'charset'))
    return itertools.product(types, languages, charsets)


def run_every(case, cx):
    """Each of its properties counts, whatever the others are"""
    rep = case + (None,)
    made = representation(rep)
    for args in itertools.product(
            (None, 'text/*', 'image/svg+xml;q=0.5', 'application/*,*/*;q=0'),
            (None, 'en', 'fr;q=0.1', 'en-gb,*;q=0'),
            (None, 'utf-8', 'ascii,*;q=0', 'utf-16;q=0,*')):
        compare([rep], [made], *args, cx)
        other = (case[0], None, None, 0.5)
        compare([rep, other], [made, representation(other)], *args, cx)
    cx.state(case)


check = Check('C06', [
    Space('one-header', run_one, one_cases(2, 2), one_cases(3, 2), chunk=5),
    Space('three-representations', run_one, one_cases(1, 3),
          one_cases(2, 3), chunk=1),
    Space('mixed', run_mixed, mixed_cases(False), mixed_cases(True),
          chunk=1),
    Space('source-quality', run_qs, qs_cases, chunk=20),
    Space('range-order', run_order, order_cases, chunk=1),
    Space('forms', run_forms, form_cases(2), form_cases(3), chunk=10),
    Space('value-quality', run_weights, weight_cases, chunk=5),
    Space('fine-qualities', run_fine, fine_cases, chunk=20),
    Space('fine-sources', run_source, source_cases, chunk=20),
    Space('one-after-another', run_after, after_cases, chunk=3),
    Space('long-lists', run_lists, list_cases(5), list_cases(7), chunk=2),
    Space('range-parameters', run_parameters, parameter_cases, chunk=30),
    Space('every-property', run_every, every_cases, chunk=3),
    Space('long-headers', run_long, long_cases(50), long_cases(200),
          chunk=4),
    Space('values', run_value, value_cases(2), value_cases(3), chunk=50),
], bounds='headers of up to 2 (thorough: 3) ranges with 4 qualities each, '
    'lists of up to 3 representations',
    assumptions=['Accept headers are well formed; names are compared '
                 'in the case they are written in'])
