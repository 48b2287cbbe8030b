"""C18: byte ranges select what the client asked for."""
import itertools
from datetime import datetime

from verktyg.http import (
    ContentRange, IfRange, Range, is_byte_range_valid,
    parse_content_range_header, parse_if_range_header, parse_range_header,
)
from verktyg.requests import Request
from verktyg.responses import Response

from mc.core import Check, Space, caught, expect, same, strings, words
from mc.wsgi_client import environ

CONTENT = 'abcdefghijklmnopqrstuvwxyz'


def text(item):
    """('first', 'last') as written"""
    return '%s-%s' % tuple('' if n is None else n for n in item)


def positions(item, length):
    """The positions of the content selected by one item"""
    first, last = item
    if first is None:
        chosen = range(max(0, length - last), length)
    elif last is None:
        chosen = range(first, length)
    else:
        chosen = range(first, min(last + 1, length))
    return list(chosen)


def acceptable(items):
    """Ordered, not overlapping and nothing after an open end"""
    end = 0
    for first, last in items:
        if end is None:
            return False
        if first is None:
            end = None
            continue
        if first < end or (last is not None and last < first):
            return False
        end = None if last is None else last + 1
    return True


def run_range(case, cx):
    units, items, separator = case
    header = '%s=%s' % (units, separator.join(map(text, items)))
    rng = parse_range_header(header)
    request = Request(environ(headers=[('Range', header)])).range
    if not acceptable(items):
        same(rng, None, 'range of %r' % header)
        same(request, None, 'range of a request')
        cx.outcome('refused')
    else:
        for got in (rng, request):
            expect(got is not None, 'no range for {!r}', header)
            same(got.units, units.strip().lower(), 'units')
            same(len(got.ranges), len(items), 'ranges')
        again = parse_range_header(rng.to_header())
        same((again.units, again.ranges), (rng.units, rng.ranges),
             'parsed again')
        same(str(rng), rng.to_header(), 'str')
        for item, (begin, end) in zip(items, rng.ranges):
            if item[0] is None:
                same((begin, end), (-item[1], None), 'suffix')
            else:
                same((begin, end), (
                    item[0], None if item[1] is None else item[1] + 1),
                    'range')
        for length in range(0, 9):
            got = rng.range_for_length(length)
            content = rng.make_content_range(length)
            chosen = positions(items[0], length)
            if units.strip().lower() != 'bytes' or len(items) != 1 or (
                    not chosen):
                same(got, None, 'range for length %d' % length)
                same(content, None, 'content range')
            else:
                expect(got is not None, 'no range of {} for {}', header,
                       length)
                same(list(range(*got)), chosen,
                     '%r of %d bytes' % (header, length))
                same((content.units, content.start, content.stop,
                      content.length), ('bytes', chosen[0], chosen[-1] + 1,
                                        length), 'content range')
                same(content.to_header(), 'bytes %d-%d/%d' % (
                    chosen[0], chosen[-1], length), 'header')
                response = Response(CONTENT[got[0]:got[1]])
                response.content_range = content
                same(response.headers['Content-Range'],
                     content.to_header(), 'header of a response')
                same(response.content_range.length, length, 'length')
            cx.step()
        # somebody else's copy of the same header
        before = list(rng.ranges), rng.units
        rng.ranges.append((7, 9))
        rng.ranges.pop(0)
        rng.units = 'other'
        fresh = parse_range_header(header)
        same((fresh.ranges, fresh.units), before, 'parsed again')
        rng = fresh
        same(rng.range_for_length(None), None, 'unknown length')
        same(rng.make_content_range(None), None, 'unknown length')
        cx.outcome(len(items))
    cx.state(case)


def ranges(numbers, length):
    def gen():
        items = [(a, b) for a in numbers for b in list(numbers) + [None]]
        items += [(None, b) for b in numbers if b]
        for n in range(1, length + 1):
            for chosen in itertools.product(items, repeat=n):
                for units in ('bytes', 'Bytes', 'rows') if n == 1 else (
                        'bytes',):
                    for separator in ((',',) if n == 1 else (',', ', ')):
                        yield units, chosen, separator
    return gen


LARGE = [n + d for n in (0, 10, 255, 65535, 2 ** 31, 2 ** 32, 2 ** 53,
                         2 ** 63, 10 ** 30) for d in (0, 1)]


def run_large(case, cx):
    (first, last), length = case
    rng = parse_range_header('bytes=' + text((first, last)))
    if first is not None and last is not None and last < first:
        same(rng, None, 'backwards')
        cx.outcome('backwards')
    else:
        if first is None:
            want = max(0, length - last), length
        else:
            want = first, length if last is None else min(last + 1, length)
        if want[0] >= want[1]:
            want = None
        same(rng.range_for_length(length), want, 'range')
        content = rng.make_content_range(length)
        if want is None:
            same(content, None, 'content range')
        else:
            header = 'bytes %d-%d/%d' % (want[0], want[1] - 1, length)
            same(content.to_header(), header, 'content range')
            again = parse_content_range_header(header)
            same((again.start, again.stop, again.length), want + (length,),
                 'parsed again')
        same(parse_range_header(rng.to_header()).ranges, rng.ranges,
             'parsed again')
        cx.outcome(want is None)
    cx.step()
    cx.state(case)


def run_many(n, cx):
    """However many ranges there are"""
    items = [(10 * i, 10 * i + 5) for i in range(n)]
    for items in (items, items + [(10 * n, None)], items + [(None, 5)]):
        header = 'bytes=' + ','.join(map(text, items))
        rng = parse_range_header(header)
        want = [(-last, None) if first is None else
                (first, None if last is None else last + 1)
                for first, last in items]
        for got in (rng, Request(environ(headers=[('Range', header)])).range,
                    parse_range_header(rng.to_header())):
            same((got.units, got.ranges), ('bytes', want), 'ranges')
        for at in sorted({0, n // 2, n - 1}):
            for bad in ((10 * at + 5, 10 * at + 4), (None, 3), (0, 0),
                        (10 * at + 5, 10 * at + 6)):
                broken = items[:at + 1] + [bad] + items[at + 1:]
                same(parse_range_header('bytes=' + ','.join(
                    map(text, broken))) is None, not acceptable(broken),
                    'range number {} of {}'.format(at, n))
        if len(items) > 1:
            same(rng.range_for_length(1000), None, 'several ranges')
        cx.step()
    cx.state(n)
    cx.outcome(n)


def larges():
    items = [(a, b) for a in LARGE for b in LARGE + [None]]
    items += [(None, b) for b in LARGE if b]
    return itertools.product(items, LARGE)


def run_any(value, cx):
    """Whatever the header is, nothing outside of the content is selected."""
    rng = parse_range_header(value)
    same(parse_range_header(None), None, 'no header')
    if rng is not None:
        expect(rng.ranges, 'no ranges in {!r}', value)
        for begin, end in rng.ranges:
            expect(end is None or 0 <= begin < end, 'range {!r} of {!r}',
                   (begin, end), value)
        for length in range(0, 13):
            got = rng.range_for_length(length)
            if got is not None:
                expect(0 <= got[0] < got[1] <= length,
                       '{!r} gave {!r} for {}', value, got, length)
        again = parse_range_header(rng.to_header())
        if all(begin or end for begin, end in rng.ranges):
            expect(again is not None, 'lost {!r}', rng.to_header())
            same(again.ranges, rng.ranges, 'parsed again')
    else:
        body = value[6:]
        if value.startswith('bytes='):
            expect(not _plain(body), '{!r} was refused', value)
    cx.step()
    cx.state(value)
    cx.outcome(rng is not None)


def _plain(body):
    first, dash, last = body.partition('-')
    if dash != '-' or ',' in body or not (first or last):
        return False
    if any(part and not part.isdigit() for part in (first, last)):
        return False
    if first and last:
        return int(first) <= int(last)
    return True


# -- content ranges ----------------------------------------------------------

def run_content(case, cx):
    units, start, stop, length = case
    if (start is None) != (stop is None):
        valid = False
    elif start is None:
        valid = length is None or length >= 0
    else:
        valid = 0 <= start < stop and (length is None or start < length)
    same(bool(is_byte_range_valid(start, stop, length)), valid, 'valid')
    kind, rng = caught(ContentRange, units, start, stop, length)
    if not valid:
        same((kind, rng), ('raised', 'ValueError'), 'constructor')
        other = ContentRange(units, 1, 2, 3)
        before = other.to_header()
        same(caught(other.set, start, stop, length), ('raised', 'ValueError'),
             'set')
        same(other.to_header(), before, 'range after a refused change')
    else:
        same(kind, 'ok', 'constructor')
        same((rng.units, rng.start, rng.stop, rng.length), case, 'fields')
        header = rng.to_header()
        same(header, '%s %s/%s' % (
            units, '*' if start is None else '%d-%d' % (start, stop - 1),
            '*' if length is None else length), 'header')
        for written in (header, ' %s ' % header, header.replace(' ', '  ')):
            again = parse_content_range_header(written)
            expect(again is not None, 'could not parse {!r}', written)
            same((again.units, again.start, again.stop, again.length), case,
                 'parsed again')
        expect(bool(rng), 'false')
        rng.unset()
        expect(not rng, 'true after unset')
        same(rng.to_header(), '', 'header after unset')
    cx.step()
    cx.state(case)
    cx.outcome(valid)


def contents(numbers):
    def gen():
        return itertools.product(('bytes', 'rows'), numbers, numbers,
                                 numbers)
    return gen


def run_content_any(value, cx):
    rng = parse_content_range_header(value)
    if rng is not None:
        if rng.start is None:
            same(rng.stop, None, 'stop')
        else:
            expect(0 <= rng.start < rng.stop, 'range of {!r}', value)
            expect(rng.length is None or rng.start < rng.length,
                   'range of {!r}', value)
        again = parse_content_range_header(rng.to_header())
        same((again.units, again.start, again.stop, again.length),
             (rng.units, rng.start, rng.stop, rng.length), 'parsed again')
    response = Response()
    response.headers['Content-Range'] = value
    got = response.content_range
    same(response.headers.get('Content-Range'), value,
         'header after looking at it')
    if rng is None:
        expect(not got, 'range of {!r}', value)
    cx.step()
    cx.state(value)
    cx.outcome(rng is not None)


# -- if-range ----------------------------------------------------------------

def run_if_range(case, cx):
    kind, value = case
    if kind == 'date':
        moment = datetime(*value)
        header = IfRange(date=moment).to_header()
        got = parse_if_range_header(header)
        same((got.date, got.etag), (moment, None), 'date')
    elif kind == 'etag':
        header = IfRange(etag=value).to_header()
        same(header, '"%s"' % value, 'header')
        got = parse_if_range_header(header)
        same((got.date, got.etag), (None, value), 'etag')
        got = parse_if_range_header('W/' + header)
        same((got.date, got.etag), (None, value), 'weak etag')
    else:
        header = ''
        same(IfRange().to_header(), '', 'nothing')
        got = parse_if_range_header(value)
        same((got.date, got.etag), (None, None), 'nothing')
    same(got.to_header(), header, 'header')
    cx.step()
    cx.state(case)
    cx.outcome(kind)


def if_ranges(width):
    def gen():
        for value in (None, ''):
            yield 'none', value
        for value in strings('a/W-,', width):
            yield 'etag', value
        for month, day, hour in itertools.product(
                range(1, 13), (1, 28), (0, 23)):
            yield 'date', (2015, month, day, hour, 5, 59)
    return gen


check = Check('C18', [
    Space('ranges', run_range, ranges(range(0, 5), 2), ranges(range(0, 7), 3),
          rule='every list of range specifications against every length'),
    Space('many ranges', run_many, lambda: tuple(range(1, 21)) + (33, 65)),
    Space('large numbers', run_large, larges),
    Space('any range', run_any,
          lambda: ('bytes=' + s for s in strings('019-, *x', 4)),
          lambda: ('bytes=' + s for s in strings('019-, *x', 6))),
    Space('any header', run_any, lambda: strings('b=0-,', 6),
          lambda: strings('b=09-, ', 7)),
    Space('content ranges', run_content, contents([None, -1, 0, 1, 2, 5, 9]),
          contents([None] + list(range(-2, 12)))),
    Space('any content range', run_content_any,
          lambda: ('bytes ' + s for s in strings('019-/*', 5)),
          lambda: ('bytes ' + s for s in strings('019-/* x', 6))),
    Space('if-range', run_if_range, if_ranges(4), if_ranges(5)),
], bounds='up to 3 ranges with positions up to 6 and lengths up to 8; header '
    'suffixes of up to 6 characters',
    assumptions=['suffix ranges ask for at least one byte'])
