"""C23: points in time survive being written into a header and read back."""
import itertools
import os
import time
from datetime import datetime, timedelta, timezone

from verktyg.http import cookie_date, http_date, parse_date
from verktyg.requests import Request
from verktyg.responses import Response

from mc.core import Check, Space, expect, same, strings, words
from mc.wsgi_client import environ

DAYS = ('Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday',
        'Sunday')
MONTHS = ('Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep',
          'Oct', 'Nov', 'Dec')
ZONES = ('UTC0', 'EST5EDT,M3.2.0,M11.1.0', 'XXX-5:30', 'YYY+11', 'ZZZ-14')


def civil(days):
    """Year, month, day of a number of days since 1970-01-01"""
    days += 719468
    era, day_of_era = divmod(days, 146097)
    year = (day_of_era - day_of_era // 1460 + day_of_era // 36524 -
            day_of_era // 146096) // 365
    day = day_of_era - (365 * year + year // 4 - year // 100)
    m = (5 * day + 2) // 153
    day = day - (153 * m + 2) // 5 + 1
    month = m + 3 if m < 10 else m - 9
    return year + era * 400 + (month <= 2), month, day


def taken_apart(seconds):
    days, rest = divmod(seconds, 86400)
    year, month, day = civil(days)
    return (year, month, day, rest // 3600, rest // 60 % 60, rest % 60,
            (days + 3) % 7)


def rfc1123(t, delim=' '):
    return '%s, %02d%s%s%s%04d %02d:%02d:%02d GMT' % (
        DAYS[t[6]][:3], t[2], delim, MONTHS[t[1] - 1], delim, t[0], t[3],
        t[4], t[5])


def rfc850(t):
    return '%s, %02d-%s-%02d %02d:%02d:%02d GMT' % (
        DAYS[t[6]], t[2], MONTHS[t[1] - 1], t[0] % 100, t[3], t[4], t[5])


def asctime(t):
    return '%s %s %2d %02d:%02d:%02d %04d' % (
        DAYS[t[6]][:3], MONTHS[t[1] - 1], t[2], t[3], t[4], t[5], t[0])


def look(seconds, cx):
    t = taken_apart(seconds)
    moment = datetime(*t[:6])
    text = rfc1123(t)
    for given in (seconds, float(seconds), moment, moment.timetuple(),
                  moment.replace(microsecond=999999), seconds + 0.5,
                  seconds, seconds + 0.999, seconds + 0.001):
        same(http_date(given), text, 'http_date(%r)' % (given,))
        same(cookie_date(given), rfc1123(t, '-'), 'cookie_date')
    for written in (text, rfc1123(t, '-'), asctime(t), text.lower(),
                    text.upper(), ' ' + text + ' '):
        same(parse_date(written), moment, 'parse_date(%r)' % written)
    if 1969 <= t[0] <= 2068:
        same(parse_date(rfc850(t)), moment, 'parse_date(%r)' % rfc850(t))
    cx.step(2)
    return text, moment


def run_days(case, cx):
    first, last, second = case
    for day in range(first, last):
        look(day * 86400 + second, cx)
    cx.outcome(civil(first)[0])
    cx.state(case)


def days(start, stop, seconds):
    def gen():
        first = (datetime(start, 1, 1) - datetime(1970, 1, 1)).days
        last = (datetime(stop, 12, 31) - datetime(1970, 1, 1)).days + 1
        for second in seconds:
            for day in range(first, last, 200):
                yield day, min(day + 200, last), second
    return gen


def run_seconds(case, cx):
    day, hour = case
    for second in range(hour * 3600, hour * 3600 + 3601):
        look(day * 86400 + second, cx)
    cx.outcome(case)
    cx.state(case)


def second_cases():
    yield -1, 23
    yield -25509, 23
    yield from itertools.product((0, 9075, 11016, 17224, 24837), range(24))


def run_zone(case, cx):
    """A date written with an offset"""
    sign, minutes, seconds = case
    offset = timedelta(minutes=minutes if sign == '+' else -minutes)
    t = taken_apart(seconds)
    moment = datetime(*t[:6])
    written = rfc1123(t)[:-3] + '%s%02d%02d' % (
        sign, minutes // 60, minutes % 60)
    same(parse_date(written), moment - offset, 'parse_date(%r)' % written)
    aware = moment.replace(tzinfo=timezone(offset))
    want = rfc1123(taken_apart(
        seconds - (minutes if sign == '+' else -minutes) * 60))
    same(http_date(aware), want, 'http_date(%r)' % aware)
    cx.step(2)
    cx.outcome(case[:2])
    cx.state(case)


def zones(step):
    def gen():
        return itertools.product('+-', range(0, 15 * 60, step), (
            0, 784111777, 951782400, 1456704000, 1483228799, 1109635199))
    return gen


def run_local(case, cx):
    """Where the server is does not matter"""
    zone, seconds = case
    old = os.environ.get('TZ')
    os.environ['TZ'] = zone
    time.tzset()
    try:
        text, moment = look(seconds, cx)
        response = Response()
        for name, header in (
            ('date', 'Date'), ('expires', 'Expires'),
            ('last_modified', 'Last-Modified'),
        ):
            setattr(response, name, 0)
            same(response.headers[header], 'Thu, 01 Jan 1970 00:00:00 GMT',
                 'the epoch as ' + header)
            for given in (moment, seconds):
                setattr(response, name, given)
                same(response.headers[header], text, header)
                same(getattr(response, name), moment, name)
            response.headers[header] = 'junk'
            same(getattr(response, name), None, 'junk ' + name)
        request = Request(environ(headers=[
            ('Date', text), ('If-Modified-Since', text),
            ('If-Unmodified-Since', text), ('If-Range', text)]))
        for name in ('date', 'if_modified_since', 'if_unmodified_since'):
            same(getattr(request, name), moment, name)
        same(request.if_range.date, moment, 'if_range')
        same(request.if_range.to_header(), text, 'if_range')
        if seconds % 7 == 0:
            for wait in (0, 60, 86400):
                for given in (wait, str(wait)):
                    response.retry_after = given
                    left = (response.retry_after - datetime(1970, 1, 1)
                            ).total_seconds() - time.time() - wait
                    expect(-30 < left < 30, 'retry after {}: {}', wait, left)
            response.retry_after = moment
            same(response.headers['Retry-After'], text, 'retry after')
            same(response.retry_after, moment, 'retry after')
        before = int(time.time())
        now = parse_date(http_date())
        after = int(time.time())
        expect(
            before - 2 <=
            (now - datetime(1970, 1, 1)).total_seconds() <= after + 2,
            'the time is {} now', now)
    finally:
        if old is None:
            del os.environ['TZ']
        else:
            os.environ['TZ'] = old
        time.tzset()
    cx.outcome(zone)
    cx.state(case)


def local_cases(step):
    def gen():
        # around every change of summer time in two years and in between
        return itertools.product(ZONES, range(
            1425168000, 1488326400, step))
    return gen


def run_years(case, cx):
    year, month = case
    want = 1900 + year if year >= 69 else 2000 + year
    t = (want, month, 7, 1, 2, 3, datetime(want, month, 7).weekday())
    same(parse_date(rfc850(t)), datetime(*t[:6]), 'parse_date(%r)'
         % rfc850(t))
    cx.step()
    cx.outcome(want)
    cx.state(case)


def run_any(text, cx):
    """Nonsense is no date, and nothing worse"""
    got = parse_date(text)
    expect(got is None or isinstance(got, datetime), 'parse_date({!r}) = '
           '{!r}', text, got)
    cx.step()
    cx.outcome(got is None)
    cx.state((text, got))


TOKENS = ('Sun,', 'Sun', 'Sunday,', '06', '6', 'Nov', 'nov', '1994', '94',
          '08:49:37', '24:00:00', '08:49', '08.49.37', '8', ':', 'GMT',
          '+0100', '-9999', '06-Nov-94', '99999', '31', 'Feb', '0', '-', '+')


def nonsense(length, tokens):
    def gen():
        yield from strings('S1,:- +N', length)
        for word in words(TOKENS, tokens):
            yield ' '.join(word)
        good = 'Sun, 06 Nov 1994 08:49:37 GMT'
        for cut in range(len(good) + 1):
            yield good[:cut]
            yield good[cut:]
            for c in '0 :,-+aZ9\xfc\0':
                yield good[:cut] + c + good[cut:]
                yield good[:cut] + c + good[cut + 1:]
        yield from (None, '')
    return gen


check = Check('C23', [
    Space('days', run_days, days(1900, 2100, (0,)),
          days(1000, 9998, (0, 86399)), chunk=4),
    Space('seconds', run_seconds, second_cases, chunk=1),
    Space('offsets', run_zone, zones(15), zones(1)),
    Space('local time', run_local, local_cases(7 * 86400 + 3600),
          local_cases(1800), chunk=50),
    Space('short years', run_years, lambda: itertools.product(
        range(100), range(1, 13))),
    Space('nonsense', run_any, nonsense(5, 3), nonsense(6, 4)),
], bounds='days: every day of 1900-2100 (thorough: 1000-9998, first and last '
   'second); seconds: every second of five days; offsets: every UTC offset '
   'of up to 15 hours in steps of 15 minutes (1 minute) at six moments; '
   'local time: five time zones; nonsense: every text of up to 5 (6) '
   'characters, up to 3 (4) tokens, and every single edit of a date',
   assumptions=['years 1000 to 9999, two digit years mean 1969 to 2068'])
