"""Converters an application brings along, each with a reference that states
what it accepts, what it yields and what it writes."""
import re

from verktyg import routing as impl

REFUSED = object()


class Answer(impl.BaseConverter):
    """Words with several branches; one of them means None"""
    regex = 'yes|no|maybe'
    weight = 10

    def to_python(self, value):
        return {'yes': True, 'no': False, 'maybe': None}[value]

    def to_url(self, value):
        for text, meant in WORDS.items():
            if meant is value:
                return text
        raise impl.ValidationError()


WORDS = {'yes': True, 'no': False, 'maybe': None}


class Weighed(impl.BaseConverter):
    """Takes its weight, and more, as arguments"""
    regex = '[a-z]+'

    def __init__(self, router, weight, Mark='-', size=None):
        impl.BaseConverter.__init__(self, router)
        self.weight = weight
        self.mark = Mark
        if size is not None:
            self.regex = '[a-z]{%d}' % size

    def to_python(self, value):
        return self.mark, value

    def to_url(self, value):
        if not isinstance(value, tuple) or value[0] != self.mark:
            raise impl.ValidationError()
        return value[1]


class Upper(impl.BaseConverter):
    """For the name of one of the converters that are always there"""
    regex = '[A-Z]+'
    weight = 90

    def to_url(self, value):
        if not isinstance(value, str) or not re.fullmatch('[A-Z]+', value):
            raise impl.ValidationError()
        return value


class Hex(impl.BaseConverter):
    regex = '[0-9a-f]+'
    weight = 40

    def to_python(self, value):
        value = int(value, 16)
        if value == 13:
            raise impl.ValidationError()
        return value

    def to_url(self, value):
        if not isinstance(value, int) or isinstance(value, bool):
            raise impl.ValidationError()
        return '%x' % value


OWN = {'answer': Answer, 'weighed': Weighed, 'default': Upper, 'int': Hex}


def _full(regex, convert):
    return lambda text: (
        convert(text) if re.fullmatch(regex, text) else REFUSED)


def _weighed(weight, mark='-', regex='[a-z]+'):
    return (
        weight, _full(regex, lambda text: (mark, text)),
        lambda v: v[1] if isinstance(v, tuple) and v[0] == mark else REFUSED)


#: placeholder: (weight, text -> value, value -> text)
REFERENCE = {
    '<answer:x>': (
        10, lambda text: WORDS.get(text, REFUSED),
        lambda v: {True: 'yes', False: 'no', None: 'maybe'}.get(v, REFUSED)
        if v is None or isinstance(v, bool) else REFUSED),
    '<weighed(5):x>': _weighed(5),
    '<weighed(60, Mark=M):x>': _weighed(60, 'M'),
    '<weighed(weight=70, Mark="a,b", size=3):x>': _weighed(
        70, 'a,b', '[a-z]{3}'),
    '<x>': (
        90, _full('[A-Z]+', str),
        lambda v: v if isinstance(v, str) and re.fullmatch('[A-Z]+', v)
        else REFUSED),
    '<default:x>': (
        90, _full('[A-Z]+', str),
        lambda v: v if isinstance(v, str) and re.fullmatch('[A-Z]+', v)
        else REFUSED),
    '<string:x>': (
        100, _full('[^/]+', str),
        lambda v: v.decode() if isinstance(v, bytes) else str(v)),
    '<int:x>': (
        40, _full('[0-9a-f]+',
                  lambda t: REFUSED if int(t, 16) == 13 else int(t, 16)),
        lambda v: '%x' % v if isinstance(v, int) and
        not isinstance(v, bool) else REFUSED),
}

TEXTS = ['yes', 'no', 'maybe', 'yesno', 'abc', 'abcd', 'A', 'AB', 'Ab', 'd',
         'ff', '0', '10', '1g', '7F', '-']
VALUES = [True, False, 17, 0, 13, ('-', 'abc'), ('M', 'abc'), ('M', 'yes'),
          ('a,b', 'abc'), 'AB', 'ab', 'yes', 1.5, b'abc',
          b'A\xc3\xa9']


def own_map(placeholders, frame, endpoint=str):
    return impl.URLMap([
        impl.Route(frame % p, endpoint=endpoint(i))
        for i, p in enumerate(placeholders)
    ], converters=OWN)


def own_cases(size):
    import itertools

    def gen():
        for n in range(1, size + 1):
            for chosen in itertools.permutations(REFERENCE, n):
                for frame in ('/%s', '/v/%s/w', '/a-%s'):
                    yield chosen, frame
    return gen
