"""Reference model of URL routing.

Written from the documentation, without regular expressions and without any
code of the implementation: a route is a list of literal and placeholder
tokens, and matching enumerates every way in which the placeholders can cover
the path.
"""
import uuid
from urllib.parse import unquote, urlsplit, parse_qsl


class Route:
    """Plain description of a route, shared by model and implementation."""

    def __init__(self, path, endpoint, **kw):
        self.path = path
        self.endpoint = endpoint
        self.defaults = kw.pop('defaults', None)
        self.subdomain = kw.pop('subdomain', None)
        self.host = kw.pop('host', None)
        self.strict_slashes = kw.pop('strict_slashes', None)
        self.build_only = kw.pop('build_only', False)
        self.alias = kw.pop('alias', False)
        self.redirect_to = kw.pop('redirect_to', None)
        assert not kw


DIGITS = set('0123456789')


def _args(text):
    """'a=1, "x"' -> ([...], {...}); enough for the routes used here."""
    args, kwargs = [], {}
    if not text:
        return args, kwargs
    parts, current, quote = [], '', None
    for ch in text:
        if quote:
            current += ch
            if ch == quote:
                quote = None
        elif ch in '"\'':
            current += ch
            quote = ch
        elif ch == ',':
            parts.append(current)
            current = ''
        else:
            current += ch
    parts.append(current)
    for part in parts:
        part = part.strip()
        name = None
        if '=' in part and part[0] not in '"\'':
            name, part = [p.strip() for p in part.split('=', 1)]
        if part[0] in '"\'':
            value = part[1:-1]
        elif set(part) <= DIGITS:
            value = int(part)
        elif part.count('.') == 1 and set(part) <= DIGITS | {'.'}:
            value = float(part)
        else:
            value = part
        if name:
            kwargs[name] = value
        else:
            args.append(value)
    return args, kwargs


class Conv:
    def __init__(self, kind, argtext):
        self.kind = kind
        args, kwargs = _args(argtext)
        self.kwargs = kwargs
        self.args = args
        self.weight = {'int': 50, 'float': 50, 'path': 200}.get(kind, 100)

    def accepts(self, text):
        """Lexical form"""
        kind, kw = self.kind, self.kwargs
        if kind in ('default', 'string'):
            if '/' in text:
                return False
            low = kw.get('minlength', self.args[0] if self.args else 1)
            high = kw.get('maxlength')
            if 'length' in kw:
                low = high = kw['length']
            return len(text) >= low and (high is None or len(text) <= high)
        if kind == 'path':
            return text != '' and text[0] != '/'
        if kind in ('int', 'odd'):
            return text != '' and set(text) <= DIGITS
        if kind == 'float':
            whole, dot, frac = text.partition('.')
            return (dot == '.' and whole != '' and frac != '' and
                    set(whole) <= DIGITS and set(frac) <= DIGITS)
        if kind == 'any':
            return text in self.args
        if kind == 'uuid':
            parts = text.split('-')
            return [len(p) for p in parts] == [8, 4, 4, 4, 12] and all(
                c in '0123456789abcdefABCDEF' for p in parts for c in p)
        if kind == 'words':
            return text != '' and '/' not in text
        raise KeyError(kind)

    def value(self, text):
        """(valid, value)"""
        kind, kw = self.kind, self.kwargs
        if kind in ('int', 'float'):
            if kw.get('fixed_digits') and len(text) != kw['fixed_digits']:
                return False, None
            value = int(text) if kind == 'int' else float(text)
            if 'min' in kw and value < kw['min']:
                return False, None
            if 'max' in kw and value > kw['max']:
                return False, None
            return True, value
        if kind == 'odd':
            value = int(text)
            return value % 2 == 1, value
        if kind == 'uuid':
            return True, uuid.UUID(text)
        if kind == 'words':
            return True, text.split('+')
        return True, text

    def text(self, value):
        """The unquoted text for a value"""
        if self.kind == 'int':
            digits = str(int(value))
            return digits.rjust(self.kwargs.get('fixed_digits') or 0, '0')
        if self.kind == 'float':
            return str(float(value))
        if self.kind == 'words':
            return '+'.join(value)
        return str(value)


def tokens(pattern):
    """[('lit', text) | ('var', name, Conv)]"""
    out = []
    rest = pattern
    while rest:
        start = rest.find('<')
        if start < 0:
            out.append(('lit', rest))
            break
        if start:
            out.append(('lit', rest[:start]))
        end = rest.index('>', start)
        inner = rest[start + 1:end]
        rest = rest[end + 1:]
        kind, argtext, name = 'default', None, inner
        if ':' in inner:
            kind, name = inner.rsplit(':', 1)
            if '(' in kind:
                kind, argtext = kind.split('(', 1)
                argtext = argtext.rstrip()[:-1]
        out.append(('var', name, Conv(kind, argtext)))
    return out


def cover(toks, text):
    """Every way in which the tokens cover the text: list of {name: text}"""
    if not toks:
        return [{}] if text == '' else []
    first, rest = toks[0], toks[1:]
    if first[0] == 'lit':
        if not text.startswith(first[1]):
            return []
        return cover(rest, text[len(first[1]):])
    out = []
    for end in range(len(text) + 1):
        if first[2].accepts(text[:end]):
            for tail in cover(rest, text[end:]):
                found = {first[1]: text[:end]}
                found.update(tail)
                out.append(found)
    return out


class Map:
    def __init__(self, routes, strict_slashes=True, redirect_defaults=True,
                 default_subdomain='', host_matching=False, charset='utf-8'):
        self.strict_slashes = strict_slashes
        self.redirect_defaults = redirect_defaults
        self.default_subdomain = default_subdomain
        self.host_matching = host_matching
        self.charset = charset
        self.routes = []
        for route in routes:
            self.add(route)

    def add(self, route):
        self.routes.append(Bound(self, route, len(self.routes)))
        self.ordered = sorted(self.routes, key=lambda b: b.priority)

    def for_endpoint(self, endpoint):
        return sorted(
            (b for b in self.routes if b.route.endpoint == endpoint),
            key=lambda b: b.build_priority)

    def match(self, domain, path):
        """('ok', endpoint, [values...]) one of several admissible value
        assignments, ('slash',), ('alias'|'defaults', bound, values),
        ('redirect_to', bound, values) or ('missing',)"""
        path = '/' + path.lstrip('/')
        for bound in self.ordered:
            result = bound.match(domain, path)
            if result is None:
                continue
            if result[0] == 'slash':
                return result
            values = result[1]
            if bound.route.alias and self.redirect_defaults:
                return 'alias', bound, values[0]
            if self.redirect_defaults:
                for other in self.for_endpoint(bound.route.endpoint):
                    if other is bound:
                        break
                    if other.shortens(bound, values[0]):
                        return 'defaults', other, values[0]
            if bound.route.redirect_to is not None:
                return 'redirect_to', bound, values[0]
            return 'ok', bound.route.endpoint, values
        return ('missing',)

    def build(self, endpoint, values):
        """(domain, path text, extra values) or None"""
        values = {k: v for k, v in values.items() if v is not None}
        for bound in self.for_endpoint(endpoint):
            if bound.suitable(values):
                domain, path = bound.text(values)
                extra = {k: v for k, v in values.items()
                         if k not in bound.arguments}
                return domain, path, extra
        return None


class Bound:
    def __init__(self, owner, route, number):
        self.route = route
        self.branch = route.path.endswith('/')
        self.strict = route.strict_slashes
        if self.strict is None:
            self.strict = owner.strict_slashes
        if owner.host_matching:
            domain = route.host or ''
        elif route.subdomain is None:
            domain = owner.default_subdomain or ''
        else:
            domain = route.subdomain
        self.domain_text = domain
        self.domain = tokens(domain)
        self.tokens = tokens(
            route.path.rstrip('/') if self.branch else route.path)
        self.arguments = {
            t[1] for t in self.domain + self.tokens if t[0] == 'var'
        } | set(route.defaults or ())
        parts = []
        for tok in self.domain + self.tokens:
            if tok[0] == 'lit':
                parts += [(0, -len(p)) for p in tok[1].split('/') if p]
            else:
                parts.append((1, tok[2].weight))
        self.priority = (bool(self.arguments), -len(parts), parts, number)
        self.build_priority = (
            bool(route.alias), -len(self.arguments),
            -len(route.defaults or ()), number)

    def match(self, domain, path):
        if self.route.build_only:
            return None
        slash = False
        if self.branch:
            if path.endswith('/'):
                body = path[:-1]
            else:
                body = path
                slash = True
            bodies = [] if body.endswith('/') else [body]
        elif self.strict:
            bodies = [path]
        else:
            body = path[:-1] if path.endswith('/') else path
            bodies = [] if body.endswith('/') else [body]
        found = []
        for body in bodies:
            for head in cover(self.domain, domain):
                for tail in cover(self.tokens, body):
                    texts = dict(head)
                    texts.update(tail)
                    values = {}
                    for tok in self.domain + self.tokens:
                        if tok[0] == 'var':
                            valid, value = tok[2].value(texts[tok[1]])
                            if not valid:
                                break
                            values[tok[1]] = value
                    else:
                        values.update(self.route.defaults or {})
                        if values not in found:
                            found.append(values)
        if not found:
            return None
        if slash and self.strict:
            return ('slash',)
        return 'values', found

    def suitable(self, values):
        defaults = self.route.defaults or {}
        for name in self.arguments:
            if name not in defaults and name not in values:
                return False
        return all(
            values[k] == v for k, v in defaults.items() if k in values)

    def shortens(self, other, values):
        return bool(
            not self.route.build_only and self.route.defaults and
            self.route.endpoint == other.route.endpoint and
            (self.domain_shape(), self.shape()) !=
            (other.domain_shape(), other.shape()) and
            self.arguments == other.arguments and self.suitable(values))

    def shape(self):
        return [t[:2] for t in self.tokens] + [self.branch]

    def domain_shape(self):
        return [t[:2] for t in self.domain]

    def text(self, values):
        def fill(toks):
            return ''.join(
                t[1] if t[0] == 'lit' else t[2].text(values[t[1]])
                for t in toks)
        return fill(self.domain), fill(self.tokens) + (
            '/' if self.branch else '')


def check_url(url, scheme, host, path, query, charset, what, fail):
    """An absolute (or, if host is None, host relative) URL has exactly the
    given meaning.  ``query`` is the raw string, or a list of pairs."""
    if not isinstance(url, str):
        fail('%s: %r is not a string' % (what, url))
    if not url.isascii():
        fail('%s: %r is not plain ASCII' % (what, url))
    if '#' in url or ' ' in url or '\n' in url or '\r' in url:
        fail('%s: %r has unquoted characters' % (what, url))
    split = urlsplit(url)
    if host is None:
        if split.scheme or split.netloc or not url.startswith('/'):
            fail('%s: %r should be relative to the host' % (what, url))
    else:
        if (split.scheme, split.netloc) != (scheme, host):
            fail('%s: %r should be on %s://%s' % (what, url, scheme, host))
    got_path = split.path or ('/' if host is not None else '')
    if unquote(got_path, encoding=charset, errors='strict') != path:
        fail('%s: path of %r should mean %r' % (what, url, path))
    if isinstance(query, str):
        if split.query != query:
            fail('%s: query of %r should be %r' % (what, url, query))
    else:
        got = parse_qsl(split.query, keep_blank_values=True,
                        encoding=charset)
        if sorted(got) != sorted(query):
            fail('%s: query of %r should mean %r' % (what, url, query))
        order = [k for k, _ in query]
        for key in set(order):
            if [v for k, v in got if k == key] != [
                    v for k, v in query if k == key]:
                fail('%s: values of %r out of order in %r' % (
                    what, key, url))


_memo = {}
_plain_match = Bound.match


def _memo_match(self, domain, path):
    try:
        base = self._key
    except AttributeError:
        base = self._key = repr((
            self.route.path, self.domain_text, self.strict,
            self.route.build_only, self.route.defaults))
    key = (base, domain, path)
    try:
        return _memo[key]
    except KeyError:
        if len(_memo) > 400000:
            _memo.clear()
        _memo[key] = result = _plain_match(self, domain, path)
        return result


Bound.match = _memo_match
