"""Binds the routing model to the implementation."""
import functools

from verktyg import routing as impl
from verktyg.exceptions import HTTPException, NotFound

from mc import model_routing as model
from mc.core import Violation, fail
from mc.model_routing import Route


class OddConverter(impl.BaseConverter):
    regex = r'[0-9]+'

    def to_python(self, value):
        value = int(value)
        if value % 2 == 0:
            raise impl.ValidationError()
        return value


class WordsConverter(impl.BaseConverter):
    def to_python(self, value):
        return value.split('+')

    def to_url(self, value):
        return '+'.join(
            super(WordsConverter, self).to_url(v) for v in value)


CONVERTERS = {'odd': OddConverter, 'words': WordsConverter}


def impl_route(r):
    return impl.Route(
        r.path, endpoint=r.endpoint,
        defaults=dict(r.defaults) if r.defaults else None,
        subdomain=r.subdomain, host=r.host,
        strict_slashes=r.strict_slashes, build_only=r.build_only,
        alias=r.alias, redirect_to=r.redirect_to)


def impl_map(routes, **config):
    return impl.URLMap(
        [impl_route(r) for r in routes], converters=CONVERTERS, **config)


class FastMap(model.Map):
    """The model, remembering per route results so that many maps over the
    same catalogue are cheap."""


def observe(adapter, path, query=None, **kw):
    """What the implementation did"""
    try:
        endpoint, values = adapter.match(path, query_args=query, **kw)
    except impl.RequestRedirect as e:
        return 'redirect', e.new_url
    except NotFound:
        return ('missing',)
    return 'ok', endpoint, values


def typed(values):
    return {k: (type(v).__name__, v) for k, v in values.items()}


def query_pairs(query):
    pairs = []
    for k, v in query.items():
        if isinstance(v, (list, tuple)):
            pairs += [(k, str(x)) for x in v]
        else:
            pairs.append((k, str(v)))
    return pairs


def compare_match(got, mm, domain, path, cx, what, server='example.com',
                  scheme='http', script='/', query=None, expected=None):
    """``mm`` is the model map; ``domain`` the subdomain or host"""
    cx.step()
    want = expected or mm.match(domain, path)
    q = '' if query is None else query
    if isinstance(q, dict):
        q = query_pairs(q)
    cx.outcome((want[0], got[0]))
    if want[0] == 'ok':
        if got[0] != 'ok':
            fail('%s: expected %r with %r, got %r' % (
                what, want[1], want[2], got))
        if got[1] != want[1]:
            fail('%s: matched endpoint %r, expected %r' % (
                what, got[1], want[1]))
        if typed(got[2]) not in [typed(v) for v in want[2]]:
            fail('%s: matched values %r, expected %r' % (
                what, got[2], want[2]))
    elif want[0] == 'missing':
        if got != ('missing',):
            fail('%s: expected NotFound, got %r' % (what, got))
    else:
        if got[0] != 'redirect':
            fail('%s: expected a redirect (%s), got %r' % (
                what, want[0], got))
        prefix = script.rstrip('/')
        if want[0] == 'slash':
            host = domain_host(mm, domain, server)
            model.check_url(
                got[1], scheme, host,
                prefix + '/' + path.lstrip('/') + '/', q, mm.charset,
                what + ': slash redirect', fail)
        elif want[0] == 'redirect_to':
            pass        # compared where the targets are enumerated
        else:
            if want[0] == 'alias':
                built = mm.build(want[1].route.endpoint, want[2])
                target_domain, target_path, _ = built
            else:
                values = dict(want[2])
                values.update(want[1].route.defaults or {})
                target_domain, target_path = want[1].text(values)
            host = domain_host(mm, target_domain, server)
            model.check_url(
                got[1], scheme, host, prefix + target_path, q, mm.charset,
                what + ': %s redirect' % want[0], fail)
    return want


def domain_host(mm, domain, server):
    if mm.host_matching:
        return domain
    return domain + '.' + server if domain else server
