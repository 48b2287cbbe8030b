"""Reference model of content negotiation."""


def parse(header):
    """[(range, q)] of a well formed Accept* header"""
    out = []
    for item in header.split(','):
        parts = [p.strip() for p in item.split(';')]
        q = 1.0
        for param in parts[1:]:
            key, _, value = param.partition('=')
            if key.strip() == 'q':
                q = min(max(float(value), 0.0), 1.0)
        out.append((parts[0], q))
    return out


def type_specificity(value, pattern):
    vt, vs = value.split('/')
    pt, ps = pattern.split('/')
    if pt not in ('*', vt) or ps not in ('*', vs):
        return None
    return (pt == vt, ps == vs)


def language_specificity(value, pattern):
    size = len(value.split('-'))
    if pattern == '*':
        return (-size, 0)
    depth = len(pattern.split('-'))
    if value.split('-')[:depth] == pattern.split('-'):
        return (depth - size, depth)
    return None


def charset_specificity(value, pattern):
    if pattern == '*':
        return 0
    return 1 if value == pattern else None


def score(value, header, specificity, any_):
    """None if there is nothing to match, False if it is unacceptable"""
    if value is None:
        return None
    best = None
    for pattern, q in parse(any_ if header is None else header):
        spec = specificity(value, pattern)
        if spec is not None and (best is None or (spec, q) > best):
            best = (spec, q)
    if best is None or best[1] == 0:
        return False
    return best


def rank(rep, accept, language, charset):
    """rep is (content type, language, charset, qs)"""
    scores = [
        score(rep[0], accept, type_specificity, '*/*'),
        score(rep[1], language, language_specificity, '*'),
        score(rep[2], charset, charset_specificity, '*'),
    ]
    if False in scores:
        return None
    qs = 1.0 if rep[3] is None else min(max(rep[3], 0.0), 1.0)
    return tuple(
        (0,) if s is None else (1,) + s for s in scores) + (qs,)


def select(reps, accept=None, language=None, charset=None):
    """The position of the chosen representation or None"""
    best = None
    chosen = None
    for position, rep in enumerate(reps):
        r = rank(rep, accept, language, charset)
        if r is not None and (best is None or r >= best):
            best, chosen = r, position
    return chosen
