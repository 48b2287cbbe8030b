"""Mutation analysis of the checks (a development tool, no check uses it).

    mutate.py list MODULE...             number of mutants per module
    mutate.py run OUT.jsonl MODULE...    classify every mutant
    mutate.py run2 OUT.jsonl MODULE...   the same with other operators

For every mutant of a module: 'killed' (the stable tests fail), 'caught' (by
which check) or 'survived'.  Everything happens in scratch copies.
"""
import ast
import copy
import json
import os
import shutil
import subprocess
import sys
import tempfile
import queue
import threading
import warnings

warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
           TZ='UTC', PYTHONPYCACHEPREFIX='/nonexistent/pyc',
           PYTHONWARNINGS='ignore')
WANT = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])

CHECKS = {
    'verktyg/routing.py': 'C04 C03 C02 C01',
    'verktyg/application.py': 'C25 C08 C09 C07 C10 C03',
    'verktyg/datastructures.py': 'C13 C12 C14 C16 C19 C15 C21',
    'verktyg/dispatch.py': 'C07 C08',
    'verktyg/exception_dispatch.py': 'C08',
    'verktyg/exceptions.py': 'C24 C08 C07 C10 C12 C03',
    'verktyg/requests.py': 'C21 C09 C19 C14 C16 C11 C17 C18',
    'verktyg/responses.py': 'C10 C09 C11 C15 C17 C18 C24',
    'verktyg/urls.py': 'C22 C02 C10 C24',
    'verktyg/utils.py': 'C24 C20 C10 C15 C21 C25',
    'verktyg/views.py': 'C07 C08',
    'verktyg/wsgi.py': 'C19 C20 C21 C09 C18 C10',
    'verktyg/test.py': 'C26',
    'verktyg/http/auth.py': 'C16 C15',
    'verktyg/http/basic.py': 'C14 C16 C11 C18 C15 C23 C20 C21',
    'verktyg/http/cache_control.py': 'C15 C16 C21 C18 C11',
    'verktyg/http/cookies.py': 'C17 C23',
    'verktyg/accept/__init__.py': 'C06 C07',
    'verktyg/accept/_base.py': 'C06 C07',
    'verktyg/accept/charset.py': 'C06 C07',
    'verktyg/accept/language.py': 'C06 C07',
    'verktyg/accept/content_type.py': 'C06 C07',
}

CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt,
       ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.In: ast.NotIn,
       ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add,
       ast.BitOr: ast.BitAnd, ast.BitAnd: ast.BitOr}


def mutants(path):
    """Yields (line, description, new source)"""
    with open(path) as f:
        source = f.read()
    tree = ast.parse(source)
    raw = source.encode()
    starts = [0]
    for line in raw.splitlines(True):
        starts.append(starts[-1] + len(line))

    def span(node):
        return (starts[node.lineno - 1] + node.col_offset,
                starts[node.end_lineno - 1] + node.end_col_offset)

    def replace(node, text):
        a, b = span(node)
        return (raw[:a] + text.encode() + raw[b:]).decode()

    def expr(node, new):
        return replace(node, '(%s)' % ast.unparse(new))

    docs = set()
    skip = set()
    for node in ast.walk(tree):
        if isinstance(node, (ast.Module, ast.ClassDef, ast.FunctionDef)):
            if node.body and isinstance(node.body[0], ast.Expr) and isinstance(
                node.body[0].value, ast.Constant
            ):
                docs.add(id(node.body[0]))
                docs.add(id(node.body[0].value))
        if isinstance(node, ast.Raise) and node.exc is not None:
            for n in ast.walk(node.exc):
                if isinstance(n, ast.Constant):
                    skip.add(id(n))
        if isinstance(node, ast.JoinedStr):
            for n in ast.walk(node):
                skip.add(id(n))
        if isinstance(node, ast.FunctionDef) and node.name == '__repr__':
            for n in ast.walk(node):
                skip.add(id(n))
        if isinstance(node, ast.Call) and isinstance(
            node.func, ast.Name
        ) and node.func.id in (
                'warn', 'lookup_property', 'header_property',
                'environ_property', 'cache_property'):
            for k in node.keywords:
                if k.arg == 'doc':
                    for n in ast.walk(k):
                        skip.add(id(n))
            for k in node.args[1:]:
                if isinstance(k, ast.Constant) and isinstance(
                        k.value, str) and len(k.value) > 30:
                    skip.add(id(k))

    for node in ast.walk(tree):
        if id(node) in docs or id(node) in skip:
            continue
        line = getattr(node, 'lineno', 0)
        if isinstance(node, ast.Compare):
            for i, op in enumerate(node.ops):
                new = copy.copy(node)
                new.ops = list(node.ops)
                new.ops[i] = CMP[type(op)]()
                yield line, 'cmp %s' % type(op).__name__, expr(node, new)
        elif isinstance(node, ast.BoolOp):
            new = copy.copy(node)
            new.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
            yield line, 'boolop', expr(node, new)
            for i in range(len(node.values)):
                rest = node.values[:i] + node.values[i + 1:]
                new = rest[0] if len(rest) == 1 else ast.BoolOp(node.op, rest)
                yield line, 'drop operand %d' % i, expr(node, new)
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            yield line, 'drop not', expr(node, node.operand)
        elif isinstance(node, ast.BinOp) and type(node.op) in BIN:
            new = copy.copy(node)
            new.op = BIN[type(node.op)]()
            yield line, 'binop', expr(node, new)
        elif isinstance(node, ast.Constant):
            v = node.value
            if isinstance(v, bool):
                yield line, 'bool', replace(node, repr(not v))
            elif isinstance(v, int):
                yield line, 'int+1', replace(node, '(%r)' % (v + 1))
                if v:
                    yield line, 'int-1', replace(node, '(%r)' % (v - 1))
            elif isinstance(v, (str, bytes)):
                if v:
                    yield line, 'str-first', replace(node, repr(v[1:]))
                    if len(v) > 1:
                        yield line, 'str-last', replace(node, repr(v[:-1]))
                else:
                    yield line, 'str+x', replace(
                        node, repr('x' if isinstance(v, str) else b'x'))
        elif isinstance(node, (ast.If, ast.While)):
            yield line, 'test true', replace(node.test, '(True)')
            yield line, 'test false', replace(node.test, '(False)')
        elif isinstance(node, ast.IfExp):
            yield line, 'ifexp body', expr(node, node.body)
            yield line, 'ifexp else', expr(node, node.orelse)
        elif isinstance(node, ast.Call):
            if isinstance(node.func, ast.Attribute) and len(
                    node.args) + len(node.keywords) <= 1:
                yield line, 'call->receiver', expr(node, node.func.value)
            for i in range(len(node.keywords)):
                new = copy.copy(node)
                new.keywords = node.keywords[:i] + node.keywords[i + 1:]
                yield line, 'drop kw %s' % node.keywords[i].arg, expr(
                    node, new)
            if len(node.args) > 1:
                new = copy.copy(node)
                new.args = node.args[:-1]
                yield line, 'drop last arg', expr(node, new)
            if len(node.args) == 1 and isinstance(node.func, ast.Name):
                yield line, 'call->arg', expr(node, node.args[0])
        elif isinstance(node, ast.Slice):
            if node.lower is not None:
                yield line, 'slice lower', replace(node.lower, '')
            if node.upper is not None:
                yield line, 'slice upper', replace(node.upper, '')
        elif isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign,
                               ast.Raise, ast.Return, ast.Continue,
                               ast.Break, ast.Delete)):
            yield line, 'delete statement', replace(node, 'pass')
            if isinstance(node, ast.Return) and node.value is not None:
                yield line, 'return None', replace(node, 'return None')
            if isinstance(node, ast.Break):
                yield line, 'break->continue', replace(node, 'continue')
            if isinstance(node, ast.Continue):
                yield line, 'continue->break', replace(node, 'break')
        if isinstance(node, ast.FunctionDef):
            for i in range(len(node.decorator_list)):
                d = node.decorator_list[i]
                a, b = span(d)
                yield d.lineno, 'drop decorator', (
                    raw[:a] + b'(lambda _f: _f)' + raw[b:]).decode()


MEMO = '''
def _memo(function):
    import functools
    cache = {}

    @functools.wraps(function)
    def wrapper(*args, **kwargs):
        try:
            key = args, tuple(sorted(kwargs.items()))
            hash(key)
        except TypeError:
            try:
                key = (id(args[0]),) + args[1:], tuple(kwargs.items())
                hash(key)
            except (IndexError, TypeError):
                return function(*args, **kwargs)
        if key not in cache:
            cache[key] = args, function(*args, **kwargs)
        return cache[key][1]
    return wrapper

'''

METHODS = {
    'split': 'rsplit', 'rsplit': 'split', 'partition': 'rpartition',
    'rpartition': 'partition', 'find': 'rfind', 'index': 'rindex',
    'strip': 'rstrip', 'lstrip': 'strip', 'rstrip': 'strip',
    'startswith': '__contains__', 'endswith': '__contains__',
    'append': 'extend', 'match': 'search', 'search': 'match',
    'fullmatch': 'match', 'isdigit': 'isnumeric', 'update': 'setdefault',
    'lower': 'upper', 'upper': 'lower', 'setdefault': '__setitem__',
    'decode': None,
}


def mutants2(path):
    """A second set of operators: memos, falsy values, first few items only,
    similar methods, other exceptions, characters of patterns, default
    arguments shared between calls"""
    with open(path) as f:
        source = f.read()
    tree = ast.parse(source)
    raw = source.encode()
    starts = [0]
    for line in raw.splitlines(True):
        starts.append(starts[-1] + len(line))

    def span(node):
        return (starts[node.lineno - 1] + node.col_offset,
                starts[node.end_lineno - 1] + node.end_col_offset)

    def replace(node, text):
        a, b = span(node)
        return (raw[:a] + text.encode() + raw[b:]).decode()

    def expr(node, new):
        return replace(node, '(%s)' % ast.unparse(new))

    first = tree.body[0]
    helper_at = starts[first.end_lineno] if isinstance(
        first, ast.Expr) else 0

    quiet = set()
    for node in ast.walk(tree):
        if isinstance(node, ast.FunctionDef) and node.name == '__repr__':
            quiet.update(map(id, ast.walk(node)))

    for node in ast.walk(tree):
        line = getattr(node, 'lineno', 0)
        if id(node) in quiet:
            continue
        if isinstance(node, ast.FunctionDef):
            if not any(isinstance(n, (ast.Yield, ast.YieldFrom))
                       for n in ast.walk(node)) and not (
                    node.name.startswith('__')) and any(
                    isinstance(n, ast.Return) and n.value is not None
                    for n in ast.walk(node)):
                a = starts[node.lineno - 1]
                indent = b' ' * node.col_offset
                yield line, 'memo ' + node.name, (
                    raw[:helper_at] + MEMO.encode() + raw[helper_at:a]
                    + indent + b'@_memo\n' + raw[a:]).decode()
        elif isinstance(node, ast.Compare) and len(node.ops) == 1 and (
                isinstance(node.comparators[0], ast.Constant)
                and node.comparators[0].value is None):
            if isinstance(node.ops[0], ast.Is):
                yield line, 'falsy', expr(
                    node, ast.UnaryOp(ast.Not(), node.left))
            elif isinstance(node.ops[0], ast.IsNot):
                yield line, 'truthy', expr(node, node.left)
        elif isinstance(node, (ast.If, ast.IfExp, ast.While)) and isinstance(
                node.test, (ast.Name, ast.Attribute, ast.Call)):
            yield line, 'not None', replace(
                node.test, '((%s) is not None)' % ast.unparse(node.test))
        elif isinstance(node, (ast.For, ast.comprehension)):
            for n in (2, 12):
                yield line or node.iter.lineno, 'first %d' % n, replace(
                    node.iter, '(list(%s)[:%d])' % (
                        ast.unparse(node.iter), n))
            yield line or node.iter.lineno, 'reversed', replace(
                node.iter, '(list(%s)[::-1])' % ast.unparse(node.iter))
        elif isinstance(node, ast.Call) and isinstance(
                node.func, ast.Attribute):
            other = METHODS.get(node.func.attr)
            if other is not None:
                new = copy.deepcopy(node)
                new.func.attr = other
                yield line, '%s->%s' % (node.func.attr, other), expr(
                    node, new)
        if isinstance(node, ast.Call) and len(node.args) == 2 and not any(
                isinstance(a, ast.Starred) for a in node.args) and not (
                isinstance(node.func, ast.Name)
                and node.func.id in ('isinstance', 'getattr', 'hasattr')):
            new = copy.copy(node)
            new.args = node.args[::-1]
            yield line, 'swap args', expr(node, new)
        if isinstance(node, ast.ExceptHandler) and node.type is not None:
            if isinstance(node.type, ast.Tuple):
                for i in range(len(node.type.elts)):
                    new = ast.Tuple(node.type.elts[:i]
                                    + node.type.elts[i + 1:], ast.Load())
                    yield line, 'except less', expr(node.type, new)
            elif ast.unparse(node.type) != 'Exception':
                yield line, 'except Exception', replace(
                    node.type, 'Exception')
            else:
                yield line, 'except less', replace(node.type, 'ValueError')
        if isinstance(node, ast.Call) and ast.unparse(node.func) in (
                're.compile', '_re.compile') and isinstance(
                node.args[0], ast.Constant):
            v = node.args[0].value
            for i in range(1, len(v) - 1):
                if v[i:i + 1].isspace() or v[i:i + 1].isalpha():
                    continue
                yield line, 'pattern without %d' % i, replace(
                    node.args[0], repr(v[:i] + v[i + 1:]))
        if isinstance(node, ast.Constant) and isinstance(
                node.value, (str, bytes)) and 2 < len(node.value) <= 24 and (
                b' ' not in (node.value if isinstance(node.value, bytes)
                             else node.value.encode())):
            v = node.value
            if not all(c.isalnum() or c in '_-' for c in (
                    v if isinstance(v, str) else v.decode('latin1'))):
                for i in range(1, len(v) - 1):
                    yield line, 'text without %d' % i, replace(
                        node, repr(v[:i] + v[i + 1:]))
        if isinstance(node, (ast.Set, ast.List, ast.Tuple)) and len(
                node.elts) > 2 and all(isinstance(
                    e, ast.Constant) for e in node.elts):
            for i in range(1, len(node.elts) - 1):
                new = copy.copy(node)
                new.elts = node.elts[:i] + node.elts[i + 1:]
                yield line, 'without element %d' % i, expr(node, new)
        if isinstance(node, ast.If) and not node.orelse and len(
                node.body) == 1 and isinstance(node.body[0], (
                    ast.Return, ast.Continue, ast.Break)):
            yield line, 'drop guard', replace(node, 'pass')


def compiles(source):
    try:
        compile(source, 'x', 'exec')
        return True
    except (SyntaxError, ValueError):
        return False


def tests_pass(repo):
    out = os.path.join(repo, '.out.xml')
    try:
        subprocess.run(
            ['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p',
             'no:cacheprovider', '--timeout=20', '-o', 'junit_family=xunit2',
             '--junitxml=' + out, 'verktyg/testsuite'],
            cwd=repo, env=dict(ENV, PYTHONPATH=repo), timeout=120,
            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        return False
    res = os.path.join(repo, '.res.json')
    subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', res,
                    'junit:' + out], cwd=repo, stdout=subprocess.DEVNULL)
    try:
        got = json.load(open(res))
    except Exception:
        return False
    for f in (out, res):
        if os.path.exists(f):
            os.remove(f)
    return not WANT - set(got['passed'])


def run_checks(repo, verif, checks):
    for pid in checks:
        if not os.path.exists(os.path.join(
                verif, 'mc/checks', pid.lower() + '.py')):
            continue
        try:
            r = subprocess.run(
                ['./check', pid, 'quick'], cwd=verif,
                env=dict(ENV, VERIF_REPO=repo), stdout=subprocess.PIPE,
                stderr=subprocess.STDOUT, timeout=900)
        except subprocess.TimeoutExpired:
            return pid + ' timeout'
        out = r.stdout.decode(errors='replace')
        if r.returncode == 1 and 'VIOLATION property=' + pid in out:
            return pid
        if r.returncode != 0:
            return '%s exit %d' % (pid, r.returncode)
    return None


def main(out, modules, only=None, mutants=mutants):
    done = {}
    if os.path.exists(out):
        for line in open(out):
            d = json.loads(line)
            done[d['module'], d['n']] = d
    jobs = queue.Queue()
    for module in modules:
        for n, (line, what, source) in enumerate(
                mutants(os.path.join('/repo', module))):
            if (module, n) in done and (
                    only is None or done[module, n]['result'] != only):
                continue
            if compiles(source):
                jobs.put((module, n, line, what, source))
    print(jobs.qsize(), 'mutants', flush=True)
    base = tempfile.mkdtemp(prefix='mutate-')
    lock = threading.Lock()
    survivors = queue.Queue()
    f = open(out, 'a')

    def emit(**kw):
        with lock:
            f.write(json.dumps(kw) + '\n')
            f.flush()

    def setup(name):
        repo = os.path.join(base, name, 'repo')
        shutil.copytree('/repo', repo,
                        ignore=shutil.ignore_patterns('.git'))
        return repo

    def stage1(k):
        repo = setup('t%d' % k)
        while True:
            try:
                module, n, line, what, source = jobs.get_nowait()
            except queue.Empty:
                return
            path = os.path.join(repo, module)
            with open(path, 'w') as g:
                g.write(source)
            ok = tests_pass(repo)
            shutil.copy(os.path.join('/repo', module), path)
            if ok:
                survivors.put((module, n, line, what, source))
            else:
                emit(module=module, n=n, line=line, what=what,
                     result='killed')

    def stage2(k):
        repo = setup('c%d' % k)
        verif = os.path.join(base, 'c%d' % k, 'verif')
        shutil.copytree(HERE, verif,
                        ignore=shutil.ignore_patterns('.git', 'seeded'))
        while True:
            item = survivors.get()
            if item is None:
                survivors.put(None)
                return
            module, n, line, what, source = item
            path = os.path.join(repo, module)
            with open(path, 'w') as g:
                g.write(source)
            got = run_checks(repo, verif, CHECKS[module].split())
            shutil.copy(os.path.join('/repo', module), path)
            emit(module=module, n=n, line=line, what=what,
                 result='caught' if got else 'survived', by=got)

    def pool(target, count):
        threads = [threading.Thread(target=target, args=(k,))
                   for k in range(count)]
        for t in threads:
            t.start()
        return threads

    try:
        first = pool(stage1, 7)
        for t in first:
            t.join()
        print(survivors.qsize(), 'pass the tests', flush=True)
        survivors.put(None)
        for t in pool(stage2, 3):
            t.join()
    finally:
        shutil.rmtree(base)


if __name__ == '__main__':
    if sys.argv[1] in ('list', 'list2'):
        if sys.argv[1] == 'list2':
            mutants = mutants2
        total = 0
        for m in sys.argv[2:] or CHECKS:
            k = sum(compiles(s) for _, _, s in mutants('/repo/' + m))
            total += k
            print(k, m)
        print(total)
    elif sys.argv[1] == 'run':
        main(sys.argv[2], sys.argv[3:] or list(CHECKS))
    elif sys.argv[1] == 'run2':
        main(sys.argv[2], sys.argv[3:] or list(CHECKS), mutants=mutants2)
    elif sys.argv[1] == 'again':
        # the survivors of an earlier run, with the checks of today
        old = [json.loads(x) for x in open(sys.argv[2])]
        keep = [d for d in old if d['result'] != 'survived']
        with open(sys.argv[2], 'w') as g:
            for d in keep:
                g.write(json.dumps(d) + '\n')
        main(sys.argv[2], sys.argv[3:] or sorted(
            {d['module'] for d in old}))
