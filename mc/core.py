"""Exploration engine shared by every check.

A check is a list of *spaces*.  A space is a finite, deterministic enumeration
of cases (operation histories, inputs, schedules, fault points) together with
a function that executes one case on the real code from /repo and compares it,
step by step, with an independent reference model.  The engine executes every
case of every space, in parallel, and reports what was covered.

Cases are plain Python literals, so that a failing one can be written to a
replay file and executed again on its own:

    python -m mc replay /verif/replays/<file>.json
"""
import ast
import hashlib
import itertools
import json
import multiprocessing
import os
import re
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
REPLAYS = os.path.join(VERIF, 'replays')
EVIDENCE = os.path.join(VERIF, 'evidence')

CASE_TIMEOUT = 60          # seconds of wall clock for one case (normally ms)
MEMORY_LIMIT = 3 << 30     # address space of one worker
MAX_REPORTED = 5           # violations written out per check
REVISITED = 64             # cases a worker executes again at the end
AFTER = 'after the other cases of tier %s, worker %d of %d: '


class Violation(Exception):
    """The implementation disagreed with the property."""


class CaseTimeout(BaseException):
    pass


class Cx:
    """Measures what a run covers."""

    def __init__(self):
        self.transitions = 0
        self.states = set()
        self.outcomes = set()

    def step(self, n=1):
        self.transitions += n

    def state(self, value):
        self.states.add(hashlib.blake2b(
            repr(value).encode('utf-8', 'surrogatepass'), digest_size=8
        ).digest())

    def outcome(self, value):
        """A class of observed behaviour: guards against vacuity."""
        if len(self.outcomes) < 200:
            self.outcomes.add(str(value)[:80])


def fail(message, *args):
    raise Violation(message.format(*args) if args else message)


def expect(cond, message, *args):
    if not cond:
        raise Violation(message.format(*args) if args else message)


def same(got, want, what):
    if not (got == want and type(got) is type(want)):
        if got != want or isinstance(got, (str, bytes, bool)) != isinstance(
            want, (str, bytes, bool)
        ):
            raise Violation('%s: implementation gave %r, model says %r' % (
                what, got, want))


class Space:
    def __init__(self, name, run, quick, thorough=None, chunk=200,
                 serial=False, rule='', cleanup=None):
        self.name = name
        self.run = run
        self._quick = quick
        self._thorough = thorough or quick
        self.chunk = chunk
        self.serial = serial
        self.rule = rule
        self.cleanup = cleanup

    def cases(self, tier):
        return (self._thorough if tier == 'thorough' else self._quick)()


class Check:
    def __init__(self, pid, spaces, bounds='', assumptions=(),
                 level='model_checking', known=None):
        self.pid = pid
        #: functions telling whether a listed finding still shows
        self.known = known or {}
        self.spaces = spaces
        self.bounds = bounds
        self.assumptions = list(assumptions)
        self.level = level

    def space(self, name):
        for space in self.spaces:
            if space.name == name:
                return space
        raise KeyError(name)


def known_findings(pid):
    """The listed findings of a property, by their names"""
    found = {}
    with open(os.path.join(VERIF, 'known_findings.txt')) as f:
        for line in f:
            if line.startswith('known: property=%s id=' % pid):
                name, _, text = line.split('id=', 1)[1].partition(' ')
                found[name] = text.strip()
    return found


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(space, case, cx):
    """Returns None or a description of the violation."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT)
    try:
        space.run(case, cx)
    except Violation as e:
        return str(e)
    except CaseTimeout:
        return 'did not terminate within %ds' % CASE_TIMEOUT
    except (KeyboardInterrupt, GeneratorExit):
        raise
    except BaseException:
        return 'unexpected exception\n' + traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return None


def _work(check, tier, space_index, worker, workers):
    space = check.spaces[space_index]
    try:
        return _work_space(space, tier, worker, workers)
    finally:
        if space.cleanup is not None:
            space.cleanup()


def _work_space(space, tier, worker, workers):
    """One worker executes every workers-th chunk of the space."""
    cx = Cx()
    traces = 0
    failures = []
    sample = None
    it = iter(space.cases(tier))
    index = 0
    first = []
    spread = []
    stride = 1
    while True:
        chunk = list(itertools.islice(it, space.chunk))
        if not chunk:
            break
        if index % workers == worker:
            for case in chunk:
                error = run_case(space, case, cx)
                traces += 1
                if traces <= REVISITED // 2:
                    first.append(case)
                elif traces % stride == 0:
                    spread.append(case)
                    if len(spread) > REVISITED:
                        stride *= 2
                        spread = spread[1::2]
                if sample is None or traces == 50:
                    sample = repr(case)[:300]
                if error is not None:
                    failures.append((index, repr(case), error))
                    if len(failures) >= MAX_REPORTED:
                        return cx, traces, failures, sample, True, 0
        index += 1
    # everything above ran in this process: a case gives the same answers
    # after all of the others as it did before them
    again = spread[::-1] + first[::-1]
    if not failures:
        for case in again:
            error = run_case(space, case, Cx())
            if error is not None:
                failures.append((
                    index, repr(case),
                    AFTER % (tier, worker, workers) + error))
                break
    return cx, traces, failures, sample, False, len(again)


def _child(conn, check, tier, space_index, worker, workers):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_LIMIT))
        conn.send(('ok', _work(check, tier, space_index, worker, workers)))
    except BaseException:
        conn.send(('error', traceback.format_exc()))
    finally:
        conn.close()
        os._exit(0)


def explore(check, tier):
    start = time.time()
    ctx = multiprocessing.get_context('fork')
    workers = min(8, os.cpu_count() or 1)
    total = Cx()
    traces = 0
    capped = False
    failures = []
    per_space = {}
    samples = []
    for space_index, space in enumerate(check.spaces):
        t0 = time.time()
        n = 1 if space.serial else workers
        jobs = []
        for worker in range(n):
            here, there = ctx.Pipe(duplex=False)
            proc = ctx.Process(
                target=_child,
                args=(there, check, tier, space_index, worker, n))
            proc.start()
            there.close()
            jobs.append((proc, here))
        scx = Cx()
        straces = 0
        revisited = 0
        for proc, here in jobs:
            try:
                kind, value = here.recv()
            except EOFError:
                proc.join()
                kind, value = 'died', 'worker ended with status %r' % (
                    proc.exitcode,)
            if kind == 'ok':
                cx, count, errors, sample, stopped, again = value
                revisited += again
                scx.transitions += cx.transitions
                scx.states |= cx.states
                scx.outcomes |= cx.outcomes
                straces += count
                capped |= stopped
                for index, case, error in errors:
                    failures.append((space, index, case, error))
                if sample is not None and len(samples) < 40:
                    samples.append({'space': space.name, 'case': sample})
            else:
                failures.append((space, -1, 'None', value))
            proc.join()
        per_space[space.name] = {
            'cases': straces, 'cases_repeated_at_the_end': revisited,
            'states': len(scx.states),
            'transitions': scx.transitions,
            'distinct_outcomes': len(scx.outcomes),
            'wall_s': round(time.time() - t0, 2),
        }
        if space.rule:
            per_space[space.name]['rule'] = space.rule
        total.transitions += scx.transitions
        total.states |= {(space_index, s) for s in scx.states}
        traces += straces
        if straces == 0 and not failures:
            failures.append((space, -1, 'None', 'space is empty'))
    # one sample per space is enough
    seen = set()
    samples = [
        s for s in samples
        if not (s['space'] in seen or seen.add(s['space']))
    ]
    failures.sort(key=lambda f: (f[1], len(f[2])))
    report(check, tier, total, traces, per_space, samples, failures, capped,
           time.time() - start)
    return failures


def report(check, tier, total, traces, per_space, samples, failures, capped,
           wall):
    os.makedirs(EVIDENCE, exist_ok=True)
    seed = os.environ.get('VERIF_SEED', '1')
    evidence = {
        'property': check.pid,
        'tier': tier,
        'seed': int(seed) if seed.lstrip('-').isdigit() else 0,
        'level': check.level,
        'coverage': {
            'states': len(total.states),
            'transitions': total.transitions,
            'traces_validated_against_impl': traces,
            'exhaustive': not capped,
            'bounds': check.bounds,
            'spaces': per_space,
            'samples': samples,
        },
        'assumptions': check.assumptions,
        'wall_s': round(wall, 3),
        'violations': len(failures),
    }
    path = os.path.join(EVIDENCE, check.pid + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(evidence, f, indent=1)
    os.replace(path + '.tmp', path)
    print('%s %s: states=%d transitions=%d traces=%d wall=%.1fs' % (
        check.pid, tier, len(total.states), total.transitions, traces, wall))
    for name, cov in per_space.items():
        print('  %-28s cases=%-8d states=%-7d transitions=%-8d outcomes=%-4d'
              ' %.1fs' % (name, cov['cases'], cov['states'],
                          cov['transitions'], cov['distinct_outcomes'],
                          cov['wall_s']))
    for name, text in sorted(known_findings(check.pid).items()):
        if name in check.known and check.known[name]():
            print('KNOWN-FINDING: property=%s %s' % (check.pid, text))
    if failures:
        os.makedirs(REPLAYS, exist_ok=True)
    for number, (space, _, case, error) in enumerate(
            failures[:MAX_REPORTED]):
        rpath = os.path.join(REPLAYS, '%s-%d.json' % (check.pid, number))
        with open(rpath, 'w') as f:
            json.dump({
                'property': check.pid, 'space': space.name, 'case': case,
                'error': error,
                'replay': 'cd /verif && ./check replay ' + rpath,
            }, f, indent=1)
        print('--- %s / %s\ncase: %s\n%s' % (
            check.pid, space.name, case[:1500], error[-3000:]))
        print('VIOLATION property=%s replay=%s' % (check.pid, rpath))
    sys.stdout.flush()


def replay(path, load):
    with open(path) as f:
        data = json.load(f)
    check = load(data['property'])
    space = check.space(data['space'])
    case = ast.literal_eval(data['case'])
    error = run_case(space, case, Cx())
    match = re.match(AFTER.replace('%s', '(\\w+)').replace('%d', '(\\d+)'),
                     data['error'])
    if error is None and match:
        _, _, failures, _, _, _ = _work_space(
            space, match[1], int(match[2]), int(match[3]))
        error = failures[0][2] if failures else None
    if error is None:
        print('not reproduced: %s %s' % (data['property'], data['space']))
        return 0
    print('case: %r\n%s' % (case, error))
    print('VIOLATION property=%s replay=%s' % (data['property'], path))
    return 1


# -- enumeration helpers ----------------------------------------------------

def words(alphabet, upto, least=0):
    """All tuples over the alphabet with least..upto symbols, shortest
    first."""
    for n in range(least, upto + 1):
        yield from itertools.product(alphabet, repeat=n)


def strings(alphabet, upto, least=0):
    for word in words(alphabet, upto, least):
        yield ''.join(word)


def product(*domains):
    return itertools.product(*domains)


def caught(function, *args, **kwargs):
    """('ok', value) or ('raised', exception class name)"""
    try:
        return 'ok', function(*args, **kwargs)
    except Exception as e:
        return 'raised', type(e).__name__
