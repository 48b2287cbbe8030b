"""A controlled scheduler for real threads.

Threads run one at a time.  Before each operation on something that could be
shared, a thread asks the scheduler whether it may go on, so that a *plan*
decides the whole interleaving.  Operations are counted on the bytecode of the
package under test: everything that is not purely local to a frame (attribute
and item access, calls, iteration, globals, cells) is a scheduling point.

Locks that the package creates are replaced by ones which hand the turn to
another thread instead of blocking (see `install`).  A thread that waits for
anything else which another, suspended, thread holds is noticed because nothing
moves any more; the scheduler then lets the others continue.  Only if nobody
can move is that a deadlock.
"""
import _thread
import dis
import os
import sys
import threading

LOCAL = {
    'CACHE', 'RESUME', 'NOP', 'LOAD_FAST', 'LOAD_FAST_CHECK',
    'LOAD_FAST_AND_CLEAR', 'STORE_FAST', 'DELETE_FAST', 'LOAD_CONST',
    'POP_TOP', 'PUSH_NULL', 'SWAP', 'COPY', 'JUMP_FORWARD', 'JUMP_BACKWARD',
    'JUMP_BACKWARD_NO_INTERRUPT', 'POP_JUMP_IF_FALSE', 'POP_JUMP_IF_TRUE',
    'POP_JUMP_IF_NONE', 'POP_JUMP_IF_NOT_NONE', 'RETURN_CONST',
    'RETURN_VALUE', 'BUILD_TUPLE', 'BUILD_LIST', 'BUILD_MAP', 'BUILD_SET',
    'BUILD_STRING', 'KW_NAMES', 'MAKE_FUNCTION', 'END_FOR', 'IS_OP',
    'PUSH_EXC_INFO', 'POP_EXCEPT', 'CHECK_EXC_MATCH', 'RERAISE',
    'MAKE_CELL', 'COPY_FREE_VARS', 'RETURN_GENERATOR', 'EXTENDED_ARG',
    'FORMAT_VALUE', 'LOAD_CLOSURE', 'BUILD_CONST_KEY_MAP', 'BUILD_SLICE',
    'LIST_TO_TUPLE', 'UNARY_NOT', 'LOAD_ASSERTION_ERROR', 'SEND',
    'LIST_APPEND', 'SET_ADD', 'MAP_ADD', 'INTERPRETER_EXIT',
}


class Deadlock(Exception):
    pass


_current = threading.local()


class _CoopLock:
    """A lock that does not block a thread which is being scheduled."""

    def __init__(self, inner):
        self._inner = inner

    def acquire(self, blocking=True, timeout=-1):
        scheduler = getattr(_current, 'scheduler', None)
        if scheduler is None:
            return self._inner.acquire(blocking, timeout)
        while not self._inner.acquire(False):
            if not blocking or timeout >= 0:
                return False
            scheduler.blocked(_current.number)
        return True

    def release(self):
        self._inner.release()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *args):
        self.release()

    def __getattr__(self, name):
        return getattr(self._inner, name)


def install():
    """To be called before the package is imported"""
    lock, rlock = _thread.allocate_lock, threading.RLock
    threading.Lock = lambda: _CoopLock(lock())
    threading.RLock = lambda: _CoopLock(rlock())


class _Signal:
    def __init__(self):
        self._lock = _thread.allocate_lock()
        self._lock.acquire()

    def set(self):
        try:
            self._lock.release()
        except RuntimeError:
            pass

    def wait(self, timeout=-1):
        return self._lock.acquire(True, timeout)


class Scheduler:
    """``plan`` is a list of (thread, point): let the thread run until it has
    passed so many points.  Afterwards the threads run to their end."""

    grain = 'opcode'

    def __init__(self, bodies, plan, package, grain='opcode'):
        self.bodies = bodies
        self.plan = list(plan)
        self.package = package
        self.grain = grain
        n = len(bodies)
        self.steps = [0] * n
        self.limit = [None] * n
        self.finished = [False] * n
        self.results = [None] * n
        self.wake = [_Signal() for _ in range(n)]
        self.done = _Signal()
        self.waiting = 0
        self.turn = None
        self.moves = 0
        self.switches = 0

    # -- choosing ------------------------------------------------------------

    def advance(self, current):
        """Whose turn is it after ``current`` stopped?"""
        while self.plan:
            thread, point = self.plan.pop(0)
            if self.finished[thread]:
                continue
            if point is not None and self.steps[thread] >= point:
                continue
            self.limit[thread] = point
            return thread
        if current is not None and not self.finished[current]:
            return current
        for thread, finished in enumerate(self.finished):
            if not finished:
                return thread
        return None

    def give(self, thread):
        self.turn = thread
        if thread is None:
            self.done.set()
        else:
            self.wake[thread].set()

    def switch(self, current):
        self.limit[current] = None
        following = self.advance(current)
        if following is current:
            return
        self.switches += 1
        self.give(following)
        if not self.finished[current]:
            self.wait(current)

    def wait(self, thread):
        while self.turn != thread:
            self.wake[thread].wait()

    def point(self, thread):
        if self.turn != thread:
            self.wait(thread)
        self.moves += 1
        self.waiting = 0
        self.steps[thread] += 1
        if self.steps[thread] == self.limit[thread]:
            self.switch(thread)

    def blocked(self, thread):
        """The thread can't go on until another one has moved."""
        if self.turn != thread:
            self.wait(thread)
        others = [n for n, f in enumerate(self.finished)
                  if not f and n != thread]
        self.waiting += 1
        if self.waiting > 2 * len(self.bodies) or not others:
            raise Deadlock()
        self.limit[thread] = None
        self.give(min(others, key=lambda n: (n < thread, n)))
        self.wait(thread)

    # -- running -------------------------------------------------------------

    def run(self):
        warm_up()
        for n in range(len(self.bodies)):
            _thread.start_new_thread(self.body, (n,))
        self.give(self.advance(None))
        stuck = 0
        moves = -1
        while not self.done.wait(0.1):
            if self.moves != moves:
                moves = self.moves
                stuck = 0
                continue
            stuck += 1
            if stuck > 100:
                raise Deadlock()
            # the current thread waits for something: try the others
            others = [n for n, f in enumerate(self.finished) if not f]
            if others:
                here = others.index(self.turn) if self.turn in others else 0
                self.give(others[(here + 1) % len(others)])
        return self.results

    def body(self, number):
        self.wait(number)
        _current.scheduler = self
        _current.number = number
        sys.settrace(self.tracer(number))
        try:
            result = 'ok', self.bodies[number]()
        except Exception as e:
            result = 'raised', type(e).__name__, str(e)[:300]
        finally:
            sys.settrace(None)
        self.results[number] = result
        self.wait(number)
        self.finished[number] = True
        self.give(self.advance(number))

    def tracer(self, number):
        package = self.package
        point = self.point

        def opcodes(frame, event, arg):
            if event == 'opcode':
                if frame.f_lasti in shared_offsets(frame.f_code):
                    point(number)
            return opcodes

        def lines(frame, event, arg):
            if event == 'line':
                point(number)
            return lines

        def calls(frame, event, arg):
            if not frame.f_code.co_filename.startswith(package):
                return None
            if self.grain == 'opcode':
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
                return opcodes
            point(number)
            if self.grain == 'line':
                return lines
            return None
        return calls


_warm = []


def warm_up():
    """CPython reports no bytecodes to the first frame that asks for it."""
    if _warm:
        return
    _warm.append(True)
    for _ in range(2):
        Scheduler([lambda: _probe(1)], [], os.path.dirname(
            os.path.abspath(__file__)) + os.sep).run()


def _probe(value):
    return str(value).strip()


_shared = {}


def shared_offsets(code):
    offsets = _shared.get(code)
    if offsets is None:
        offsets = frozenset(
            i.offset for i in dis.get_instructions(code)
            if i.opname not in LOCAL)
        _shared[code] = offsets
    return offsets


def package_dir(module):
    return os.path.dirname(os.path.abspath(module.__file__)) + os.sep


def points(body, package, grain):
    """How many scheduling points the body passes on its own"""
    scheduler = Scheduler([body], [], package, grain)
    scheduler.run()
    return scheduler.steps[0]
