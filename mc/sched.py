"""A controlled scheduler for real threads running the real code.

One thread runs at a time.  Every line of oidcrp that a controlled thread is about to
execute (every bytecode instruction with opcodes=True) is a scheduling point (seen with
sys.monitoring, so no lines of the code under test need to be known); locks are
cooperative, so that a thread that has to wait hands over.  A schedule is the order in
which the threads are started plus a map {point: thread} of preemptions; without a
preemption a thread runs until it is done or blocked.  explore() executes every schedule
with up to *bound* preemptions (iterative context bounding, exhaustive, stateless).
"""
import _thread
import dis
import functools
import os
import sys
import threading

from . import env

SRC = os.path.join(os.path.realpath(env.REPO), 'src', 'oidcrp') + os.sep
_RealLock, _RealRLock = _thread.allocate_lock, threading.RLock
_CURRENT = None


class Abandon(BaseException):
    """Unwinds the threads of an execution that can't go on."""


class _Coop:
    """Lock (reentrant or not) that knows about the scheduler."""
    reentrant = False

    def __init__(self, *_a):
        self._owner, self._count, self._name = None, 0, None

    def __deepcopy__(self, memo):
        raise TypeError("cannot pickle '%s' object" % ('_thread.RLock' if self.reentrant else '_thread.lock'))

    def __reduce__(self):
        raise TypeError("cannot pickle '%s' object" % ('_thread.RLock' if self.reentrant else '_thread.lock'))

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        while True:
            if self._owner is None or self.reentrant and self._owner == me:
                self._owner = me
                self._count += 1
                return True
            if not blocking:
                return False
            s = _CURRENT
            if s is None or me not in s.by_ident:
                raise RuntimeError('a lock is held by a thread that is gone')
            if not s.wait_for(self):
                if timeout is not None and timeout >= 0:
                    return False
                raise Abandon()

    def release(self):
        if self._owner is None or self.reentrant and self._owner != _thread.get_ident():
            raise RuntimeError('release unlocked lock')
        self._count -= 1
        if not self._count:
            self._owner = None

    def locked(self):
        return self._owner is not None

    __enter__ = acquire

    def __exit__(self, *_a):
        self.release()

    # what threading.Condition wants of an RLock
    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        r = self._count, self._owner
        self._count, self._owner = 0, None
        return r

    def _acquire_restore(self, state):
        self.acquire()
        self._count = state[0]


class CoopLock(_Coop):
    pass


class CoopRLock(_Coop):
    reentrant = True


def _ours():
    """Only locks that oidcrp makes are cooperative; others are held while nothing of oidcrp runs."""
    f = sys._getframe(2)
    while f is not None and f.f_code.co_filename.startswith('<'):
        f = f.f_back
    return f is not None and _is_src(f.f_code.co_filename)


@functools.lru_cache(None)
def _is_src(name):
    return os.path.realpath(name).startswith(SRC)


def Lock(*a):
    return CoopLock() if _ours() else _RealLock()


def RLock(*a):
    return CoopRLock() if _ours() else _RealRLock()


def install():
    threading.Lock, threading.RLock = Lock, RLock


_TOOL = 4
_watched = {}
_modules = {}


def _event(code, where):
    e = _CURRENT
    if e is not None:
        e.point(code, where)


def watch(opcodes):
    """Have every line (instruction) of oidcrp reported, and nothing else."""
    mon = sys.monitoring
    if not _watched and mon.get_tool(_TOOL) is None:
        mon.use_tool_id(_TOOL, 'mc')
        mon.register_callback(_TOOL, mon.events.LINE, _event)
        mon.register_callback(_TOOL, mon.events.INSTRUCTION, _event)
    want = mon.events.INSTRUCTION if opcodes else mon.events.LINE
    mods = [m for n, m in sys.modules.items() if n == 'oidcrp' or n.startswith('oidcrp.')]
    if _modules.get('n') != len(mods):
        _modules['n'] = len(mods)
        for m in mods:
            for c in code_objects(m):
                _watched.setdefault(id(c), [c, 0])
    if _modules.get('want') != (want, len(_watched)):
        _modules['want'] = want, len(_watched)
        for w in _watched.values():
            if w[1] != want:
                mon.set_local_events(_TOOL, w[0], want)
                w[1] = want


def code_objects(module):
    todo, seen = [], set()
    for v in list(vars(module).values()):
        if isinstance(v, type) and v.__module__ == module.__name__:
            todo += list(vars(v).values())
        else:
            todo.append(v)
    out = []
    while todo:
        v = todo.pop()
        if id(v) in seen:
            continue
        seen.add(id(v))
        for a in ('__func__', 'fget', 'fset', 'func', '__wrapped__'):
            x = getattr(v, a, None) if isinstance(v, (staticmethod, classmethod, property)) or callable(v) and not isinstance(v, type) else None
            if x is not None:
                todo.append(x)
        c = getattr(v, '__code__', None)
        for y in getattr(v, '__closure__', None) or ():
            try:
                todo.append(y.cell_contents)
            except ValueError:
                pass
        if c is not None and _is_src(c.co_filename):
            stack = [c]
            while stack:
                c = stack.pop()
                out.append(c)
                stack += [k for k in c.co_consts if isinstance(k, type(c))]
    return out


LOCAL = ('LOAD_FAST', 'STORE_FAST', 'LOAD_CONST', 'LOAD_GLOBAL', 'LOAD_DEREF', 'POP_', 'JUMP_', 'RETURN_', 'COMPARE_OP', 'IS_OP', 'BUILD_', 'COPY', 'SWAP',
         'NOP', 'RESUME', 'CACHE', 'UNARY_NOT', 'TO_BOOL', 'PUSH_', 'RERAISE', 'CHECK_EXC', 'RAISE_VARARGS', 'FORMAT_VALUE', 'MAKE_FUNCTION', 'DELETE_FAST',
         'COPY_FREE_VARS', 'MAKE_CELL', 'KW_NAMES', 'EXTENDED_ARG')
_local = {}


def local_lines(code):
    """The lines of a code object that neither read nor write anything but the thread's own variables (or that just log): they commute with
    whatever other threads do, so a preemption before such a line is the same as one before the line that follows."""
    r = _local.get(id(code))
    if r is None:
        lines, line = {}, None
        for i in dis.get_instructions(code):
            line = i.positions.lineno or line
            lines.setdefault(line, []).append(i)
        r = set()
        for n, ins in lines.items():
            first = [i for i in ins if i.opname == 'LOAD_GLOBAL']
            logs = first and first[0].argval in ('logger', 'LOGGER') and not any(i.opname.startswith('STORE') for i in ins)
            if logs or all(i.opname.startswith(LOCAL) for i in ins):
                r.add(n)
        _local[id(code)] = r
    return r


class Execution:
    def __init__(self, bodies, order, plan, opcodes=False):
        self.bodies, self.order, self.plan, self.opcodes = bodies, list(order), plan, opcodes
        self.n = len(bodies)
        self.sem = [_RealLock() for _ in bodies]
        for s in self.sem:
            s.acquire()
        self.main = _RealLock()
        self.main.acquire()
        self.done = [False] * self.n
        self.blocked = [None] * self.n
        self.results = [None] * self.n
        self.by_ident = {}
        self.points = []          # (running thread, other threads that could run, how often it has been here)
        self.times = {}
        self.others, self.waiting = None, 0       # cache; how many are blocked
        self.switches = []
        self.deadlock = False

    def enabled(self):
        return [t for t in self.order if not self.done[t] and (self.blocked[t] is None or self.blocked[t]._owner is None)]

    def run(self):
        global _CURRENT
        watch(self.opcodes)
        _CURRENT = self
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts:
            t.start()
        self.sem[self.order[0]].release()
        self.main.acquire()
        _CURRENT = None
        for t in ts:
            t.join()
        return self

    def body(self, i):
        self.sem[i].acquire()
        self.by_ident[_thread.get_ident()] = i
        try:
            r = 'ok', self.bodies[i]()
        except Abandon:
            r = 'abandoned', None
        except Exception as e:
            r = 'exception', e
        self.results[i] = r
        self.done[i] = True
        self.others = None
        nxt = self.enabled()
        if nxt:
            self.sem[nxt[0]].release()
        elif all(self.done):
            self.main.release()
        else:
            self.abandon()

    def abandon(self):
        """No thread can go on: let those that wait unwind, one at a time."""
        self.deadlock = True
        for t in range(self.n):
            if not self.done[t]:
                self.sem[t].release()
                return
        self.main.release()

    def point(self, code, where):
        if self.deadlock:
            return
        me = self.by_ident.get(_thread.get_ident())
        if me is None or self.done[me]:
            return
        others = self.others
        if others is None or self.waiting:
            others = self.others = [t for t in self.enabled() if t != me]
        at = len(self.points)
        key = (me, id(code), where)
        times = self.times[key] = self.times.get(key, 0) + 1
        if not self.opcodes and where in local_lines(code):
            others = ()
        self.points.append((me, others, times))
        to = self.plan.get(at)
        if to is not None and to in others:
            self.switches.append((at, me, to, '%s:%s:%s' % (os.path.basename(code.co_filename), code.co_name, where)))
            self.hand_over(me, to)

    def hand_over(self, me, to):
        self.others = None
        self.sem[to].release()
        self.sem[me].acquire()
        self.others = None

    def wait_for(self, lock):
        """The running thread needs a lock somebody else has; False if nobody will release it."""
        me = self.by_ident[_thread.get_ident()]
        if self.deadlock:
            return False
        self.blocked[me] = lock
        self.waiting += 1
        nxt = [t for t in self.enabled() if t != me]
        if not nxt:
            self.deadlock = True
            self.blocked[me] = None
            self.waiting -= 1
            return False
        self.hand_over(me, nxt[0])
        self.blocked[me] = None
        self.waiting -= 1
        return not self.deadlock or lock._owner is None


def schedules(make, order, bound, chunk=(0, 1), opcodes=False, times=None):
    """Yields (execution, scenario) for the schedules of a chunk: those whose first preemption is at a point that is *chunk* modulo.

    times: preempt a thread only the first that many times it comes to a line (None: always)."""
    def execute(plan):
        s = make()
        e = Execution(s.bodies, order, plan, opcodes).run()
        return e, s

    base, s = execute({})
    if chunk[0] == 0:
        yield base, s
    k, n = chunk
    if bound < 1:
        return
    at = [i for i, p in enumerate(base.points) if p[1] and (times is None or p[2] <= times)]
    for i in at[k::n]:
        for t in base.points[i][1]:
            yield from grow(execute, {i: t}, i, bound - 1, times)


def grow(execute, plan, last, left, times):
    e, s = execute(plan)
    yield e, s
    if left:
        for j in range(last + 1, len(e.points)):
            if times is None or e.points[j][2] <= times:
                for t in e.points[j][1]:
                    yield from grow(execute, {**plan, j: t}, j, left - 1, times)
