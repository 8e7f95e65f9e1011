"""A deterministic thread scheduler: one thread runs at a time, switches happen
only where the scenario says.

Importing this module (before clevercsv) makes locks created by clevercsv
simulated locks, so that a thread waiting for one gives up its turn.
"""
import _thread, sys, threading

_real_lock = _thread.allocate_lock
_real_rlock = threading.RLock
_sched = None        # the running Scheduler


class Deadlock(Exception):
    pass


class SimLock:
    def __init__(self, reentrant=False):
        self.owner, self.depth, self.reentrant = None, 0, reentrant

    def _me(self):
        return _thread.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking or timeout == 0:
                return False
            if _sched is None or me not in _sched.ids:
                raise Deadlock("lock taken outside a simulated thread")
            if timeout is not None and timeout > 0:
                return False            # simulated time: the wait times out
            _sched.block(self)
        self.owner = me
        self.depth += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if self.depth == 0:
            self.owner = None
            if _sched is not None:
                _sched.wake(self)

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


def _from_clevercsv():
    f = sys._getframe(2)
    return f is not None and str(f.f_globals.get("__name__", "")).startswith("clevercsv")


def _lock(*a, **k):
    return SimLock() if _from_clevercsv() else _real_lock(*a, **k)


def _rlock(*a, **k):
    return SimLock(True) if _from_clevercsv() else _real_rlock(*a, **k)


def install():
    threading.Lock = _lock
    threading.RLock = _rlock
    _thread.allocate_lock = _lock


install()


class Scheduler:
    """Runs functions in threads under a schedule.

    switches: list of [thread, step, next]: when `thread` reaches its step number
    `step`, `next` continues.  slice_: switch round robin every so many steps.
    """

    def __init__(self, fns, switches, first=0, slice_=0, opcodes=False, max_steps=3_000_000, sites=None):
        self.n = len(fns)
        self.fns = fns
        self.switch = {}
        for t, s, u in switches:
            self.switch.setdefault((t % self.n, s), u % self.n)
        self.first = first % self.n
        self.slice = slice_
        self.opcodes = opcodes
        self.sites = sites           # a dict: records at which steps each line was reached
        self.sems = [threading.Semaphore(0) for _ in fns]
        self.done = [False] * self.n
        self.blocked = [None] * self.n
        self.steps = [0] * self.n
        self.results = [None] * self.n
        self.ids = {}
        self.current = self.first
        self.switched = 0
        self.history = []
        self.finished = _real_lock()
        self.finished.acquire()
        self.max_steps = max_steps
        self.dead = False

    # -------------------------------------------------------------- in threads
    def trace(self, frame, event, arg):
        name = str(frame.f_globals.get("__name__", ""))
        if frame.f_code.co_name == "<module>" or not (name.startswith("clevercsv") or "__sim_preempt__" in frame.f_globals):
            return None
        if frame.f_code.co_name.startswith("_sim_"):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        me = self.ids.get(_thread.get_ident())
        if me is None:
            return None

        def local(fr, ev, a):
            if ev == "line" or ev == "opcode":
                self.step(me, fr)
            return local
        self.step(me, frame)
        return local

    def step(self, me, frame):
        self.steps[me] += 1
        n = self.steps[me]
        if n > self.max_steps:
            raise Deadlock("thread does not finish")
        if self.sites is not None:
            at = self.sites.setdefault((frame.f_code.co_name, frame.f_lineno), [])
            if len(at) < 40:
                at.append(n)
        to = self.switch.get((me, n))
        if to is None and self.slice and n % self.slice == 0:
            to = (me + 1) % self.n
        if to is not None and to != me:
            self.history.append((me, frame.f_code.co_name, frame.f_lineno, to))
            self.handover(me, to)

    def runnable(self, prefer):
        for i in range(self.n):
            j = (prefer + i) % self.n
            if not self.done[j] and self.blocked[j] is None:
                return j
        return None

    def handover(self, me, to):
        j = self.runnable(to)
        if j is None or j == me:
            return
        self.switched += 1
        self.current = j
        self.sems[j].release()
        self.sems[me].acquire()
        if self.dead:
            raise Deadlock("all threads wait for locks")

    def block(self, lock):
        me = self.ids[_thread.get_ident()]
        self.blocked[me] = lock
        j = self.runnable(me + 1)
        if j is None:
            self.dead = True
            self.blocked[me] = None
            for s in self.sems:
                s.release()
            raise Deadlock("all threads wait for locks")
        self.switched += 1
        self.current = j
        self.sems[j].release()
        self.sems[me].acquire()
        self.blocked[me] = None
        if self.dead:
            raise Deadlock("all threads wait for locks")

    def wake(self, lock):
        for i in range(self.n):
            if self.blocked[i] is lock:
                self.blocked[i] = None

    def body(self, i):
        self.ids[_thread.get_ident()] = i
        self.sems[i].acquire()
        sys.settrace(self.trace)
        try:
            self.results[i] = self.fns[i]()
        except BaseException as e:
            self.results[i] = ("died", type(e).__name__, str(e))
        sys.settrace(None)
        self.done[i] = True
        j = self.runnable(i + 1)
        if j is None:
            if all(self.done):
                self.finished.release()
            else:
                self.dead = True
                for s in self.sems:
                    s.release()
                if all(self.done):
                    self.finished.release()
        else:
            self.current = j
            self.sems[j].release()

    def run(self):
        global _sched
        _sched = self
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts:
            t.start()
        while len(self.ids) < self.n:
            pass
        self.sems[self.first].release()
        for t in ts:
            t.join()
        _sched = None
        return self.results
