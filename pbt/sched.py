"""Generated schedules: worker "processes" run as threads, one at a time; at every point where they
touch something shared (or an environment, agent or hook of the harness) the next one to run is
taken from the generated schedule."""
import pickle
import threading
import time
from contextlib import ExitStack, contextmanager
from unittest import mock

CURRENT = threading.local()


class Stopped(BaseException):
    """Raised in workers to unwind them when a run is given up."""


class Sched:
    def __init__(self, choices, steal_s=3.0, max_points=200000, fair=None):
        self.fair = fair  # every fair-th choice is the worker that waited longest
        self.choices = list(choices) or [0]
        self.k = 0
        self.cond = threading.Condition()
        self.workers = []  # in order of start
        self.ready = []  # workers waiting for their turn
        self.turn = None
        self.running = False
        self.progress = 0
        self.steal_s = steal_s
        self.max_points = max_points
        self.stop = False
        self.switches = 0
        self.stolen = 0

    # -- called by workers
    def point(self, blocked=None):
        """Give up the turn. `blocked`: callable, true while this worker cannot go on."""
        w = getattr(CURRENT, "worker", None)
        if w is None or w.sched is not self:
            return
        with self.cond:
            if self.stop:
                raise Stopped()
            self.progress += 1
            if self.progress > self.max_points:
                self.stop = True
                self.cond.notify_all()
                raise Stopped()
            w.blocked = blocked
            self.ready.append(w)
            if self.turn is w:
                self._next()
            self._await(w)

    def _await(self, w):
        seen, t0 = self.progress, time.time()
        while self.turn is not w:
            if self.stop:
                raise Stopped()
            self.cond.wait(0.5)
            if self.progress != seen:
                seen, t0 = self.progress, time.time()
            elif time.time() - t0 > self.steal_s and not (w.blocked and w.blocked()):
                # whoever has the turn is stuck in something unknown to the schedule
                self.stolen += 1
                self.turn = w
                self.ready.remove(w)
                self.progress += 1
                break
        w.blocked = None

    def _next(self):
        can = [w for w in self.ready if not (w.blocked and w.blocked())]
        if not can:
            self.turn = None
            self.cond.notify_all()
            return
        longest = can[0]
        can.sort(key=lambda w: w.no)
        c = self.choices[self.k % len(self.choices)]
        self.k += 1
        nxt = longest if self.fair and self.k % self.fair == 0 else can[c % len(can)]
        if nxt is not self.turn:
            self.switches += 1
        self.turn = nxt
        self.ready.remove(nxt)
        self.cond.notify_all()

    def kick(self):
        with self.cond:
            self.progress += 1
            if self.turn is None:
                self._next()

    def begin(self, w):
        CURRENT.worker = w
        with self.cond:
            self.ready.append(w)
            self.cond.notify_all()
            t0 = time.time()
            while not self.running and time.time() - t0 < 5:
                self.cond.wait(0.05)
            self.running = True
            if self.turn is None:
                self._next()
            self._await(w)

    def end(self, w):
        with self.cond:
            self.progress += 1
            if w in self.ready:
                self.ready.remove(w)
            if self.turn is w or self.turn is None:
                self.turn = None
                self._next()

    # -- called by the main thread
    def go(self):
        with self.cond:
            t0 = time.time()
            while not self.running and len(self.ready) < sum(
                    w.thread.is_alive() for w in self.workers) and time.time() - t0 < 5:
                self.cond.wait(0.01)
            self.running = True
            if self.turn is None:
                self._next()
            self.cond.notify_all()

    def abort(self):
        with self.cond:
            self.stop = True
            self.cond.notify_all()


def fakes(s, errors):
    """Stand-ins for multiprocessing's Process, Value, Event and locks under the schedule."""

    class Lock:
        def __init__(self, *a, **k):
            self.owner, self.n = None, 0

        def acquire(self, block=True, timeout=None):
            me = threading.get_ident()
            s.point()
            while self.owner not in (None, me):
                if not block:
                    return False
                if getattr(CURRENT, "worker", None) is None:
                    time.sleep(0.001)
                else:
                    s.point(blocked=lambda: self.owner is not None)
            self.owner = me
            self.n += 1
            return True

        def release(self):
            self.n -= 1
            if self.n == 0:
                self.owner = None
                s.kick()

        def __enter__(self):
            self.acquire()
            return True

        def __exit__(self, *a):
            self.release()

    class Value:
        def __init__(self, typecode, *args, lock=True):
            import ctypes
            import multiprocessing.sharedctypes as sc
            t = sc.typecode_to_type.get(typecode, typecode) if isinstance(typecode, str) else typecode
            self._c = t(*args)
            self._lock = Lock()

        @property
        def value(self):
            s.point()
            return self._c.value

        @value.setter
        def value(self, v):
            s.point()
            self._c.value = v

        def get_lock(self):
            return self._lock

        def get_obj(self):
            return self._c

        def acquire(self, *a):
            return self._lock.acquire(*a)

        def release(self):
            self._lock.release()

        def __enter__(self):
            return self._lock.__enter__()

        def __exit__(self, *a):
            self._lock.__exit__(*a)

    class Event:
        def __init__(self, *a, **k):
            self._e = threading.Event()

        def is_set(self):
            s.point()
            return self._e.is_set()

        def set(self):
            s.point()
            self._e.set()

        def clear(self):
            self._e.clear()

        def wait(self, timeout=None):
            s.point()
            return self._e.is_set()

    class Process:
        def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
            self.target, self.args, self.kwargs = target, args, kwargs or {}
            self.exitcode = None
            self.name = name
            self.pid = -1
            self.no = -1
            self.sched = s
            self.blocked = None
            self.thread = threading.Thread(target=self._run, daemon=True)

        def _run(self):
            code = 0
            try:
                s.begin(self)
                self.target(*self.args, **self.kwargs)
            except Stopped:
                code = 99
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            except BaseException as e:  # noqa: B902
                errors.append((self.no, e))
                code = 1
            self.exitcode = code
            s.end(self)

        def start(self):
            self.no = len(s.workers)
            s.workers.append(self)
            self.thread.start()

        def join(self, timeout=None):
            s.go()
            self.thread.join(60 if timeout is None else timeout)
            if self.thread.is_alive() and timeout is None:
                s.abort()
                raise TimeoutError("worker %d does not come to an end" % self.no)

        def is_alive(self):
            s.go()
            return self.thread.is_alive()

        def terminate(self):
            s.abort()

        kill = close = terminate

    class End:
        """One end of a pipe."""

        def __init__(self):
            self.box, self.closed, self.peer = [], False, None

        def send(self, obj):
            s.point()
            if self.closed or self.peer.closed:
                raise BrokenPipeError("the other end is closed")
            self.peer.box.append(pickle.dumps(obj))
            s.kick()

        def poll(self, timeout=0.0):
            s.point()
            if not self.box and self.peer.closed:
                raise EOFError
            return bool(self.box)

        def recv(self):
            s.point()
            while not self.box:
                if self.peer.closed:
                    raise EOFError
                if getattr(CURRENT, "worker", None) is None:
                    time.sleep(0.001)
                else:
                    s.point(blocked=lambda: not self.box and not self.peer.closed)
            return pickle.loads(self.box.pop(0))

        def close(self):
            self.closed = True
            s.kick()

    def Pipe(duplex=True):
        a, b = End(), End()
        a.peer, b.peer = b, a
        return a, b

    return dict(Process=Process, Value=Value, Event=Event, Lock=Lock, RLock=Lock, Pipe=Pipe)


@contextmanager
def controlled(choices, errors, **kw):
    """Everything that is started inside runs under the schedule."""
    import multiprocessing
    import os

    import torch.multiprocessing as tmp

    s = Sched(choices, **kw)
    s.killed = []

    def kill(*a):
        s.killed.append(a)

    with ExitStack() as st:
        for k, v in fakes(s, errors).items():
            st.enter_context(mock.patch.object(multiprocessing, k, v))
            st.enter_context(mock.patch.object(tmp, k, v))
        st.enter_context(mock.patch.object(os, "killpg", kill))
        st.enter_context(mock.patch.object(os, "kill", kill))
        try:
            yield s
        finally:
            s.abort()
            for w in s.workers:
                w.thread.join(5)
