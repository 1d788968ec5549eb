"""Deterministic scheduler for code written against `multiprocessing`.

The processes of the code under test run as threads of which exactly one runs
at a time; at every access to a shared object (queue, value, lock, sleep) the
running thread gives control back and a policy decides who continues.  A run
is therefore determined by the policy, and "hangs" can be observed: either
nobody can continue, or everybody was scheduled fairly for long without any
progress.
"""
import contextlib
import multiprocessing
import queue as std_queue
import threading
import time

_real_sleep = time.sleep
_REAL = {n: getattr(multiprocessing, n) for n in (
    'Process', 'Value', 'Lock', 'RLock', 'Manager', 'Queue', 'Event',
    'Condition', 'Semaphore', 'BoundedSemaphore', 'JoinableQueue',
    'SimpleQueue', 'Array', 'RawValue', 'Barrier', 'get_context')
    if hasattr(multiprocessing, n)}


class Abort(BaseException):
    """Ends the threads of a run."""


class Hang(BaseException):
    """Raised in the consumer when the pipeline cannot make progress."""


class Participant:
    def __init__(self, name):
        self.name = name
        self.go = threading.Semaphore(0)
        self.done = False
        self.pred = None       # None: runnable
        self.timed = False     # may continue although pred is false
        self.error = None
        self.last_run = 0


_current = threading.local()


class Sched:
    def __init__(self, policy, max_steps=200000, stall=4000, fair=2500):
        self.policy = policy
        self.parts = []
        self.events = []
        self.steps = 0
        self.last_event_step = 0
        self.max_steps = max_steps
        self.stall = stall
        self.fair = fair
        self.aborted = False
        self.hang = None
        self.choices = []
        self.rr = 0

    # -- recording ---------------------------------------------------------
    def event(self, **kw):
        self.events.append(kw)
        self.last_event_step = self.steps

    # -- participants --------------------------------------------------------
    def adopt(self, name):
        """Make the calling thread a participant (the consumer)."""
        p = Participant(name)
        self.parts.append(p)
        _current.part = p
        _current.sched = self
        return p

    def spawn(self, name, fn):
        p = Participant(name)
        self.parts.append(p)

        def body():
            _current.part = p
            _current.sched = self
            p.go.acquire()
            try:
                if not self.aborted:
                    fn()
            except Abort:
                pass
            except Exception as e:     # a process dies
                p.error = e
                self.event(op='dead', who=name, error=repr(e)[:300])
            finally:
                p.done = True
                if not self.aborted:
                    self._switch(None)
        t = threading.Thread(target=body, daemon=True)
        p.thread = t
        t.start()
        return p

    # -- scheduling ----------------------------------------------------------
    def _eligible(self):
        res = []
        for p in self.parts:
            if p.done:
                continue
            if p.pred is None or p.pred():
                res.append(p)
            elif p.timed:
                res.append(p)
        return res

    def _switch(self, me):
        """Choose who continues; called by the running thread."""
        el = self._eligible()
        stalled = self.steps - self.last_event_step
        nxt = None
        if el and stalled < self.stall + self.fair and \
                self.steps < self.max_steps:
            if stalled >= self.stall:       # fair from here on
                nxt = min(el, key=lambda p: p.last_run)
            else:
                nxt = self.policy.choose(self, el)
        self.steps += 1
        if nxt is None:
            self.hang = 'deadlock' if not el else 'no progress'
            cons = self.parts[0]
            self.abort_others()
            if me is cons:
                raise Hang()
            cons.go.release()
            if me is not None:
                me.go.acquire()
                raise Abort()
            return
        nxt.last_run = self.steps
        if nxt is me:
            return
        nxt.go.release()
        if me is None:
            return
        me.go.acquire()
        if me is self.parts[0]:
            if self.hang:
                raise Hang()
        elif self.aborted:
            raise Abort()

    def point(self, pred=None, timed=False):
        """Give others a chance; returns when `pred` holds (or, if timed,
        maybe earlier).  Returns the truth of pred."""
        me = getattr(_current, 'part', None)
        if me is None or getattr(_current, 'sched', None) is not self:
            return pred is None or pred()
        if self.aborted:
            if me is self.parts[0]:
                return pred is None or pred()
            raise Abort()
        me.pred, me.timed = pred, timed
        try:
            self._switch(me)
        finally:
            me.pred, me.timed = None, False
        return pred is None or pred()

    def abort_others(self):
        self.aborted = True

    def shutdown(self):
        self.aborted = True
        for p in self.parts[1:]:
            p.go.release()
        for p in self.parts[1:]:
            p.thread.join(2.0)


# --------------------------------------------------------------------------
# stand-ins for multiprocessing objects
# --------------------------------------------------------------------------
class FQueue:
    def __init__(self, sched, maxsize=0):
        self.s = sched
        self.maxsize = maxsize or 0
        self.items = []

    def _has_room(self):
        return self.maxsize <= 0 or len(self.items) < self.maxsize

    def put(self, item, block=True, timeout=None):
        if not block:
            self.s.point()
            ok = self._has_room()
        else:
            ok = self.s.point(self._has_room, timed=timeout is not None)
        if not ok:
            raise std_queue.Full()
        self.items.append(item)

    def put_nowait(self, item):
        return self.put(item, block=False)

    def get(self, block=True, timeout=None):
        if not block:
            self.s.point()
            ok = bool(self.items)
        else:
            ok = self.s.point(lambda: bool(self.items),
                              timed=timeout is not None)
        if not ok:
            raise std_queue.Empty()
        return self.items.pop(0)

    def get_nowait(self):
        return self.get(block=False)

    def empty(self):
        self.s.point()
        return not self.items

    def full(self):
        self.s.point()
        return not self._has_room()

    def qsize(self):
        self.s.point()
        return len(self.items)

    def close(self):
        pass

    def join_thread(self):
        pass

    def cancel_join_thread(self):
        pass

    def task_done(self):
        pass


class FLock:
    def __init__(self, sched, recursive=False):
        self.s = sched
        self.owner = None
        self.depth = 0
        self.recursive = recursive

    def _free(self):
        return self.owner is None or (
            self.recursive and self.owner is getattr(_current, 'part', self))

    def acquire(self, block=True, timeout=None):
        me = getattr(_current, 'part', None)
        if self.recursive and self.owner is me and me is not None:
            self.depth += 1
            return True
        if not block:
            self.s.point()
            ok = self.owner is None
        else:
            ok = self.s.point(lambda: self.owner is None,
                              timed=timeout is not None)
        if ok:
            self.owner = me if me is not None else self
            self.depth = 1
        return ok

    def release(self):
        self.depth -= 1
        if self.depth <= 0:
            self.owner = None
        self.s.point()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        if self.s.aborted:
            self.owner = None
            return False
        self.release()
        return False


class FValue:
    def __init__(self, sched, typecode='i', value=0, lock=True):
        self.s = sched
        self._v = value
        self._lock = FLock(sched, True)
        self._b = typecode == 'b'

    @property
    def value(self):
        self.s.point()
        return self._v

    @value.setter
    def value(self, v):
        self.s.point()
        self._v = int(v) if isinstance(v, bool) else v

    def get(self):
        return self.value

    def set(self, v):
        self.value = v

    def get_lock(self):
        return self._lock

    def acquire(self, *a, **k):
        return self._lock.acquire(*a, **k)

    def release(self):
        return self._lock.release()


class FEvent:
    def __init__(self, sched):
        self.s = sched
        self.flag = False

    def is_set(self):
        self.s.point()
        return self.flag

    def set(self):
        self.s.point()
        self.flag = True

    def clear(self):
        self.s.point()
        self.flag = False

    def wait(self, timeout=None):
        return self.s.point(lambda: self.flag, timed=timeout is not None)


class FSemaphore:
    def __init__(self, sched, value=1):
        self.s = sched
        self.n = value

    def acquire(self, block=True, timeout=None):
        if not block:
            self.s.point()
            ok = self.n > 0
        else:
            ok = self.s.point(lambda: self.n > 0, timed=timeout is not None)
        if ok:
            self.n -= 1
        return ok

    def release(self):
        self.n += 1
        self.s.point()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.n += 1
        return False


class FCondition:
    def __init__(self, sched, lock=None):
        self.s = sched
        self.lock = lock or FLock(sched, True)
        self.gen = 0
        self.acquire = self.lock.acquire
        self.release = self.lock.release

    def __enter__(self):
        self.lock.acquire()
        return self

    def __exit__(self, *a):
        return self.lock.__exit__(*a)

    def wait(self, timeout=None):
        g = self.gen
        self.lock.release()
        ok = self.s.point(lambda: self.gen != g, timed=timeout is not None)
        self.lock.acquire()
        return ok

    def wait_for(self, predicate, timeout=None):
        while not predicate():
            if not self.wait(timeout) and timeout is not None:
                return predicate()
        return True

    def notify(self, n=1):
        self.gen += 1

    notify_all = notify


class FProcess:
    def __init__(self, sched, group=None, target=None, name=None, args=(),
                 kwargs=None, daemon=None):
        self.s = sched
        self.target, self.args, self.kwargs = target, args, kwargs or {}
        self.daemon = daemon
        self.name = name or 'proc%d' % len(sched.parts)
        self.part = None
        self.pid = None
        self.exitcode = None

    def start(self):
        self.part = self.s.spawn(
            self.name, lambda: self.target(*self.args, **self.kwargs))
        self.pid = 100000 + len(self.s.parts)
        self.s.point()

    def is_alive(self):
        return self.part is not None and not self.part.done

    def terminate(self):
        pass

    kill = terminate

    def join(self, timeout=None):
        if self.part is not None and not self.s.aborted:
            self.s.point(lambda: self.part.done, timed=timeout is not None)

    def close(self):
        pass


class FManager:
    def __init__(self, sched):
        self.s = sched

    def Queue(self, maxsize=0):
        return FQueue(self.s, maxsize)

    JoinableQueue = Queue

    def Value(self, typecode='i', value=0):
        return FValue(self.s, typecode, value)

    def Lock(self):
        return FLock(self.s)

    def RLock(self):
        return FLock(self.s, True)

    def Event(self):
        return FEvent(self.s)

    def Semaphore(self, value=1):
        return FSemaphore(self.s, value)

    def Condition(self, lock=None):
        return FCondition(self.s, lock)

    def list(self, *a):
        return list(*a)

    def dict(self, *a, **k):
        return dict(*a, **k)

    def shutdown(self):
        pass

    def start(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


@contextlib.contextmanager
def controlled(sched, *modules):
    """Replace multiprocessing and time.sleep while a run is executed."""
    s = sched
    fakes = {
        'Process': lambda *a, **k: FProcess(s, *a, **k),
        'Value': lambda t='i', v=0, lock=True: FValue(s, t, v),
        'RawValue': lambda t='i', v=0: FValue(s, t, v),
        'Lock': lambda: FLock(s),
        'RLock': lambda: FLock(s, True),
        'Manager': lambda: FManager(s),
        'Queue': lambda maxsize=0: FQueue(s, maxsize),
        'JoinableQueue': lambda maxsize=0: FQueue(s, maxsize),
        'SimpleQueue': lambda: FQueue(s, 0),
        'Event': lambda: FEvent(s),
        'Condition': lambda lock=None: FCondition(s, lock),
        'Semaphore': lambda value=1: FSemaphore(s, value),
        'BoundedSemaphore': lambda value=1: FSemaphore(s, value),
        'get_context': lambda *a, **k: multiprocessing,
    }

    def sleep(t):
        if getattr(_current, 'sched', None) is s:
            s.point(lambda: False, timed=True)
        else:
            _real_sleep(t)

    saved = []
    for n, fake in fakes.items():
        if n in _REAL:
            setattr(multiprocessing, n, fake)
    for mod in modules:
        for k, v in list(vars(mod).items()):
            for n, real in _REAL.items():
                if n in fakes and (v is real or v == real) and callable(v):
                    saved.append((mod, k, v))
                    setattr(mod, k, fakes[n])
            if v is _real_sleep:
                saved.append((mod, k, v))
                setattr(mod, k, sleep)
    time.sleep = sleep
    try:
        yield
    finally:
        time.sleep = _real_sleep
        for n, real in _REAL.items():
            setattr(multiprocessing, n, real)
        for mod, k, v in saved:
            setattr(mod, k, v)
        s.shutdown()
        _current.part = None
        _current.sched = None


# --------------------------------------------------------------------------
# policies
# --------------------------------------------------------------------------
class RandomPolicy:
    """Uniform random choice, sticky with probability `stick`."""

    def __init__(self, rng, stick=0.0):
        self.rng, self.stick = rng, stick
        self.last = None

    def choose(self, s, el):
        if self.last in el and self.rng.random() < self.stick:
            return self.last
        self.last = self.rng.choice(el)
        return self.last


class PriorityPolicy:
    """Random fixed priorities with a few random changes (PCT)."""

    def __init__(self, rng, changes=3, horizon=300):
        self.rng = rng
        self.prio = {}
        self.changes = set(rng.randrange(horizon) for _ in range(changes))
        self.n = 0

    def choose(self, s, el):
        self.n += 1
        for p in el:
            if p.name not in self.prio:
                self.prio[p.name] = self.rng.random()
        best = max(el, key=lambda p: self.prio[p.name])
        if self.n in self.changes:
            self.prio[best.name] = -self.rng.random()
        # a process that only polls must not starve the others for ever
        if self.n % 50 == 0:
            return self.rng.choice(el)
        return best


class GuidedPolicy:
    """Follows a list of process names as far as possible."""

    def __init__(self, names, rng):
        self.names = list(names)
        self.i = 0
        self.rng = rng

    def choose(self, s, el):
        by = {p.name: p for p in el}
        while self.i < len(self.names):
            n = self.names[self.i]
            self.i += 1
            if n in by:
                return by[n]
        return self.rng.choice(el)


class SlowPolicy:
    """One participant runs only if nobody else can (a slow process)."""

    def __init__(self, rng, slow, until=400):
        self.rng, self.slow, self.until = rng, slow, until
        self.n = 0

    def choose(self, s, el):
        self.n += 1
        others = [p for p in el if p.name not in self.slow]
        if others and self.n < self.until:
            # polling processes count as runnable: let the slow one in rarely
            ready = [p for p in others if p.pred is None or p.pred()]
            if ready:
                return self.rng.choice(ready)
            if self.rng.random() < 0.9:
                return self.rng.choice(others)
        return self.rng.choice(el)
