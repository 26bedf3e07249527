"""Simulated worker pools.

multiprocessing pools and concurrent.futures executors are replaced by pools whose every decision is made by a seeded
scheduler: how many workers there are, which idle worker takes the next task, when a worker's result is delivered, where
tasks fail, whether the pool can start, and where the waiting caller is interrupted.  Process workers are real forked
processes (own memory, pickled arguments and results) driven in lock step, so that what a worker leaves behind in its own memory
is felt by the next task it runs and by nothing else.  Thread workers share the caller's memory."""
import multiprocessing
import os
import pickle
import random
import signal
import struct
import sys
import types

from .core import _quiet, _read_exact, _write_all
from .crash import exc_type


class Sched:
    """Decisions of one simulated run."""

    cur = None

    def __init__(self, seed, workers=4, lag=0.5):
        self.rng = random.Random(seed)
        self.workers, self.lag = workers, lag
        self.arm(None)
        self.live = []
        self.trace = []
        self.tasks = self.pools = self.overtakes = 0

    def arm(self, fault):
        """fault: None or {"kind": "task"|"late"|"result"|"start"|"wait", "at": 0..1 or index, "exc": name}; it strikes once."""
        self.fault, self.fired = fault, None
        self.seen_tasks = self.seen_waits = 0

    def cleanup(self):
        for w in self.live:
            w.kill()
        self.live = []


def sched():
    if Sched.cur is None:
        Sched.cur = Sched(0, 2)
    return Sched.cur


class PointFault:
    """Within one task: the analysis of the k-th point fails in the solver ("point:<exception>:<k>")."""

    def __init__(self, kind):
        self.exc, self.k = (kind.split(":")[1], int(kind.split(":")[2])) if kind.startswith("point") else (None, 0)
        self.n, self.fired = 0, False

    def __enter__(self):
        if self.exc:
            import openmdao.api as om

            self.om, self.orig = om, om.Problem.run_model

            def run_model(prob, *a, **kw):
                self.n += 1
                if self.n == self.k + 1:
                    self.fired = True
                    raise exc_type(self.exc)("injected fault in the flow solver")
                return self.orig(prob, *a, **kw)
            om.Problem.run_model = run_model
        return self

    def __exit__(self, *a):
        if self.exc:
            self.om.Problem.run_model = self.orig


def do_task(kind, fn, args, kw):
    """(succeeded, result or exception, fault struck)"""
    pf = PointFault(kind)
    try:
        if kind == "task":
            raise exc_type("Injected")("injected fault in a worker")
        with pf:
            res = fn(*args, **kw)
        if kind == "late":
            raise exc_type("Injected")("injected fault in a worker")
        return True, res, pf.fired
    except Exception as e:
        return False, e, pf.fired


class Remote:
    """A forked worker that runs one task at a time when told to."""

    def __init__(self, initializer, initargs):
        a, b = os.pipe()
        c, d = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                sys.settrace(None)  # line faults strike the calling process only
                os.close(b)
                os.close(c)
                for w in sched().live:
                    w.close()
                _quiet()
                if initializer:
                    initializer(*initargs)
                while True:
                    n = struct.unpack("<Q", _read_exact(a, 8))[0]
                    kind, data = pickle.loads(_read_exact(a, n))
                    try:
                        fn, args, kw = pickle.loads(data)
                        res = do_task(kind, fn, args, kw)
                    except Exception as e:
                        res = (False, e, False)
                    try:
                        out = pickle.dumps(res)
                    except Exception as e:
                        out = pickle.dumps((False, multiprocessing.pool.MaybeEncodingError(e, res[1]), res[2]))
                    _write_all(d, struct.pack("<Q", len(out)) + out)
            except BaseException:
                pass
            os._exit(0)
        os.close(a)
        os.close(d)
        self.w, self.r = b, c
        sched().live.append(self)

    def run(self, kind, data):
        msg = pickle.dumps((kind, data))
        _write_all(self.w, struct.pack("<Q", len(msg)) + msg)
        try:
            n = struct.unpack("<Q", _read_exact(self.r, 8))[0]
            return pickle.loads(_read_exact(self.r, n))
        except Exception as e:
            return (False, e, False)

    def close(self):
        for fd in (self.w, self.r):
            try:
                os.close(fd)
            except OSError:
                pass

    def kill(self):
        if self.pid:
            try:
                os.kill(self.pid, signal.SIGKILL)
                os.waitpid(self.pid, 0)
            except (ProcessLookupError, ChildProcessError):
                pass
            self.close()
            self.pid = 0


class Local:
    """A thread worker: shares the caller's memory, runs one task at a time when told to."""

    def __init__(self, initializer, initargs):
        if initializer:
            initializer(*initargs)

    def run(self, kind, data):
        return do_task(kind, *data)

    def kill(self):
        pass


class Task:
    def __init__(self, fn, args, kw, done):
        self.fn, self.args, self.kw, self.done = fn, args, kw, done


class Engine:
    remote = True

    def start(self, n, initializer=None, initargs=(), maxtasks=None):
        S = sched()
        S.pools += 1
        if S.fault and S.fault["kind"] == "start" and S.fired is None:
            S.fired = "pool start"
            raise OSError(11, "Resource temporarily unavailable (injected)")
        self.n = n or S.workers
        self.mk = lambda: (Remote if self.remote else Local)(initializer, initargs)
        self.ws = [self.mk() for _ in range(self.n)]
        self.ran = [0] * self.n
        self.maxtasks = maxtasks
        self.queue, self.busy, self.closed = [], {}, False
        self.order = []

    def put(self, task):
        if self.closed:
            raise ValueError("Pool not running")
        self.queue.append(task)

    def pump(self):
        """One scheduler step; False if there is nothing to do."""
        S = sched()
        S.seen_waits += 1
        f = S.fault
        if f and f["kind"] == "wait" and S.fired is None and S.seen_waits > f["at"]:
            S.fired = "waiting for the workers"
            raise exc_type(f["exc"])("injected fault while waiting for the workers")
        idle = [i for i in range(self.n) if i not in self.busy]
        if self.queue and idle and (not self.busy or S.rng.random() >= S.lag):
            i = S.rng.choice(idle)
            t = self.queue.pop(0)
            kind = "ok"
            if f and S.fired is None and S.seen_tasks >= f["at"]:
                if f["kind"] in ("task", "late"):
                    kind = f["kind"]
                    S.fired = "task %d" % S.seen_tasks
                elif f["kind"] == "point":
                    kind = "point:%s:%d" % (f["exc"], f["k"])
            S.seen_tasks += 1
            S.tasks += 1
            try:
                data = pickle.dumps((t.fn, t.args, t.kw)) if self.remote else (t.fn, t.args, t.kw)
            except Exception as e:
                self.busy[i] = (t, (False, e), S.tasks)
            else:
                if self.maxtasks and self.ran[i] >= self.maxtasks:
                    self.ws[i].kill()
                    self.ws[i], self.ran[i] = self.mk(), 0
                self.ran[i] += 1
                good, res, struck = self.ws[i].run(kind, data)
                if struck:
                    S.fired = "analysis in task %d" % (S.seen_tasks - 1)
                self.busy[i] = (t, (good, res), S.tasks)
            S.trace.append("t%d>w%d" % (S.tasks, i))
            return True
        if self.busy:
            i = S.rng.choice(sorted(self.busy))
            t, res, k = self.busy.pop(i)
            if any(b[2] < k for b in self.busy.values()):
                S.overtakes += 1
            S.trace.append("t%d<w%d" % (k, i))
            t.done(*res)
            return True
        return False

    def kill_all(self):
        self.closed = True
        self.queue, self.busy = [], {}
        for w in self.ws:
            w.kill()
            if w in sched().live:
                sched().live.remove(w)


def _mapstar(fn, chunk):
    return [fn(x) for x in chunk]


def _starmapstar(fn, chunk):
    return [fn(*x) for x in chunk]


class Result:
    def __init__(self, eng, callback=None, error_callback=None):
        self.eng, self.cb, self.ecb, self.state = eng, callback, error_callback, None

    def _set(self, ok, val):
        self.state = (ok, val)
        if ok and self.cb:
            self.cb(val)
        if not ok and self.ecb:
            self.ecb(val)

    def ready(self):
        return self.state is not None

    def successful(self):
        if self.state is None:
            raise ValueError("%r not ready" % self)
        return self.state[0]

    def wait(self, timeout=None):
        while self.state is None and self.eng.pump():
            pass

    def get(self, timeout=None):
        self.wait()
        if self.state is None:
            raise multiprocessing.TimeoutError
        if self.state[0]:
            return self.state[1]
        raise self.state[1]


class SimPool(Engine):
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        if processes is not None and processes < 1:
            raise ValueError("Number of processes must be at least 1")
        self.start(processes, initializer, initargs, maxtasksperchild)

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        r = Result(self, callback, error_callback)
        self.put(Task(func, tuple(args), dict(kwds or {}), r._set))
        return r

    def apply(self, func, args=(), kwds=None):
        return self.apply_async(func, args, kwds).get()

    def _chunks(self, items, chunksize, star):
        return [(_starmapstar if star else _mapstar, items[i:i + chunksize]) for i in range(0, len(items), chunksize)]

    def _map_async(self, func, iterable, chunksize, callback, error_callback, star):
        items = list(iterable)
        if chunksize is None:
            chunksize, extra = divmod(len(items), self.n * 4)
            chunksize += bool(extra)
        r = Result(self, callback, error_callback)
        cs = self._chunks(items, max(1, chunksize), star)
        out, left, fail = [None] * len(cs), [len(cs)], []
        if not cs:
            r._set(True, [])

        def done(k):
            def f(ok, val):
                if ok:
                    out[k] = val
                else:
                    fail.append(val)
                left[0] -= 1
                if not left[0]:
                    r._set(False, fail[0]) if fail else r._set(True, [x for c in out for x in c])

            return f

        for k, (m, c) in enumerate(cs):
            self.put(Task(m, (func, c), {}, done(k)))
        return r

    def map(self, func, iterable, chunksize=None):
        return self._map_async(func, iterable, chunksize, None, None, False).get()

    def starmap(self, func, iterable, chunksize=None):
        return self._map_async(func, iterable, chunksize, None, None, True).get()

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map_async(func, iterable, chunksize, callback, error_callback, False)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map_async(func, iterable, chunksize, callback, error_callback, True)

    def _imap(self, func, iterable, chunksize, ordered):
        items = list(iterable)
        ready, got = {}, []

        def done(k):
            def f(ok, val):
                ready[k] = (ok, val)
                got.append(k)

            return f

        cs = self._chunks(items, chunksize, False)
        for k, (m, c) in enumerate(cs):
            self.put(Task(m, (func, c), {}, done(k)))

        def it():
            for k in range(len(cs)):
                while not ((k in ready) if ordered else got):
                    if not self.pump():
                        raise multiprocessing.TimeoutError
                j = k if ordered else got.pop(0)
                ok, val = ready[j]
                if not ok:
                    raise val
                yield from val

        return it()

    def imap(self, func, iterable, chunksize=1):
        return self._imap(func, iterable, chunksize, True)

    def imap_unordered(self, func, iterable, chunksize=1):
        return self._imap(func, iterable, chunksize, False)

    def close(self):
        self.closed = True

    def terminate(self):
        self.kill_all()

    def join(self):
        while self.pump():
            pass
        self.kill_all()

    def __enter__(self):
        if self.closed:
            raise ValueError("Pool not running")
        return self

    def __exit__(self, *a):
        self.terminate()


class SimThreadPool(SimPool):
    remote = False

    def __init__(self, processes=None, initializer=None, initargs=()):
        super().__init__(processes, initializer, initargs)


class SimFuture:
    def __init__(self, eng):
        self.r = Result(eng)
        self.cbs = []

    def _set(self, ok, val):
        self.r._set(ok, val)
        for f in self.cbs:
            f(self)

    def done(self):
        return self.r.ready()

    def running(self):
        return False

    def cancelled(self):
        return False

    def cancel(self):
        return False

    def result(self, timeout=None):
        return self.r.get()

    def exception(self, timeout=None):
        self.r.wait()
        return None if self.r.state[0] else self.r.state[1]

    def add_done_callback(self, f):
        f(self) if self.done() else self.cbs.append(f)


class SimExecutor(Engine):
    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), **kw):
        self.start(max_workers, initializer, initargs)

    def submit(self, fn, /, *args, **kw):
        f = SimFuture(self)
        self.put(Task(fn, args, kw, f._set))
        return f

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        fs = [self.submit(fn, *a) for a in zip(*iterables)]

        def it():
            for f in fs:
                yield f.result()

        return it()

    def shutdown(self, wait=True, cancel_futures=False):
        if wait and not self.closed:
            while self.pump():
                pass
        self.kill_all()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()


class SimThreadExecutor(SimExecutor):
    remote = False


def _as_completed(fs, timeout=None):
    left = list(fs)
    order = []
    for f in left:
        f.add_done_callback(order.append)
    n = 0
    while n < len(left):
        while len(order) <= n:
            if not left[0].r.eng.pump():
                raise TimeoutError
        yield order[n]
        n += 1


def _wait(fs, timeout=None, return_when="ALL_COMPLETED"):
    from concurrent.futures import DoneAndNotDoneFutures

    fs = list(fs)
    for f in fs:
        f.r.wait()
    return DoneAndNotDoneFutures(set(fs), set())


def _tqdm_shim():
    m = types.ModuleType("tqdm")

    class tqdm:
        def __init__(self, iterable=None, *a, total=None, **kw):
            self.it, self.n, self.total = iterable, 0, total

        def __iter__(self):
            for x in self.it:
                yield x
                self.n += 1

        def update(self, n=1):
            self.n += n

        def close(self):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def set_description(self, *a, **kw):
            pass

        @staticmethod
        def write(*a, **kw):
            pass

    m.tqdm = tqdm
    m.trange = lambda *a, **kw: tqdm(range(*a))
    auto = types.ModuleType("tqdm.auto")
    auto.tqdm, auto.trange = tqdm, m.trange
    m.auto = auto
    return {"tqdm": m, "tqdm.auto": auto}


def install():
    """Put the seams in place; must run before the library is imported."""
    import concurrent.futures
    import multiprocessing.context
    import multiprocessing.pool

    multiprocessing.Pool = SimPool
    multiprocessing.pool.Pool = SimPool
    multiprocessing.pool.ThreadPool = SimThreadPool
    multiprocessing.context.BaseContext.Pool = lambda self, *a, **kw: SimPool(*a, **kw)
    concurrent.futures.ProcessPoolExecutor = SimExecutor
    concurrent.futures.ThreadPoolExecutor = SimThreadExecutor
    concurrent.futures.as_completed = _as_completed
    concurrent.futures.wait = _wait
    n = lambda: sched().workers  # noqa
    os.cpu_count = n
    multiprocessing.cpu_count = n
    if hasattr(os, "sched_getaffinity"):
        os.sched_getaffinity = lambda pid: set(range(sched().workers))
    sys.modules.update(_tqdm_shim())
