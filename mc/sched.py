"""Controlled scheduling of threads that run library code.

Scheduling points are the executed source lines of the library (sys.settrace per thread);
code outside of the library (numpy, torch, scipy) between two library lines is atomic.
A thread only runs while the controller lets it, hence an execution is determined by the
list of (thread, number of lines) segments.  If a scheduled thread does not come back
(it waits for a lock the other thread holds) all threads are released and run freely.
"""
import os
import sys
import threading

from .core import REPO

LIB = os.path.realpath(os.path.join(REPO, "src", "hyperelastic")) + os.sep
INF = 1 << 60
_RealThread = threading.Thread


class Stepper(_RealThread):
    def __init__(self, fn, opcodes=False):
        super().__init__(daemon=True)
        self.fn = fn
        self.opcodes = opcodes
        self.count, self.limit = 0, 0
        self.go, self.back = threading.Lock(), threading.Lock()
        self.go.acquire()
        self.back.acquire()
        self.done, self.free = False, False
        self.result = self.error = None
        self._files = {}
        self.start()

    def run(self):
        self.go.acquire()
        sys.settrace(self._call)
        try:
            self.result = self.fn()
        except BaseException as e:  # noqa
            self.error = e
        finally:
            sys.settrace(None)
            self.done = True
            self.back.release()

    def _call(self, frame, event, arg):
        name = frame.f_code.co_filename
        hit = self._files.get(name)
        if hit is None:
            hit = self._files[name] = os.path.realpath(name).startswith(LIB)
        if not hit:
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self._local

    def _local(self, frame, event, arg):
        if event == "line" or event == "opcode":
            self.count += 1
            if self.count > self.limit and not self.free:
                self.back.release()
                self.go.acquire()
        return self._local

    def advance(self, n=INF, timeout=20.0):
        "run n lines (or to the end); False if the thread does not come back"
        if self.done:
            return True
        # the thread is stopped in front of line number count
        self.limit = self.count + n if n < INF else INF
        if self.count > 0:
            self.limit -= 1
        self.go.release()
        return self.back.acquire(timeout=timeout)

    def release(self):
        self.free = True
        self.limit = INF
        if not self.done and self.go.locked():
            self.go.release()


def execute(fns, plan, opcodes=False, timeout=20.0):
    """Run the functions in one thread each, following plan = [(thread, lines)...], then to
    the end in order of the list. Returns (results, line counts, followed)."""
    ts = [Stepper(f, opcodes) for f in fns]
    followed = True
    for k, n in [*plan, *[(k, INF) for k in range(len(ts))]]:
        if n == 0:
            continue
        if not ts[k].advance(n, timeout):
            followed = False
            break
    if not followed:
        for t in ts:
            t.release()
    for t in ts:
        t.join(60)
    for t in ts:
        if t.error is not None:
            raise t.error
        if not t.done:
            raise RuntimeError("the threads do not terminate")
    return [t.result for t in ts], [t.count for t in ts], followed


# --------------------------------------------------------------------- controlled pools
class Result:
    def __init__(self, pool, fn, callback=None):
        self.pool, self.fn, self.callback = pool, fn, callback
        self.finished = False
        self.value = self.err = None
        pool.submit_task(self)

    def _run(self):
        try:
            self.value = self.fn()
        except BaseException as e:  # noqa
            self.err = e
        self.finished = True
        if self.callback is not None and self.err is None:
            self.callback(self.value)

    # multiprocessing / concurrent.futures
    def get(self, timeout=None):
        self.pool.wait_for(self)
        if self.err is not None:
            raise self.err
        return self.value

    def result(self, timeout=None):
        return self.get()

    def wait(self, timeout=None):
        if timeout is not None and ControlledPool.schedule.mode == "lazy":
            return  # the time is up before the task ends
        self.pool.wait_for(self)

    def ready(self):
        return self.finished

    done = ready

    def successful(self):
        return self.finished and self.err is None

    def exception(self, timeout=None):
        self.pool.wait_for(self)
        return self.err

    def add_done_callback(self, fn):
        if self.finished:
            fn(self)
        else:
            self.callback = lambda v: fn(self)


class Schedule:
    """decides when the tasks run.

    policy: order of the tasks pending at a wait ("fifo", "lifo", or a permutation index
    applied to call number `call` only), eager (tasks run when they are submitted), lazy
    (only the awaited task runs at its wait, the rest runs later), preempt k (the first task
    is preempted after k library lines, the others run, then it goes on).
    """

    def __init__(self, order=None, call=None, mode="block", preempt=0):
        self.order, self.call, self.mode, self.preempt = order, call, mode, preempt
        self.pending = []
        self.waits = 0
        self.tasks = 0
        self.maxpending = 0

    def submit(self, r):
        self.tasks += 1
        if self.mode == "eager":
            r._run()
        else:
            self.pending.append(r)
            self.maxpending = max(self.maxpending, len(self.pending))

    def wait(self, r):
        if r.finished:
            return
        if self.mode == "lazy":
            self.pending.remove(r)
            r._run()
            return
        n = self.waits
        self.waits += 1
        todo = list(self.pending)
        self.pending.clear()
        if self.order == -1:
            todo.reverse()
        elif self.order is not None and (self.call is None or self.call == n):
            todo = permuted(todo, self.order)
        if self.preempt and len(todo) > 1:
            execute([t._run for t in todo], [(0, self.preempt), *[(k, INF) for k in range(1, len(todo))]])
        else:
            for t in todo:
                t._run()

    def drain(self):
        while self.pending:
            self.pending.pop(0)._run()


def permuted(items, index):
    "the index-th permutation (factorial number system)"
    items, out = list(items), []
    while items:
        index, k = divmod(index, len(items))
        out.append(items.pop(k))
    return out


class ControlledPool:
    schedule = Schedule()  # shared by all the pools of an execution

    def __init__(self, processes=None, *args, max_workers=None, **kwargs):
        self._processes = processes or max_workers or 4

    def submit_task(self, r):
        ControlledPool.schedule.submit(r)

    def wait_for(self, r):
        ControlledPool.schedule.wait(r)

    # multiprocessing.pool
    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        return Result(self, lambda: func(*args, **kwds), callback)

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def map(self, func, *iterables, chunksize=None, timeout=None):
        rs = [Result(self, lambda a=a: func(*a)) for a in zip(*iterables)]
        return [r.get() for r in rs]

    def starmap(self, func, iterable, chunksize=None):
        rs = [Result(self, lambda a=a: func(*a)) for a in iterable]
        return [r.get() for r in rs]

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return Result(self, lambda: [func(a) for a in iterable], callback)

    def imap(self, func, iterable, chunksize=1):
        return iter(self.map(func, iterable))

    def imap_unordered(self, func, iterable, chunksize=1):
        rs = [Result(self, lambda a=a: func(a)) for a in iterable]
        done = []
        for r in rs:
            r.callback = lambda v, r=r: done.append(r)
        for r in rs:
            r.wait()
        return iter([r.value for r in done])

    def close(self):
        pass

    terminate = join = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for r in list(ControlledPool.schedule.pending):
            if r.pool is self:
                ControlledPool.schedule.wait(r)

    # concurrent.futures
    def submit(self, fn, *args, **kwargs):
        return Result(self, lambda: fn(*args, **kwargs))

    def shutdown(self, wait=True, **kwargs):
        if wait:
            self.__exit__()


class ControlledThread:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self.target, self.args, self.kwargs = target, args, kwargs or {}
        self.r = None

    def run(self):
        if self.target:
            self.target(*self.args, **self.kwargs)

    def start(self):
        self.r = Result(ControlledPool(1), self.run)

    def join(self, timeout=None):
        self.r.wait(timeout)

    def is_alive(self):
        return not self.r.finished


def as_completed(fs, timeout=None):
    fs = list(fs)
    done = []
    for f in fs:
        if f.finished:
            done.append(f)
        else:
            f.callback = lambda v, f=f: done.append(f)
    for f in fs:
        f.wait()
    return iter(done)


def cf_wait(fs, timeout=None, return_when="ALL_COMPLETED"):
    for f in fs:
        f.wait(timeout)
    return {f for f in fs if f.finished}, {f for f in fs if not f.finished}


class patched:
    "replaces the thread pools (also those already bound to names of library modules)"

    def __enter__(self):
        import concurrent.futures as cf
        import concurrent.futures.thread as cft
        import multiprocessing.dummy as md
        import multiprocessing.pool as mp

        import einsumt

        E = sys.modules["einsumt"]
        self.old = []
        orig = {id(mp.ThreadPool): ControlledPool, id(cft.ThreadPoolExecutor): ControlledPool, id(threading.Thread): ControlledThread,
                id(cf.as_completed): as_completed, id(cf.wait): cf_wait, id(md.Pool): ControlledPool}
        keep = [mp.ThreadPool, cft.ThreadPoolExecutor, threading.Thread, cf.as_completed, cf.wait, md.Pool]
        self.keep = keep
        mods = [mp, cf, md]
        mods += [m for n, m in list(sys.modules.items()) if n.split(".")[0] == "hyperelastic" and m is not None]
        for mod in mods:
            for name, v in list(vars(mod).items()):
                if id(v) in orig:
                    self.set(mod, name, orig[id(v)])
                elif isinstance(v, (mp.ThreadPool, cft.ThreadPoolExecutor)) and mod not in (mp, cf, md):
                    self.set(mod, name, ControlledPool(getattr(v, "_processes", getattr(v, "_max_workers", 4))))
        # threading.Thread itself is only replaced for the library (the schedulers need it)
        self.set(E, "default_thread_pool", ControlledPool(4))
        self.einsumt = E
        return self

    def set(self, mod, name, v):
        self.old.append((mod, name, getattr(mod, name)))
        setattr(mod, name, v)

    def workers(self, n):
        self.einsumt.default_thread_pool._processes = n

    def __exit__(self, *a):
        for mod, name, v in reversed(self.old):
            setattr(mod, name, v)
