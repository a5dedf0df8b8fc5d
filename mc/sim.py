"""
A controlled multiprocessing runtime: the processes of the code under test are coroutines, and every operation on shared
things (queues, locks, pools, files) is a scheduling point at which an explorer decides who goes on.

What is modelled: forked processes with their own process id, random state and copy of the process object; queues with a
feeder thread (items are pickled when they are delivered, the delivery can be late), blocking and timed gets (a timeout
fires only when nothing else can run), locks, pools whose workers take chunks in order and return results in the order of
completion and are killed by terminate().
"""
import collections
import copy
import logging
import multiprocessing
import multiprocessing.pool
import multiprocessing.process
import multiprocessing.queues
import os
import pickle
import queue as queue_module
import random
import sys
import time
import types
from multiprocessing.reduction import ForkingPickler

import greenlet

_real_time = time.time
_real_getpid = os.getpid
_real_random = {k: getattr(random, k) for k in ('random', 'randint', 'randrange', 'choice', 'getrandbits', 'uniform', 'sample',
                                                'shuffle')}


class Deadlock(Exception):
    pass


class TooLong(Exception):
    pass


class Chooser:
    """Follows a prefix of decisions and takes the default afterwards; remembers how many ways there were."""

    def __init__(self, prefix=()):
        self.prefix = prefix
        self.taken = []
        self.ways = []

    def choose(self, n):
        if n <= 1:
            return 0
        i = len(self.taken)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n:
            raise RuntimeError(f'the execution is not deterministic: choice {c} of {n} at {i}')
        self.taken.append(c)
        self.ways.append(n)
        return c


def explore(run, bound, shard=0, shards=1, limit=None):
    """
    All executions with up to `bound` decisions other than the default ones. `run(chooser)` makes one execution and returns
    False to stop. The executions are split by the position of their first deviation. -> number of executions
    """
    done = 0
    stack = [((), 0)]
    while stack:
        prefix, devs = stack.pop()
        ch = Chooser(prefix)
        root = not prefix
        if run(ch, root and shard != 0) is False:
            return done
        if not (root and shard != 0):
            done += 1
        if devs >= bound:
            continue
        for i in range(len(ch.taken) - 1, len(prefix) - 1, -1):
            if root and i % shards != shard:
                continue
            for a in range(1, ch.ways[i]):
                stack.append((tuple(ch.taken[:i]) + (a,), devs + 1))
    return done


class Proc:
    def __init__(self, pid, rng, target=None):
        self.pid = pid
        self.rng = rng
        self.target = target
        self.g = None
        self.cond = None       # blocked until cond() holds
        self.deadline = None
        self.timed_out = False
        self.done = False
        self.killed = False
        self.exception = None
        self.globals = None
        self.buffers = []      # queues with items of this process which have not been delivered


SIM = None


def _dumps(obj):
    """As multiprocessing does it (other modules extend what pickle.dumps takes)"""
    return bytes(ForkingPickler.dumps(obj))


_NO_DATA = (types.ModuleType, types.FunctionType, types.BuiltinFunctionType, types.MethodType, type, logging.Logger)
_CONTAINERS = (dict, list, set, collections.deque)


def _modules():
    return [m for k, m in list(sys.modules.items())
            if m is not None and (k == 'codeprep' or k.startswith('codeprep.') or k == 'litmus')]


def _data(module):
    return {k: v for k, v in module.__dict__.items() if not isinstance(v, _NO_DATA) and not k.startswith('__')}


def get_globals():
    """The data on the level of modules, which every process has of its own"""
    return [(m, _data(m)) for m in _modules()]


def _copied(v, memo):
    """A copy of a container of plain data, down to the objects in it (which stay the same)"""
    if not isinstance(v, _CONTAINERS) or len(v) >= 10000 or isinstance(v, Shared):
        return v
    if id(v) not in memo:
        c = copy.copy(v)
        memo[id(v)] = (v, c)
        if isinstance(c, dict):
            for k, x in v.items():
                if isinstance(x, _CONTAINERS):
                    c[k] = _copied(x, memo)
        elif not isinstance(c, set):
            for i, x in enumerate(v):
                if isinstance(x, _CONTAINERS):
                    c[i] = _copied(x, memo)
    return memo[id(v)][1]


def copy_globals():
    """... of a process that is forked now"""
    memo = {}
    return [(m, {k: _copied(v, memo) for k, v in _data(m).items()}) for m in _modules()]


def set_globals(saved):
    for m, d in saved:
        g = m.__dict__
        for k, v in list(g.items()):
            if k not in d and not isinstance(v, _NO_DATA) and not k.startswith('__'):
                del g[k]
        for k, v in d.items():
            if k not in g or g[k] is not v:
                g[k] = v


class Sim:
    def __init__(self, chooser, cpus=2, late_delivery=True, chunksize=None, pool_schedule=True, max_points=200000):
        self.ch = chooser
        self.cpus = cpus
        self.late_delivery = late_delivery
        self.chunksize = chunksize
        self.max_points = max_points
        self.clock = 1_600_000_000.0
        self.points = 0
        self.procs = []
        self.queues = []
        self.next_pid = 1000
        self.crashed = []      # (pid, exception) of processes which ended with an exception
        self.trace = []

    # --- scheduling

    def run(self, fn):
        """Runs fn as the main process; returns its result or raises its exception."""
        global SIM
        if SIM is not None:
            raise RuntimeError('nested simulation')
        SIM = self
        before = set(_shared)
        patch()
        try:
            self.hub = greenlet.getcurrent()
            main = Proc(self.next_pid, random.Random(7))
            self.next_pid += 1
            main.g = greenlet.greenlet(self._body)
            main.target = fn
            main.result = None
            self.procs.append(main)
            self.main = main
            self.cur = main
            self.inside = main
            nxt = main
            while True:
                self.cur = nxt
                self.enter(nxt)
                got = nxt.g.switch(nxt) if not nxt.g else nxt.g.switch()
                if main.done:
                    break
                nxt = got if isinstance(got, Proc) else self.pick_next(nxt)
        finally:
            self.enter(self.main)
            SIM = None
            unpatch()
            for k in [k for k in _shared if k not in before]:
                del _shared[k]
        if main.exception is not None:
            raise main.exception
        return main.result

    def enter(self, p):
        """From now on the data of modules is that of this process"""
        if self.inside is p:
            return
        self.inside.globals = get_globals()
        if p.globals is not None:
            set_globals(p.globals)
            p.globals = None
        self.inside = p

    def _body(self, p):
        try:
            p.result = p.target()
        except greenlet.GreenletExit:
            pass
        except BaseException as e:
            p.exception = e
        if p is not self.main:
            try:
                self.flush(p)
            except Exception as e:
                p.exception = p.exception or e
            if p.exception is not None and not isinstance(p.exception, SystemExit):
                self.crashed.append((p.pid, p.exception))
        p.done = True
        return None

    def enabled(self, p):
        if p.done or p.killed:
            return False
        return p.cond is None or p.cond()

    def order(self, cur):
        i = self.procs.index(cur) if cur in self.procs else 0
        return self.procs[i:] + self.procs[:i]

    def pick_next(self, cur):
        """The current process cannot go on."""
        while True:
            ready = [p for p in self.order(cur) if self.enabled(p)]
            if ready:
                return ready[self.ch.choose(len(ready))]
            if self.deliver_one():
                continue
            timed = sorted([(p.deadline, p.pid, p) for p in self.procs if not p.done and not p.killed
                            and p.deadline is not None], key=lambda x: x[:2])
            if not timed:
                raise Deadlock(f'all {sum(not p.done and not p.killed for p in self.procs)} processes wait for each other')
            self.clock = max(self.clock, timed[0][0])
            p = timed[0][2]
            p.timed_out = True
            p.cond = None
            return p

    def point(self, kind='op', what=None):
        """A place at which another process can go on."""
        cur = self.cur
        if greenlet.getcurrent() is not cur.g:
            return
        self.points += 1
        if self.points > self.max_points:
            raise TooLong(f'more than {self.max_points} steps')
        ready = [cur] + [p for p in self.order(cur)[1:] if self.enabled(p)]
        c = self.ch.choose(len(ready))
        if c:
            self.hub.switch(ready[c])

    def block(self, cond, timeout=None):
        """-> False if the time ran out"""
        cur = self.cur
        if cond():
            return True
        cur.cond = cond
        cur.deadline = None if timeout is None else self.clock + timeout
        cur.timed_out = False
        self.points += 1
        if self.points > self.max_points:
            raise TooLong(f'more than {self.max_points} steps')
        self.hub.switch(None)
        cur.cond = None
        cur.deadline = None
        return not cur.timed_out

    def deliver_one(self):
        for q in self.queues:
            for pid in list(q.pending):
                if q.pending[pid]:
                    q.deliver(pid)
                    return True
        return False

    def flush(self, p):
        for q in self.queues:
            q.flush(p.pid)

    def spawn(self, target):
        p = Proc(self.next_pid, copy.deepcopy(self.cur.rng), target)
        p.globals = copy_globals()
        self.next_pid += 1
        p.g = greenlet.greenlet(self._body, parent=self.hub)
        self.procs.append(p)
        return p

    def kill(self, p):
        p.killed = True


class Shared:
    """Lives in the operating system: a copy of a process object refers to the same thing."""

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        return _find_shared, (id(self),)


_shared = {}


def _find_shared(key):
    return _shared[key]


def _need_sim():
    if SIM is None:
        return Immediate
    return SIM


class _Immediate:
    """Outside of a simulation (module level objects): everything happens at once."""
    queues = []
    late_delivery = False

    def point(self, *a):
        pass

    def block(self, cond, timeout=None):
        if not cond():
            if timeout is not None:
                return False
            raise Deadlock('waiting outside of a simulation')
        return True

    class cur:
        pid = 0


Immediate = _Immediate()


class SimQueue(Shared):
    def __init__(self, maxsize=0, *, ctx=None):
        self.maxsize = maxsize or 0
        self.count = 0
        self.pipe = []
        self.pending = {}
        self.closed = False
        _shared[id(self)] = self
        _need_sim().queues.append(self)

    def put(self, obj, block=True, timeout=None):
        s = _need_sim()
        if self.closed:
            raise ValueError('Queue is closed')
        s.point('put')
        if self.maxsize:
            if not block and self.count >= self.maxsize:
                raise queue_module.Full
            if not s.block(lambda: self.count < self.maxsize, timeout):
                raise queue_module.Full
        self.count += 1
        pid = s.cur.pid
        self.pending.setdefault(pid, []).append(obj)
        if len(self.pending[pid]) == 1:
            if s.late_delivery and s.ch.choose(2):
                return
            self.deliver(pid)
        elif not s.late_delivery:
            self.flush(pid)

    def put_nowait(self, obj):
        return self.put(obj, False)

    def deliver(self, pid):
        obj = self.pending[pid].pop(0)
        try:
            data = _dumps(obj)
        except Exception:
            self.count -= 1      # the feeder thread reports the error and goes on
            return
        self.pipe.append(data)

    def flush(self, pid):
        while self.pending.get(pid):
            self.deliver(pid)

    def get(self, block=True, timeout=None):
        s = _need_sim()
        s.point('get')
        if not block:
            if not self.pipe:
                raise queue_module.Empty
        elif not s.block(lambda: bool(self.pipe), timeout):
            raise queue_module.Empty
        data = self.pipe.pop(0)
        self.count -= 1
        return pickle.loads(data)

    def get_nowait(self):
        return self.get(False)

    def qsize(self):
        _need_sim().point('qsize')
        return self.count

    def empty(self):
        _need_sim().point('empty')
        return not self.pipe

    def full(self):
        return bool(self.maxsize) and self.count >= self.maxsize

    def close(self):
        self.closed = True

    def join_thread(self):
        self.flush(_need_sim().cur.pid)

    def cancel_join_thread(self):
        pass


class SimJoinableQueue(SimQueue):
    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.unfinished = 0

    def put(self, obj, block=True, timeout=None):
        self.unfinished += 1
        super().put(obj, block, timeout)

    def task_done(self):
        self.unfinished -= 1

    def join(self):
        _need_sim().block(lambda: self.unfinished == 0)


class SimLock(Shared):
    reentrant = False

    def __init__(self, *, ctx=None):
        self.owner = None
        self.depth = 0
        _shared[id(self)] = self

    def acquire(self, block=True, timeout=None):
        s = _need_sim()
        s.point('acquire')
        if self.reentrant and self.owner == s.cur.pid:
            self.depth += 1
            return True
        if not block:
            if self.owner is not None:
                return False
        elif not s.block(lambda: self.owner is None, timeout):
            return False
        self.owner = s.cur.pid
        self.depth = 1
        return True

    def release(self):
        if self.owner is None:
            raise ValueError('semaphore or lock released too many times')
        self.depth -= 1
        if self.depth == 0:
            self.owner = None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    reentrant = True


class SimSemaphore(Shared):
    def __init__(self, value=1, *, ctx=None):
        self.n = value
        _shared[id(self)] = self

    def acquire(self, block=True, timeout=None):
        s = _need_sim()
        s.point('acquire')
        if not block:
            if self.n <= 0:
                return False
        elif not s.block(lambda: self.n > 0, timeout):
            return False
        self.n -= 1
        return True

    def release(self):
        self.n += 1

    def get_value(self):
        return self.n

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class SimEvent(Shared):
    def __init__(self, *, ctx=None):
        self.flag = False
        _shared[id(self)] = self

    def is_set(self):
        _need_sim().point('is_set')
        return self.flag

    def set(self):
        _need_sim().point('set')
        self.flag = True

    def clear(self):
        self.flag = False

    def wait(self, timeout=None):
        s = _need_sim()
        s.point('wait')
        return s.block(lambda: self.flag, timeout)


class SimValue(Shared):
    def __init__(self, typecode, *args, lock=True, ctx=None):
        self.__dict__['_v'] = args[0] if args else 0
        self.__dict__['_lock'] = SimRLock()
        _shared[id(self)] = self

    def get_lock(self):
        return self._lock

    def get_obj(self):
        return self

    def acquire(self, *a):
        return self._lock.acquire(*a)

    def release(self):
        self._lock.release()

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        return self._lock.__exit__(*a)

    @property
    def value(self):
        _need_sim().point('read')
        return self._v

    @value.setter
    def value(self, v):
        _need_sim().point('write')
        self.__dict__['_v'] = v


class SimProcess:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._target = target
        self._args = tuple(args)
        self._kwargs = dict(kwargs or {})
        self.name = name or 'Process'
        self.daemon = bool(daemon)
        self._p = None

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        if self._p is not None:
            raise AssertionError('cannot start a process twice')
        s = SIM
        if s is None:
            raise RuntimeError('a process was started outside of the simulation')
        s.point('start')
        mine = self

        def body():
            mine._child.run()

        self._child = None
        try:
            child = copy.deepcopy(self)
        except Exception:
            child = self
        self._child = child
        self._p = s.spawn(body)
        child.__dict__['_p'] = self._p

    def join(self, timeout=None):
        SIM.point('join')
        SIM.block(lambda: self._p.done or self._p.killed, timeout)

    def is_alive(self):
        SIM.point('is_alive')
        return self._p is not None and not self._p.done and not self._p.killed

    def terminate(self):
        SIM.point('terminate')
        SIM.kill(self._p)

    kill = terminate

    def close(self):
        pass

    @property
    def pid(self):
        return self._p.pid if self._p else None

    ident = pid

    @property
    def exitcode(self):
        if self._p is None:
            return None
        if self._p.killed:
            return -15
        if not self._p.done:
            return None
        e = self._p.exception
        if e is None:
            return 0
        if isinstance(e, SystemExit):
            return e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        return 1

    def __deepcopy__(self, memo):
        new = self.__class__.__new__(self.__class__)
        memo[id(self)] = new
        for k, v in self.__dict__.items():
            if k not in ('_p', '_child'):
                new.__dict__[k] = copy.deepcopy(v, memo)
        new.__dict__['_p'] = None
        return new


class RemoteError(Exception):
    pass


class AsyncResult:
    def __init__(self, pool, n):
        self.pool, self.n, self.got = pool, n, {}
        self.error = None
        self.single = False

    def ready(self):
        return self.error is not None or len(self.got) == self.n

    def wait(self, timeout=None):
        SIM.block(self.ready, timeout)

    def successful(self):
        return self.error is None

    def get(self, timeout=None):
        if not SIM.block(self.ready, timeout):
            raise multiprocessing.TimeoutError
        if self.error is not None:
            raise self.error
        r = [self.got[i] for i in range(self.n)]
        flat = [x for chunk in r for x in chunk]
        return flat[0] if self.single else flat


class SimPool(Shared):
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        if SIM is None:
            raise RuntimeError('a pool was started outside of the simulation')
        _shared[id(self)] = self
        self.n = processes or SIM.cpus
        if self.n < 1:
            raise ValueError('Number of processes must be at least 1')
        self.initializer, self.initargs = initializer, initargs
        self.tasks = []
        self.closed = False
        self.terminated = False
        self.workers = [SIM.spawn(self._worker) for _ in range(self.n)]

    def _worker(self):
        if self.initializer:
            self.initializer(*self.initargs)
        while True:
            if not self.tasks:
                SIM.block(lambda: bool(self.tasks) or self.closed)
            else:
                SIM.point('task')
            if not self.tasks:
                if self.closed:
                    return
                continue
            star, data, done = self.tasks.pop(0)
            try:
                func, items = pickle.loads(data)
                res = ('ok', _dumps([func(*x) if star else func(x) for x in items]))
            except Exception as e:
                res = ('error', e)
            SIM.point('result')
            done(res)

    def _check(self):
        if self.closed or self.terminated:
            raise ValueError('Pool not running')

    def _submit(self, func, iterable, chunksize, star, done):
        self._check()
        if SIM.chunksize:
            chunksize = SIM.chunksize
        chunk = []
        n = 0
        error = None
        chunks = []
        try:
            for x in iterable:
                chunk.append(x)
                if len(chunk) == chunksize:
                    chunks.append(chunk)
                    chunk = []
        except Exception as e:
            error = e
            chunk = []
        if chunk:
            chunks.append(chunk)
        for chunk in chunks:
            try:
                self.tasks.append((star, _dumps((func, chunk)), (lambda i: lambda r: done(i, r))(n)))
            except Exception as e:
                done(n, ('error', e))
            n += 1
        return n, error

    def imap_unordered(self, func, iterable, chunksize=1):
        return self._imap(func, iterable, chunksize, ordered=False)

    def imap(self, func, iterable, chunksize=1):
        return self._imap(func, iterable, chunksize, ordered=True)

    def _imap(self, func, iterable, chunksize, ordered):
        results = {} if ordered else []

        def done(i, r):
            if ordered:
                results[i] = r
            else:
                results.append(r)

        n, error = self._submit(func, iterable, chunksize, False, done)
        pool = self

        def gen():
            for i in range(n):
                ready = (lambda: i in results) if ordered else (lambda: bool(results))
                SIM.block(ready)
                kind, value = results.pop(i) if ordered else results.pop(0)
                if kind == 'error':
                    raise value
                for x in pickle.loads(value):
                    yield x
            if error is not None:
                raise error
        it = gen()

        class Iter:
            def __iter__(self):
                return self

            def __next__(self):
                return next(it)

            def next(self, timeout=None):
                return next(it)
        return Iter()

    def _async(self, func, iterable, chunksize, star, callback=None, error_callback=None):
        ar = AsyncResult(self, 0)

        def done(i, r):
            if r[0] == 'error':
                ar.error = ar.error or r[1]
                if error_callback:
                    error_callback(r[1])
            else:
                ar.got[i] = pickle.loads(r[1])

        items = list(iterable)
        if chunksize is None:
            chunksize = max(1, -(-len(items) // (self.n * 4)))
        n, error = self._submit(func, items, chunksize, star, done)
        ar.n = n
        return ar

    def map(self, func, iterable, chunksize=None):
        return self._async(func, iterable, chunksize, False).get()

    def starmap(self, func, iterable, chunksize=None):
        return self._async(func, iterable, chunksize, True).get()

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._async(func, iterable, chunksize, False, callback, error_callback)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._async(func, iterable, chunksize, True, callback, error_callback)

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        kwds = kwds or {}
        ar = self._async(_Call(func, kwds), [tuple(args)], 1, True, callback, error_callback)
        ar.single = True
        return ar

    def apply(self, func, args=(), kwds=None):
        return self.apply_async(func, args, kwds).get()

    def close(self):
        self.closed = True

    def terminate(self):
        SIM.point('terminate')
        self.terminated = True
        for w in self.workers:
            SIM.kill(w)

    def join(self):
        if not self.closed and not self.terminated:
            raise ValueError('Pool is still running')
        SIM.block(lambda: all(w.done or w.killed for w in self.workers))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


class _Call:
    def __init__(self, func, kw):
        self.func, self.kw = func, kw

    def __call__(self, *args):
        return self.func(*args, **self.kw)


# --- patching

_classes_installed = False


def install_classes():
    """Before codeprep is imported: it takes the classes from multiprocessing."""
    global _classes_installed
    if _classes_installed:
        return
    _classes_installed = True
    m = multiprocessing
    names = {'Process': SimProcess, 'Queue': SimQueue, 'SimpleQueue': SimQueue, 'JoinableQueue': SimJoinableQueue,
             'Lock': SimLock, 'RLock': SimRLock, 'Semaphore': SimSemaphore, 'BoundedSemaphore': SimSemaphore,
             'Event': SimEvent, 'Value': SimValue, 'RawValue': SimValue, 'Pool': SimPool}
    for k, v in names.items():
        setattr(m, k, v)
    m.pool.Pool = SimPool
    multiprocessing.process.BaseProcess = SimProcess
    multiprocessing.queues.Queue = SimQueue
    m.cpu_count = lambda: SIM.cpus if SIM else 2
    ctx = types.SimpleNamespace(cpu_count=m.cpu_count, TimeoutError=m.TimeoutError, **names)
    m.get_context = lambda method=None: ctx
    os.cpu_count = lambda: SIM.cpus if SIM else 2


def patch():
    s = SIM
    os.getpid = lambda: SIM.cur.pid if SIM else _real_getpid()
    time.time = lambda: SIM.clock if SIM else _real_time()
    time.sleep = lambda t: (SIM.block(lambda: False, t) if SIM else None)
    for k in _real_random:
        setattr(random, k, (lambda k: lambda *a, **kw: getattr(SIM.cur.rng, k)(*a, **kw))(k))


_real_sleep = time.sleep


def unpatch():
    os.getpid = _real_getpid
    time.time = _real_time
    time.sleep = _real_sleep
    for k, v in _real_random.items():
        setattr(random, k, v)
