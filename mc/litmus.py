"""
Small programs about processes. Each is explored completely in the controlled runtime (sim.py) and run many times with the real
multiprocessing: what really happens has to be among what is explored.

litmus.py REPETITIONS NAME...: runs them with the real multiprocessing and prints {name: {outcome: how often}}.
"""
import json
import multiprocessing as mp
import os
import queue
import sys

STATE = {'n': 0, 'l': []}
NUMBER = 0


def _put(q, *xs):
    for x in xs:
        q.put(x)


def _put_and_change(q):
    l = [1]
    q.put(l)
    l.append(2)


def _change_globals(q):
    global NUMBER
    NUMBER += 1
    STATE['n'] += 1
    STATE['l'].append(NUMBER)
    q.put((NUMBER, STATE['n']))


def _inc(v, lock, times):
    for _ in range(times):
        if lock:
            with lock:
                v.value = v.value + 1
        else:
            v.value = v.value + 1


def _fail():
    raise ValueError('x')


def _exit3():
    sys.exit(3)


def _double(x):
    if x == 13:
        raise KeyError(x)
    return x * 2


def _remember(x):
    global NUMBER
    NUMBER += 1
    return NUMBER


def _init(x):
    global NUMBER
    NUMBER = x


def _take(q, out):
    try:
        out.put(q.get_nowait())
    except queue.Empty:
        out.put('empty')


class Counting(mp.Process):
    def __init__(self, q):
        mp.Process.__init__(self)
        self.q = q
        self.n = 0

    def run(self):
        self.n += 5
        self.q.put(self.n)


def run(*ps):
    for p in ps:
        p.start()
    for p in ps:
        p.join()


def fifo_of_one_process():
    q = mp.Queue()
    run(mp.Process(target=_put, args=(q, 1, 2)))
    return [q.get(), q.get()]


def two_producers():
    q = mp.Queue()
    a, b = mp.Process(target=_put, args=(q, 'a', 'b')), mp.Process(target=_put, args=(q, 'c'))
    a.start()
    b.start()
    got = [q.get() for _ in range(3)]
    a.join()
    b.join()
    return got


def pickled_when_delivered():
    q = mp.Queue()
    l = [1]
    q.put(l)
    l.append(2)
    return q.get()


def pickled_when_delivered_in_child():
    q = mp.Queue()
    p = mp.Process(target=_put_and_change, args=(q,))
    p.start()
    got = q.get()
    p.join()
    return got


def own_globals():
    q = mp.Queue()
    run(mp.Process(target=_change_globals, args=(q,)), mp.Process(target=_change_globals, args=(q,)))
    return [q.get(), q.get(), NUMBER, STATE['n'], STATE['l']]


def own_process_object():
    q = mp.Queue()
    p = Counting(q)
    p.start()
    p.join()
    return [q.get(), p.n]


def size_and_emptiness():
    q = mp.Queue()
    q.put(1)
    q.put(2)
    r = [q.qsize(), q.empty()]
    q.get()
    q.get()
    return r + [q.qsize(), q.empty()]


def get_nowait():
    q = mp.Queue()
    q.put(1)
    try:
        return q.get_nowait()
    except queue.Empty:
        return ['empty', q.get()]


def get_with_timeout():
    q = mp.Queue()
    try:
        return q.get(True, 0.01)
    except queue.Empty:
        return 'empty'


def race_for_one_item():
    q, out = mp.Queue(), mp.Queue()
    q.put('x')
    a, b = mp.Process(target=_take, args=(q, out)), mp.Process(target=_take, args=(q, out))
    a.start()
    b.start()
    got = sorted([out.get(), out.get()])
    a.join()
    b.join()
    return got


def lost_update():
    v = mp.Value('i', 0)
    run(mp.Process(target=_inc, args=(v, None, 2)), mp.Process(target=_inc, args=(v, None, 2)))
    return v.value


def locked_update():
    v, lock = mp.Value('i', 0), mp.Lock()
    run(mp.Process(target=_inc, args=(v, lock, 2)), mp.Process(target=_inc, args=(v, lock, 2)))
    return v.value


def lock_is_not_reentrant():
    lock = mp.Lock()
    lock.acquire()
    return [lock.acquire(False), mp.RLock().acquire(False)]


def exit_codes():
    ps = [mp.Process(target=_exit3), mp.Process(target=_double, args=(1,)), mp.Process(target=_fail)]
    run(*ps)
    return [p.exitcode for p in ps] + [p.is_alive() for p in ps]


def pool_unordered():
    with mp.Pool(2) as pool:
        return list(pool.imap_unordered(_double, [1, 2, 3]))


def pool_unordered_chunks():
    with mp.Pool(2) as pool:
        return list(pool.imap_unordered(_double, iter([1, 2, 3]), chunksize=2))


def pool_ordered():
    with mp.Pool(2) as pool:
        return [list(pool.imap(_double, [1, 2, 3])), pool.map(_double, [1, 2, 3]), pool.starmap(_double, [(4,), (5,)]),
                pool.apply(_double, (6,))]


def pool_error():
    got = []
    with mp.Pool(2) as pool:
        it = pool.imap_unordered(_double, [1, 13, 3])
        try:
            for x in it:
                got.append(x)
        except KeyError as e:
            return [sorted(got), repr(e.args)]
    return got


def pool_own_globals():
    with mp.Pool(2) as pool:
        return sorted(pool.imap_unordered(_remember, [0, 0, 0])) + [NUMBER]


def pool_initializer():
    with mp.Pool(2, initializer=_init, initargs=(10,)) as pool:
        return sorted(pool.map(_remember, [0, 0])) + [NUMBER]


def pool_lambda():
    with mp.Pool(1) as pool:
        try:
            return pool.map(lambda x: x, [1])
        except Exception:
            return 'refused'


def pool_closed():
    pool = mp.Pool(2)
    r = pool.map_async(_double, [1, 2, 3], 1)
    pool.close()
    pool.join()
    try:
        pool.map(_double, [1])
    except ValueError:
        return r.get()


PROGRAMS = [fifo_of_one_process, two_producers, pickled_when_delivered, pickled_when_delivered_in_child, own_globals,
            own_process_object, size_and_emptiness, get_nowait, get_with_timeout, race_for_one_item, lost_update, locked_update,
            lock_is_not_reentrant, exit_codes, pool_unordered, pool_unordered_chunks, pool_ordered, pool_error, pool_own_globals,
            pool_initializer, pool_lambda, pool_closed]


def modelled(program, bound):
    """-> (all outcomes in the controlled runtime, number of executions)"""
    import sim
    global NUMBER
    outcomes = set()

    def once(ch, skip):
        global NUMBER
        NUMBER = 0
        STATE.update(n=0, l=[])
        s = sim.Sim(ch)
        try:
            outcomes.add(repr(s.run(program)))
        except Exception as e:
            outcomes.add(f'{type(e).__name__}: {e}')

    n = sim.explore(once, bound)
    return outcomes, n


def real(names, repetitions, timeout=120):
    """-> {name: {outcome: how often}} with the processes of the operating system | None if there was no end"""
    import signal
    import subprocess
    p = subprocess.Popen([sys.executable, '-B', os.path.abspath(__file__), str(repetitions)] + list(names), stdin=subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, start_new_session=True)
    try:
        return json.loads(p.communicate(timeout=timeout)[0] or 'null')
    except subprocess.TimeoutExpired:
        return None
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()


def main():
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import core
    sys.path.insert(0, core.REPO)
    core.import_codeprep()
    import codeprep.api.corpus      # other modules change what can be pickled
    out = os.dup(1)
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 1)
    os.dup2(null, 2)
    res = {}
    for p in [p for p in PROGRAMS if p.__name__ in sys.argv[2:]]:
        for _ in range(int(sys.argv[1])):
            r = repr(p())
            d = res.setdefault(p.__name__, {})
            d[r] = d.get(r, 0) + 1
    with os.fdopen(out, 'w') as f:
        json.dump(res, f)


if __name__ == '__main__':
    main()
