"""
Shared frame of all checks: exhaustive enumeration of a bounded space, split over forked workers.

A check module exposes `CHECKS`: a dict from property id to a Check subclass. A Check enumerates its whole bounded
space (`units(tier)` is a deterministic list of work units; `run_unit(unit, rec)` explores one unit completely), so that
what is explored does not depend on the number of workers, on timing or on the seed. The seed only rotates the order in
which the units are handed out.
"""
import hashlib
import importlib
import json
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CODEPREP_REPO', '/repo')
EVIDENCE = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
KNOWN = os.path.join(VERIF, 'known_findings.json')
FIRST = bool(os.environ.get('MC_FIRST'))    # for development: stop at the first violation
MAX_VIOLATIONS_PER_WORKER = 1 if FIRST else 3
CASE_TIMEOUT = 60

MODULES = {}


def modules():
    with open(os.path.join(VERIF, 'mc', 'checks.json')) as f:
        return json.load(f)


class Hang(BaseException):
    pass


def _on_alarm(signum, frame):
    raise Hang()


def h64(obj) -> int:
    if not isinstance(obj, bytes):
        obj = repr(obj).encode('utf-8', 'surrogatepass')
    return int.from_bytes(hashlib.blake2b(obj, digest_size=8).digest(), 'big')


class Recorder:
    """What one worker did. Everything in it is measured while exploring."""

    def __init__(self):
        self.evaluations = 0
        self.distinct = set()
        self.outcomes = set()
        self.samples = []
        self.violations = []
        self.known = {}
        self.counters = {}
        self.stop = False
        self.known_sigs = set()
        self.progress = None

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def nontrivial(self, key):
        self.distinct.add(h64(key))

    def outcome(self, key):
        self.outcomes.add(h64(key))

    def sample(self, case, limit=4):
        if len(self.samples) < limit:
            self.samples.append(case)

    def violation(self, case, msg, sig=None):
        """`sig` identifies the failing input / call site / history; listed signatures are findings, not alarms."""
        if sig is not None and sig in self.known_sigs:
            self.known[sig] = self.known.get(sig, 0) + 1
            return
        self.violations.append({'case': case, 'message': msg, 'signature': sig})
        if len(self.violations) >= MAX_VIOLATIONS_PER_WORKER:
            self.stop = True


class Check:
    id = None
    level = 'exploration'
    rule = ''
    assumptions = []
    exhaustive = True
    workers = 8
    needs_home = True

    def setup(self, home):
        """Called once per worker, before the first unit, with a private HOME."""

    def units(self, tier):
        raise NotImplementedError

    def arrange(self, unit):
        """Before a unit"""

    def run_unit(self, unit, rec):
        raise NotImplementedError

    def replay(self, case, rec):
        """Runs exactly one recorded case."""
        self.run_unit(case['unit'], rec)

    def extra_coverage(self, rec, tier):
        return {}


def prepare_env(home):
    os.makedirs(home, exist_ok=True)
    os.environ['HOME'] = home
    os.environ['TMPDIR'] = home
    tempfile.tempdir = home
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter('ignore')


def import_codeprep():
    import stubs
    stubs.install()
    import logging
    import codeprep
    logging.disable(logging.CRITICAL)
    if not os.path.realpath(codeprep.__file__).startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f'codeprep imported from {codeprep.__file__}, not from {REPO}')


class guard:
    """Turns a case which does not come to an end into a Hang exception."""

    def __init__(self, seconds=CASE_TIMEOUT):
        self.seconds = seconds

    def __enter__(self):
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        return False


def raised_by_code(e):
    """Did the exception come out of the code under test (rather than out of the check)?"""
    inside = os.path.realpath(os.path.join(REPO, 'codeprep')) + os.sep
    tb = e.__traceback__
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(inside):
            return True
        tb = tb.tb_next
    return False


def _silence():
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 1)
    if not os.environ.get('MC_DEBUG'):
        os.dup2(null, 2)


def taken(units, queue):
    while True:
        b = os.read(queue, 4)
        if len(b) < 4:
            return
        yield units[int.from_bytes(b, 'big')]


def worker(check, units, scratch, idx, out_path, unit_path, known_sigs):
    os.setpgid(0, 0)
    _silence()
    signal.signal(signal.SIGALRM, _on_alarm)
    rec = Recorder()
    rec.known_sigs = known_sigs
    error = None
    unit = None
    try:
        home = os.path.join(scratch, f'w{idx}')
        prepare_env(home)
        check.setup(home)
        for unit in units:
            with open(unit_path, 'w') as f:
                f.write(json.dumps(unit))
            try:
                check.arrange(unit)
                check.run_unit(unit, rec)
            except Hang:
                signal.setitimer(signal.ITIMER_REAL, 0)
                rec.violation({'unit': unit}, f'no end within {CASE_TIMEOUT} s')
            except Exception as e:
                signal.setitimer(signal.ITIMER_REAL, 0)
                if not raised_by_code(e):
                    raise
                rec.violation({'unit': unit}, 'the code under test raised ' + traceback.format_exc()[-500:])
            if rec.stop:
                break
    except BaseException:
        signal.setitimer(signal.ITIMER_REAL, 0)
        error = traceback.format_exc()
    with open(out_path + '.tmp', 'wb') as f:
        pickle.dump((rec, error), f)
    os.rename(out_path + '.tmp', out_path)
    os._exit(0)


def load_known(pid):
    try:
        with open(KNOWN) as f:
            entries = json.load(f)['findings']
    except FileNotFoundError:
        return {}
    return {e['signature']: e['what'] for e in entries if e['property'] == pid}


def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    check = importlib.import_module(modules()[pid]).CHECKS[pid]()
    check.id = pid
    check.tier = tier
    known = load_known(pid)
    scratch = tempfile.mkdtemp(prefix=f'mc-{pid}-', dir=scratch_root())
    try:
        return _run(check, pid, tier, seed, known, scratch, argv, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def scratch_root():
    """A folder in memory if there is one"""
    try:
        st = os.statvfs('/dev/shm')
        if os.access('/dev/shm', os.W_OK) and st.f_bavail * st.f_frsize > 2 << 30:
            return '/dev/shm'
    except OSError:
        pass
    return '/tmp'


def _run(check, pid, tier, seed, known, scratch, argv, t0):
    if '--replay' in argv:
        with open(argv[argv.index('--replay') + 1]) as f:
            case = json.load(f)['case']
        signal.signal(signal.SIGALRM, _on_alarm)
        prepare_env(os.path.join(scratch, 'replay'))
        out = os.dup(1)
        _silence()
        rec = Recorder()
        rec.known_sigs = set(known)
        check.setup(os.path.join(scratch, 'replay'))
        check.arrange(case.get('unit'))
        check.replay(case, rec)
        os.dup2(out, 1)
        for v in rec.violations:
            print('REPRODUCED', json.dumps(v['case'], ensure_ascii=True), v['message'])
        print(f'{len(rec.violations)} violation(s), {sum(rec.known.values())} listed')
        return 1 if rec.violations else 0

    prepare_env(os.path.join(scratch, 'parent'))
    units = check.units(tier)
    n_units = len(units)
    k = seed % n_units if n_units else 0
    units = units[k:] + units[:k]
    n = min(check.workers, max(1, n_units))
    procs = {}
    # every worker takes the next unit from a pipe that holds all the numbers
    queue = None
    if 4 * n_units <= 60000:
        queue, feed = os.pipe()
        os.write(feed, b''.join(i.to_bytes(4, 'big') for i in range(n_units)))
        os.close(feed)
    for i in range(n):
        out_path = os.path.join(scratch, f'out{i}')
        unit_path = os.path.join(scratch, f'unit{i}')
        pid_ = os.fork()
        if pid_ == 0:
            worker(check, units[i::n] if queue is None else taken(units, queue), scratch, i, out_path, unit_path, set(known))
        procs[pid_] = (i, out_path, unit_path)
    if queue is not None:
        os.close(queue)

    total = Recorder()
    errors = []
    while procs:
        p, status = os.wait()
        if p not in procs:
            continue
        i, out_path, unit_path = procs.pop(p)
        try:
            os.killpg(p, signal.SIGKILL)
        except OSError:
            pass
        if not os.path.exists(out_path):
            unit = None
            if os.path.exists(unit_path):
                with open(unit_path) as f:
                    unit = json.load(f)
            if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGKILL:
                errors.append(f'worker {i} was killed while exploring {unit}')
            else:
                total.violations.append({'case': {'unit': unit}, 'signature': None,
                                         'message': f'the process died (status {status})'})
            continue
        with open(out_path, 'rb') as f:
            rec, error = pickle.load(f)
        if error:
            errors.append(error)
        total.evaluations += rec.evaluations
        total.distinct |= rec.distinct
        total.outcomes |= rec.outcomes
        total.violations += rec.violations
        for s in rec.samples:
            total.sample(s, 8)
        for s, c in rec.known.items():
            total.known[s] = total.known.get(s, 0) + c
        for name, c in rec.counters.items():
            total.count(name, c)
        if FIRST and total.violations:
            for q in procs:
                os.killpg(q, signal.SIGKILL)
                os.waitpid(q, 0)
            break

    for e in errors:
        print(e, file=sys.stderr)

    coverage = {
        'evaluations': total.evaluations,
        'distinct_nontrivial': len(total.distinct),
        'distinct_outcomes': len(total.outcomes),
        'rule': check.rule,
        'samples': total.samples,
        'work_units': n_units,
        'exhaustive': bool(check.exhaustive and not errors and not total.violations),
    }
    coverage.update({f'n_{k}': v for k, v in sorted(total.counters.items())})
    coverage.update(check.extra_coverage(total, tier))
    if total.known:
        coverage['listed_findings_seen'] = total.known
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': check.level, 'coverage': coverage,
        'assumptions': list(check.assumptions), 'wall_s': round(time.time() - t0, 2),
        'violations': len(total.violations),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    path = os.path.join(EVIDENCE, f'{pid}.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
        f.write('\n')
    os.rename(path + '.tmp', path)

    for sig in sorted(total.known):
        print(f'KNOWN-FINDING: property={pid} {known[sig]}')
    if total.violations:
        os.makedirs(os.path.join(EVIDENCE, 'replays'), exist_ok=True)
        total.violations.sort(key=lambda v: len(json.dumps(v['case'])))
        for i, v in enumerate(total.violations[:5]):
            replay = os.path.join(EVIDENCE, 'replays', f'{pid}-{i}.json')
            with open(replay, 'w') as f:
                json.dump({'property': pid, **v}, f, indent=1)
                f.write('\n')
            if i == 0:
                print(f'VIOLATION property={pid} replay={replay}')
            print(f'  {v["message"][:600]!a}\n  case: {json.dumps(v["case"])[:600]}'
                  + (f'\n  signature: {v["signature"]!a}' if v['signature'] else ''))
        return 1
    if errors:
        return 2
    print(f'OK property={pid} tier={tier} evaluations={total.evaluations} distinct={len(total.distinct)} '
          f'outcomes={len(total.outcomes)} wall={time.time() - t0:.1f}s')
    return 0
