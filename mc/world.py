"""A private world of datasets, caches and outputs, in which the corpus functions and the command line run under control."""
import contextlib
import io
import os
import pickle
import shutil
import stat
import sys

import core
import fsops
import sim

T0 = 1_600_000_000


class Outcome:
    """How a call ended: 'ok' value | 'raised' text | 'exit' code | 'crash' | 'died' status | 'hang'"""

    def __init__(self, kind, value=None):
        self.kind, self.value = kind, value

    def __repr__(self):
        return f'{self.kind}: {self.value!a}'[:700]

    @property
    def ok(self):
        return self.kind == 'ok'


def forked(fn, timeout=core.CASE_TIMEOUT):
    """Runs fn in a child process. -> Outcome"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            with core.guard(timeout):
                out = attempt(fn)
            data = pickle.dumps((out.kind, out.value))
        except core.Hang:
            data = pickle.dumps(('hang', f'no end within {timeout} s'))
        except BaseException as e:
            data = pickle.dumps(('raised', repr(e)))
        with fsops._real['open'](w, 'wb') as f:
            f.write(data)
        os._exit(0)
    os.close(w)
    with fsops._real['open'](r, 'rb') as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if os.WIFEXITED(status) and os.WEXITSTATUS(status) == fsops.CRASH_STATUS:
        return Outcome('crash')
    if not data:
        return Outcome('died', status)
    return Outcome(*pickle.loads(data))


def attempt(fn):
    try:
        return Outcome('ok', fn())
    except core.Hang:
        raise
    except SystemExit as e:
        return Outcome('exit', e.code)
    except sim.Deadlock as e:
        return Outcome('raised', f'Deadlock: {e}')
    except Exception as e:
        import traceback
        where = traceback.extract_tb(e.__traceback__)[-1]
        return Outcome('raised', f'{type(e).__name__}: {str(e)[:300]} at {os.path.basename(where.filename)}:{where.name}')


class World:
    def __init__(self, home):
        """`home` is the HOME with which codeprep is imported"""
        self.home = home
        self.root = os.path.join(home, 'world')
        os.makedirs(self.root, exist_ok=True)
        self.fs = fsops.Fs(home)
        self.keep = set(os.listdir(home))
        self.procs = None

    def setup(self, install=True):
        import stubs
        stubs.install_progress()
        sim.install_classes()
        core.import_codeprep()
        import codeprep.api.corpus
        import codeprep.api.text
        import codeprep.cli.spec
        self.corpus = codeprep.api.corpus
        self.text = codeprep.api.text
        self.cli_main = codeprep.cli.spec.parse_and_run
        self.keep = set(os.listdir(self.home))
        if install:
            self.fs.install()
        return self

    # --- files

    def wipe(self):
        """Everything gone: datasets, outputs, caches, learned codes."""
        on, self.fs.on_point = self.fs.on_point, None
        fsops.Fs.uninstall()
        try:
            for n in os.listdir(self.home):
                p = os.path.join(self.home, n)
                if os.path.isdir(p) and not os.path.islink(p):
                    shutil.rmtree(p)
                else:
                    os.remove(p)
            os.makedirs(self.root)
        finally:
            self.fs.install()
            self.fs.on_point = on
        self.fs.reset()
        self.fs.clock = T0

    def path(self, name):
        return os.path.join(self.root, name)

    def tick(self, seconds=10):
        self.fs.clock += seconds

    def write(self, rel, data):
        """Creates or replaces a file of the user's, as any program would."""
        p = os.fsencode(self.path(rel)) if isinstance(rel, str) else os.path.join(os.fsencode(self.root), rel)
        d = os.path.dirname(p)
        missing = []
        while not os.path.isdir(d):
            missing.append(d)
            d = os.path.dirname(d)
        for m in reversed(missing):
            fsops._real['mkdir'](m)
            self.fs.stamp(m)
        new = not os.path.lexists(p)
        with fsops._real['open'](p, 'wb') as f:
            f.write(data)
        self.fs.stamp(p, parent=new)

    def remove(self, rel):
        p = self.path(rel)
        if os.path.isdir(p) and not os.path.islink(p):
            fsops.Fs.uninstall()
            shutil.rmtree(p)
            self.fs.install()
        else:
            fsops._real['remove'](p)
        self.fs.stamp(os.path.dirname(p), False)

    def rename(self, rel, new):
        a, b = self.path(rel), self.path(new)
        fsops._real['rename'](a, b)
        self.fs.stamp(os.path.dirname(a), False)
        self.fs.stamp(os.path.dirname(b), False)

    def tree(self, path, names_only=False):
        """-> {relative path (latin1): bytes} of all regular files below"""
        out = {}
        bpath = os.fsencode(path)
        if not os.path.isdir(bpath):
            return out
        for root, dirs, files in os.walk(bpath):
            for f in files:
                p = os.path.join(root, f)
                rel = os.path.relpath(p, bpath).decode('latin1')
                if names_only:
                    out[rel] = None
                else:
                    with fsops._real['open'](p, 'rb') as fh:
                        out[rel] = fh.read()
        return out

    def save(self):
        """-> a copy of all files with their times"""
        snap = []
        for root, dirs, files in os.walk(os.fsencode(self.home)):
            st = os.stat(root)
            snap.append((root, None, None, st.st_mtime))
            for n in dirs + files:
                p = os.path.join(root, n)
                if os.path.islink(p):
                    snap.append((p, 'link', os.readlink(p), 0))
            for n in files:
                p = os.path.join(root, n)
                if not os.path.islink(p):
                    with fsops._real['open'](p, 'rb') as fh:
                        snap.append((p, 'file', fh.read(), os.stat(p).st_mtime))
        return snap, self.fs.clock

    def restore(self, saved):
        snap, clock = saved
        self.wipe()
        bhome = os.fsencode(self.home)
        for p, kind, data, t in snap:
            if kind is None and p != bhome and not os.path.isdir(p):
                fsops._real['mkdir'](p)
        for p, kind, data, t in snap:
            if kind == 'file':
                with fsops._real['open'](p, 'wb') as fh:
                    fh.write(data)
                fsops._real['utime'](p, (t, t))
            elif kind == 'link':
                fsops._real['symlink'](data, p)
        for p, kind, data, t in reversed(snap):
            if kind is None:
                fsops._real['utime'](p, (t, t))
        self.fs.clock = clock

    # --- running

    def simulate(self, fn, chooser=None, fs_points=False, **kw):
        """Runs fn as the main process of a simulation. -> (result of fn, Sim)"""
        s = sim.Sim(chooser or sim.Chooser(), **kw)
        s.clock = float(self.fs.clock)
        self.fs.on_point = (lambda kind, what: s.point(kind, what)) if fs_points else None
        try:
            return s.run(lambda: self.quiet(fn)), s
        finally:
            self.fs.on_point = None

    @staticmethod
    def quiet(fn):
        with contextlib.redirect_stdout(io.StringIO()):
            return fn()

    def cli(self, *args):
        """Runs a command. -> what it printed"""
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            try:
                self.cli_main(list(args))
            except SystemExit as e:
                if e.code not in (0, None):
                    raise
        return out.getvalue()

    def forget(self):
        """What a new process would not know."""
        import codeprep.pipeline.to_repr as m
        m.__dict__.pop('global_bpe_data', None)
