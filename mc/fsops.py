"""
Every operation of the code under test which changes the file system passes through here.

It gives the explorer the points at which a run can be cut off (with every torn-write variant), the scheduler its
scheduling points, and the files virtual modification times, so that nothing depends on how fast the check runs.
"""
import builtins
import io
import os
import pathlib
import shutil

_real_rmtree = shutil.rmtree
_real = {
    'open': io.open, 'mkdir': os.mkdir, 'rename': os.rename, 'replace': os.replace, 'remove': os.remove,
    'unlink': os.unlink, 'rmdir': os.rmdir, 'link': os.link, 'symlink': os.symlink, 'utime': os.utime,
    'truncate': os.truncate, 'ftruncate': os.ftruncate, 'listdir': os.listdir, 'scandir': os.scandir,
    'os.open': os.open,
}
_accessor = vars(getattr(pathlib, '_NormalAccessor', object))            # (it keeps the functions of the module os)
PATHLIB = {k: _accessor[k] for k in ('listdir', 'scandir', 'mkdir', 'unlink', 'rmdir', 'rename', 'replace', 'open')
           if k in _accessor}
CRASH_STATUS = 77

FS = None  # the installed instance


def cuts(size, data, old=0):
    """The prefixes of a written file which can be left behind: nothing, the file up to a line end, a torn line, all but
    the last byte. What comes after `old` bytes was written now."""
    n = size - old
    out = [old]
    if n > 1:
        out.append(old + n // 2)
    if n > 2:
        out.append(size - 1)
    i = data.rfind(b'\n', old, size - 1)
    if i >= 0:
        out.append(i + 1)
        j = data.find(b'\n', old, i)
        if j >= 0:
            out.append(j + 1)
    res = []
    for c in out:
        if c not in res and c < size:
            res.append(c)
    return res


class Fault(OSError):
    pass


class Written:
    """A file opened for writing."""

    def __init__(self, fs, f, path, mode, old):
        self.__dict__.update(_fs=fs, _f=f, _path=path, _mode=mode, _old=old, _closed=False)

    def __getattr__(self, name):
        return getattr(self._f, name)

    def __setattr__(self, name, value):
        setattr(self._f, name, value)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        return iter(self._f)

    def __next__(self):
        return next(self._f)

    def write(self, s):
        return self._f.write(s)

    def writelines(self, lines):
        return self._f.writelines(lines)

    def flush(self):
        return self._f.flush()

    def close(self):
        if self._closed:
            return
        self.__dict__['_closed'] = True
        self._fs.opened.pop(id(self), None)
        try:
            self._fs.closing(self)
        finally:
            self._f.close()
            self._fs.stamp(self._path)


class Entries:
    def __init__(self, entries):
        self.it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


class Fs:
    """mode: None - only record; 'crash' - leave the process at operation number `at`; 'fault' - raise there, and leave the process
    at a later operation if `then` is given."""

    def __init__(self, root):
        self.root = os.path.realpath(root)
        self.broot = os.fsencode(self.root)
        self.scratch = os.fsencode(os.path.dirname(self.root))
        self.reset()
        self.clock = 1_600_000_000
        self.on_point = None
        self.opened = {}        # files open for writing
        self.reverse = False    # the order in which directories are listed

    def reset(self, mode=None, at=None, variant=0, then=None):
        self.mode, self.at, self.variant, self.then = mode, at, variant, then
        self.n = 0
        self.log = []

    def inside(self, path, dir_fd=None):
        if dir_fd is not None:
            return True
        try:
            p = os.fsencode(path)
        except TypeError:
            return False
        if not p.startswith(b'/'):
            p = os.path.join(os.getcwdb(), p)
        return p.startswith(self.broot + b'/')

    def contain(self, path):
        """Nothing outside of the scratch folder is changed, whatever the code under test does"""
        try:
            p = os.path.normpath(os.path.join(os.getcwdb(), os.fsencode(path)))
        except TypeError:
            return
        if not p.startswith(self.scratch + b'/') and not p.startswith(b'/dev/'):
            raise PermissionError(1, 'outside of the scratch folder', os.fsdecode(p))

    def rmtree(self, path, *args, **kw):
        self.contain(path)
        return _real_rmtree(path, *args, **kw)

    def stamp(self, path, parent=True):
        for p in ([path, os.path.dirname(path)] if parent else [path]):
            try:
                if p:
                    _real['utime'](p, (self.clock, self.clock))
            except (OSError, TypeError):
                pass

    # --- points

    def point(self, kind, path, variants=1):
        """-> the variant with which the run ends here, or None"""
        if self.on_point is not None:
            self.on_point('fs', path)
        i = self.n
        self.n += 1
        self.log.append((kind, self.name(path), variants))
        if self.mode is not None and i == self.at:
            return self.variant
        return None

    def name(self, path):
        try:
            p = os.fsencode(path)
        except TypeError:
            return repr(path)
        if p.startswith(self.broot):
            p = p[len(self.broot):]
        return p.decode('latin1')

    def end(self):
        if self.mode == 'crash':
            os._exit(CRASH_STATUS)
        self.mode = None
        if self.then is not None:
            self.mode, (self.at, self.variant), self.then = 'crash', self.then, None
        raise Fault(28, 'No space left on device (injected)')

    def closing(self, w):
        data, old = b'', w._old
        size = 0
        try:
            w._f.flush()
            with _real['open'](w._path, 'rb') as f:
                data = f.read()
            size = len(data)
        except (OSError, ValueError):
            pass
        cs = cuts(size, data, old if old <= size else 0)
        v = self.point('write', w._path, max(1, len(cs)))
        if v is not None:
            if cs:
                try:
                    _real['truncate'](w._path, cs[v % len(cs)])
                except OSError:
                    pass
            if self.mode == 'fault':
                w._f.close()
            self.end()

    # --- the replaced functions

    def listdir(self, path='.'):
        return sorted(_real['listdir'](path), reverse=self.reverse)

    def scandir(self, path='.'):
        it = _real['scandir'](path)
        with it:
            entries = sorted(it, key=lambda e: e.name, reverse=self.reverse)
        return Entries(entries)

    def open(self, file, mode='r', *args, **kw):
        if isinstance(file, int) or not any(c in mode for c in 'wax+'):
            return _real['open'](file, mode, *args, **kw)
        if not self.inside(file):
            self.contain(file)
            return _real['open'](file, mode, *args, **kw)
        path = os.path.abspath(os.fspath(file))
        if self.on_point is not None:
            self.on_point('fs', path)
        old = 0
        if 'w' not in mode and os.path.exists(path):
            old = os.path.getsize(path)
        f = _real['open'](file, mode, *args, **kw)
        self.stamp(path)
        w = Written(self, f, path, mode, old)
        self.opened[id(w)] = w
        return w

    def os_open(self, path, flags, *args, **kw):
        if not flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC) or kw.get('dir_fd') is not None:
            return _real['os.open'](path, flags, *args, **kw)
        if not self.inside(path):
            self.contain(path)
            return _real['os.open'](path, flags, *args, **kw)
        if self.on_point is not None:
            self.on_point('fs', os.path.abspath(os.fspath(path)))
        new = not os.path.lexists(path)
        fd = _real['os.open'](path, flags, *args, **kw)
        self.stamp(path, new)
        return fd

    def renamed(self, src, dst):
        try:
            src, dst = (os.path.abspath(os.fsdecode(p)) for p in (src, dst))
        except TypeError:
            return
        for w in self.opened.values():
            p = os.path.abspath(os.fsdecode(w._path))
            if p == src or p.startswith(src + '/'):
                w.__dict__['_path'] = os.fsencode(dst + p[len(src):])

    def simple(self, kind):
        real = _real[kind]

        def fn(path, *args, **kw):
            if not self.inside(path, kw.get('dir_fd')):
                self.contain(path)
                return real(path, *args, **kw)
            if self.point(kind, path) is not None:
                self.end()
            r = real(path, *args, **kw)
            if kw.get('dir_fd') is None:
                self.stamp(path, True) if kind == 'mkdir' else self.stamp(os.path.dirname(path), False)
            return r
        return fn

    def double(self, kind):
        real = _real[kind]

        def fn(src, dst, *args, **kw):
            if kw.get('dst_dir_fd') is None:
                self.contain(dst)
            if not self.inside(dst) and not self.inside(src):
                return real(src, dst, *args, **kw)
            if self.point(kind, dst) is not None:
                self.end()
            r = real(src, dst, *args, **kw)
            if self.opened and kind in ('rename', 'replace'):
                self.renamed(src, dst)
            self.stamp(os.path.dirname(src), False)
            self.stamp(os.path.dirname(dst), False)
            return r
        return fn

    def install(self):
        global FS
        FS = self
        builtins.open = io.open = self.open
        for k in ('mkdir', 'remove', 'unlink', 'rmdir'):
            setattr(os, k, self.simple(k))
        for k in ('rename', 'replace', 'link', 'symlink'):
            setattr(os, k, self.double(k))
        os.listdir, os.scandir = self.listdir, self.scandir
        os.open = self.os_open
        shutil.rmtree = self.rmtree
        for k in PATHLIB:
            setattr(pathlib._NormalAccessor, k, staticmethod(getattr(os, k)))

    @staticmethod
    def uninstall():
        global FS
        FS = None
        builtins.open = io.open = _real['open']
        for k in ('mkdir', 'remove', 'unlink', 'rmdir', 'rename', 'replace', 'link', 'symlink', 'listdir',
                  'scandir'):
            setattr(os, k, _real[k])
        os.open = _real['os.open']
        for k in PATHLIB:
            setattr(pathlib._NormalAccessor, k, PATHLIB[k])
        shutil.rmtree = _real_rmtree
