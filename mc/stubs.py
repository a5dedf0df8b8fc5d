"""Stand-ins for what is not installed in the sandbox."""
import sys
import types


def ronin_stub_split(s):
    """A stand-in for spiral.ronin.split: lossless, splits every run of four or more characters after the third one."""
    res = []
    while len(s) > 3:
        res.append(s[:3])
        s = s[3:]
    return res + [s] if s else res


def install():
    spiral = types.ModuleType('spiral')
    ronin = types.ModuleType('spiral.ronin')
    ronin.split = ronin_stub_split
    spiral.ronin = ronin
    sys.modules['spiral'] = spiral
    sys.modules['spiral.ronin'] = ronin


class Progress:
    """A stand-in for tqdm: shows nothing, starts no thread."""

    def __init__(self, iterable=None, *args, **kw):
        self.iterable = iterable
        self.n = 0

    def __iter__(self):
        return iter(self.iterable)

    def __len__(self):
        return len(self.iterable)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def update(self, n=1):
        self.n += n

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        return lambda *a, **kw: None


def install_progress():
    import tqdm
    tqdm.tqdm = Progress
    tqdm.trange = lambda *a, **kw: Progress(range(*a), **kw)
    tqdm.auto = types.ModuleType('tqdm.auto')
    tqdm.auto.tqdm = Progress
    tqdm.auto.trange = tqdm.trange
    sys.modules['tqdm.auto'] = tqdm.auto
