"""Calls of the public text functions, in the terms of the specification (ref.Spec)."""
import os

import core
import ref

# name -> (mode of the specification, options of the specification, kind of the public function)
MODES = {
    'nosplit': ('nosplit', {}),
    'full': ('nosplit', {'full_strings': True}),
    'basic': ('basic', {}),
    'numbers': ('basic', {'split_numbers': True}),
    'ronin': ('basic', {'ronin': True}),
    'stem': ('basic', {'stem': True}),
    'nocase': ('basic', {'no_case': True}),
    'nocase-numbers': ('basic', {'no_case': True, 'split_numbers': True}),
    'nocase-ronin': ('basic', {'no_case': True, 'ronin': True}),
    'nocase-stem': ('basic', {'no_case': True, 'stem': True}),
    'chars': ('chars', {}),
    '1k': ('bpe', {}),
    '5k': ('bpe', {}),
    '10k': ('bpe', {}),
    'L': ('bpe', {}),
}
ALL = [m for m in MODES if m != 'L']
WORD_MODES = [m for m in ALL if MODES[m][0] == 'basic']
SUB_MODES = ['chars', '1k', '5k', '10k']

# codes learned by the check itself, from words which look like codeprep's own marks and escapes
LEARNED = 'L'
LEARNED_ID = 'learned-50'
LEARNED_TEXT = ''.join(
    f'x = "{w}" ;\n' * n for w, n in [
        ('</t>', 31), ('</t></t>', 3), ('a</t>', 9), ('@@', 27), ('@', 23), ('x@', 19), ('@x', 17), ('é@@é', 13), ('<w>', 11),
        ('</w>', 8), ('\\u0020', 7), (' ', 29), ('  a b', 14), ('\xf7', 12), ('\xa0b', 6), ('10L', 5), ('\t', 4), ("'", 3)]) \
    + 'fooBar foo_bar FOO föö aab aaab if_ 10 100 1010 ' * 5 + '\nif (x) return; // @ é </t> foo\n'


class Result:
    __slots__ = ('tokens', 'nonproc', 'bounds', 'types', 'meta')

    def __init__(self, tokens, nonproc, bounds, types, meta=None):
        self.tokens, self.nonproc, self.bounds, self.types, self.meta = tokens, nonproc, bounds, types, meta

    def full(self):
        return [self.tokens[a:b] for a, b in zip(self.bounds, self.bounds[1:])]

    def __repr__(self):
        return f'{self.tokens!a} bounds={self.bounds} types={self.types} nonprocessable={sorted(self.nonproc)!a}'


class Raised(Exception):
    pass


def learn(home):
    """Makes the codes of mode LEARNED available; to be called before codeprep is imported. -> the file with the merges"""
    from world import World, forked

    def job():
        w = World(home).setup()
        w.write('learned/x.py', LEARNED_TEXT.encode())
        w.tick()
        name, n = LEARNED_ID.split('-')
        w.simulate(lambda: w.cli('learn-bpe', n, '-p', w.path('learned'), '--id', name))

    if forked(job).ok:
        for root, _, files in os.walk(home):
            if 'merges.txt' in files:
                return os.path.join(root, 'merges.txt')


class Api:
    def __init__(self, learned=None):
        import codeprep.api.text as t
        self.learned = learned     # file with the merges of LEARNED
        self.t = t
        self.loaded = None
        self._bpe = {}

    def call(self, name, text, ext, opts, reinit=None):
        mode, fixed = MODES[name]
        kw = dict(fixed)
        kw.update(opts)
        try:
            with core.guard():
                if mode == 'bpe':
                    if reinit is None:
                        reinit = self.loaded != name
                    self.loaded = name
                    r = self.t.bpe(text, LEARNED_ID if name == LEARNED else name, ext, return_metadata=True, force_reinit_bpe_data=reinit, **kw)
                else:
                    if mode == 'chars':
                        self.loaded = 'chars'
                    r = getattr(self.t, mode)(text, ext, return_metadata=True, **kw)
        except core.Hang:
            raise Raised(f'{name}({text!a}, {ext!r}, {opts}) did not come to an end')
        except Exception as e:
            raise Raised(f'{name}({text!a}, {ext!r}, {opts}) raised {type(e).__name__}: {str(e)[:300]!a}')
        tokens, m = r
        return Result(tokens, set(m.nonprocessable_tokens), m.word_boundaries, [x.__name__ for x in m.token_types], m)

    def bpe(self, name):
        f = self._bpe.get(name)
        if f is None:
            path = self.learned if name == LEARNED else \
                os.path.join(core.REPO, 'codeprep', 'data', 'bpe', 'case', name, 'merges.txt')
            f = self._bpe[name] = ref.ref_bpe(ref.load_merges(path))
        return f

    def spec(self, name, text, ext, opts):
        mode, fixed = MODES[name]
        o = dict(fixed)
        o.update(opts)
        append_eof = o.pop('append_eof', False)
        s = ref.Spec(mode, o, self.bpe(name) if mode == 'bpe' else None)
        tokens, nonproc, bounds, types = s.run(text, ext, append_eof)
        return Result(tokens, nonproc, bounds, types)


def types_equal(a, b):
    return [ref.type_name(x) for x in a] == [ref.type_name(x) for x in b]
