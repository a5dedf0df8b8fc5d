"""Checks of the text functions: every text of a bounded space, in every mode, with every listed option combination."""
import re

import core
import ref
import textapi
import texts
from textapi import LEARNED, MODES, Raised, WORD_MODES, types_equal

ALL = textapi.ALL + [LEARNED]
SUB_MODES = textapi.SUB_MODES + [LEARNED]

MARK = '</t>'
SPACES = {'NewLine', 'Tab'}
WHOLE = {'KeyWord', 'Operator', 'NonCodeChar', 'NewLine', 'Tab', 'Semicolon', 'OpeningBracket', 'ClosingBracket',
         'OpeningCurlyBracket', 'ClosingCurlyBracket', 'SpecialToken'}
SINGLE_OPTS = [{}, {'no_spaces': True}, {'no_unicode': True}, {'no_com': True}, {'no_str': True}, {'max_str_length': 5}]


def product_opts():
    out = []
    for sp in (0, 1):
        for u in (0, 1):
            for c in (0, 1):
                for s in (0, 1):
                    for m in (None, 0, 6):
                        o = {}
                        if sp:
                            o['no_spaces'] = True
                        if u:
                            o['no_unicode'] = True
                        if c:
                            o['no_com'] = True
                        if s:
                            o['no_str'] = True
                        if m is not None:
                            o['max_str_length'] = m
                        out.append(o)
    return out


PRODUCT_OPTS = product_opts()


def per_range(modes, opts, hi, step, prefix='unicode'):
    return [(d, modes, opts) for d in texts.unicode_ranges(hi, step, prefix)]


def join(sub):
    """The full token a list of subtokens stands for."""
    s = ''.join(sub)
    return s[:-len(MARK)] if s.endswith(MARK) else s


WORD = re.compile(r'\w+')


def blank(c):
    return c.isspace() or not c.strip() or '\x1c' <= c <= '\x1f'


def visible(s):
    return ''.join(s.split()) if s.isascii() and not ('\x1c' in s or '\x1d' in s or '\x1e' in s or '\x1f' in s) \
        else ''.join([c for c in s if not blank(c)])


def unwrapped(sub):
    return sub[1:-1] if len(sub) > 1 and sub[0] == '<w>' and sub[-1] == '</w>' else sub


class TextCheck(core.Check):
    spaces = {}
    shard_size = 1500

    def setup(self, home):
        learned = textapi.learn(home)
        core.import_codeprep()
        self.api = textapi.Api(learned)
        self._base = (None, None)

    def units(self, tier):
        out = []
        spaces = self.spaces[tier] if tier in self.spaces else self.spaces['quick']
        for i, (dom, modes, opts) in enumerate(spaces):
            n = max(1, len(texts.domain(dom)) * len(opts) // self.shard_size)
            for mode in modes:
                for shard in range(n):
                    out.append([dom, mode, opts, shard, n])
        # spread the expensive domains over the workers
        out.sort(key=lambda u: (u[3], u[1], u[0]))
        return out

    def run_unit(self, unit, rec):
        dom, mode, opts, shard, n = unit
        if mode == LEARNED and not self.api.learned:
            rec.count('units_without_learned_codes')
            return
        if MODES[mode][0] == 'bpe':
            self.api.loaded = None
        for text, ext in texts.domain(dom)[shard::n]:
            for o in opts:
                self.one(text, ext, mode, o, rec)
                if rec.stop:
                    return

    def one(self, text, ext, mode, o, rec):
        rec.evaluations += 1
        try:
            r = self.case(text, ext, mode, o, rec)
        except Raised as e:
            r = (str(e), None)
        if r is None:
            return
        if r == 'skip':
            rec.count('skipped_because_of_another_property')
            return
        msg, sig = r if isinstance(r, tuple) else (r, None)
        rec.violation({'text': text, 'ext': ext, 'mode': mode, 'opts': o}, msg, sig)

    def replay(self, case, rec):
        if 'unit' in case:
            return self.run_unit(case['unit'], rec)
        self.one(case['text'], case['ext'], case['mode'], case['opts'], rec)

    # helpers for the oracles
    def base(self, mode, text, ext, opts=None):
        key = (mode, text, ext, repr(opts))
        k, v = self._base
        if k == key:
            if isinstance(v, Raised):
                raise v
            return v
        try:
            v = self.api.call(mode, text, ext, opts or {})
        except Raised as e:
            self._base = (key, e)
            raise
        self._base = (key, v)
        return v

    def base_ok(self, mode, text, ext):
        """Does the implementation agree with the specification when the options in question are not used?"""
        try:
            r = self.base(mode, text, ext)
        except Raised:
            return False
        s = self.api.spec(mode, text, ext, {})
        return r.tokens == s.tokens and r.bounds == s.bounds

    def note(self, rec, cond, text, ext, mode, o, r):
        if cond:
            rec.nontrivial((text, ext, mode, sorted(o.items())))
            rec.sample({'text': text, 'ext': ext, 'mode': mode, 'opts': o, 'tokens': r.tokens[:40]})
        rec.outcome(r.tokens)


def diff(got, want):
    return f'got {got!r}, expected {want!r}'


# ---------------------------------------------------------------------------------------------------------------------

class Conservation(TextCheck):
    rule = ('every text of the listed spaces, unsplit with and without whole string literals; non-trivial: at least two '
            'non-blank characters; the tokens are aligned with the source character by character')
    spaces = {
        'quick': [('empty', ['nosplit', 'full'], [{}]), ('raw', ['nosplit'], [{}]), ('pairs', ['nosplit', 'full'], [{}]),
                  ('langs', ['nosplit', 'full'], [{}]), ('chars4', ['nosplit', 'full'], [{}]),
                  ('num5', ['nosplit'], [{}]), ('triples', ['nosplit', 'full'], [{}]), ('strs4', ['nosplit', 'full'], [{}]),
                  ('coms3', ['nosplit', 'full'], [{}]), ('kinds', ['nosplit', 'full'], [{}]), ('uclass', ['nosplit', 'full'], [{}]),
                  ('uclass2', ['nosplit', 'full'], [{}])]
                 + per_range(['nosplit', 'full'], [{}], 0x3000, 0x1000),
        'thorough': [('raw', ['nosplit'], [{}]), ('pairs', ['nosplit', 'full'], [{}]), ('langs', ['nosplit', 'full'], [{}]),
                     ('alllangs', ['nosplit', 'full'], [{}]),
                     ('chars5', ['nosplit', 'full'], [{}]), ('num7', ['nosplit'], [{}]), ('quads', ['nosplit', 'full'], [{}]),
                     ('btriples', ['nosplit', 'full'], [{}]), ('strs5', ['nosplit', 'full'], [{}]),
                     ('coms4', ['nosplit', 'full'], [{}]), ('kinds2', ['nosplit', 'full'], [{}]), ('uclass2', ['nosplit', 'full'], [{}])]
                    + per_range(['nosplit', 'full'], [{}], 0x110000, 0x4000),
    }

    def case(self, text, ext, mode, o, rec):
        if ext == 'raw':
            try:
                r = self.base(mode, text, ext)
                if visible(''.join(r.tokens)) == visible(text):
                    return
                msg = f'tokens: {r.tokens!a}'
            except Raised as e:
                msg = str(e)
            return msg, f'extension raw, {"ASCII" if text.isascii() else "not ASCII"}'
        r = self.base(mode, text, ext)
        src = visible(text)
        if src.startswith('\ufeff'):
            src = src[1:]
        i = 0
        for sub, t in zip(r.full(), r.types):
            whole = ''.join(sub)
            if whole == '<EOL>' and t == 'OneLineComment':
                continue
            tok = visible(whole)
            n = len(tok)
            if src[i:i + n] != tok:
                # numbers are written in lower case
                low = [t in ('Number', 'Zero', 'One')] * len(whole)
                for m in WORD.finditer(whole):
                    if ref.is_number(m.group()):
                        low[m.start():m.end()] = [True] * len(m.group())
                low = [x for x, c in zip(low, whole) if not blank(c)]
                if len(src) < i + n or any(c != s and not (x and s.lower() == c) for c, s, x in zip(tok, src[i:i + n], low)):
                    return f'token {tok!a} does not continue the source at {src[i:i + 30]!a}; all tokens: {r.tokens!a}'
            i += n
        if i != len(src):
            return f'source {src[i:]!a} is missing; tokens: {r.tokens!a}'
        self.note(rec, len(src) > 1, text, ext, mode, o, r)


class Rejoin(TextCheck):
    rule = ('every text of the listed spaces, in every splitting mode which keeps case and letters; non-trivial: at least one '
            'full token is split into several subtokens')
    OPTS = [{}, {'no_spaces': True}, {'no_com': True}, {'no_str': True}, {'max_str_length': 5}]
    M = ['basic', 'numbers', 'ronin'] + SUB_MODES
    spaces = {
        'quick': [('empty', M, OPTS), ('spairs', M, OPTS), ('slangs', M, OPTS), ('pairs', M, [{}]), ('ids4', M, [{}]),
                  ('num4', M, [{}]), ('strs3', SUB_MODES, [{}, {'max_str_length': 5}]), ('triples', ['basic', 'chars', '5k'], [{}]),
                  ('kinds', M, OPTS), ('uclass', M, [{}]), ('uclass2', ['basic', '1k'], [{}])]
                 + per_range(['chars', '1k', 'basic'], [{}], 0x800, 0x400),
        'thorough': [('pairs', M, OPTS), ('langs', M, OPTS), ('ids5', M, [{}]), ('num6', M, [{}]), ('strs5', SUB_MODES, [{}]),
                     ('triples', M, OPTS), ('quads', M, [{}]),
                     ('kinds2', M, [{}]), ('uclass2', M, [{}])]
                    + per_range(['chars', '1k', 'basic'], [{}], 0x110000, 0x4000),
    }

    def case(self, text, ext, mode, o, rec):
        r = self.api.call(mode, text, ext, o)
        try:
            b = self.base('full' if mode in SUB_MODES else 'nosplit', text, ext, o)
        except Raised:
            return 'skip'
        got = [join(s) if mode in SUB_MODES else ''.join(unwrapped(s)) for s in r.full()]
        want = [''.join(s) for s in b.full()]
        if got != want:
            return f'the subtokens join to {got!a}, the full tokens are {want!a}; subtokens: {r.tokens!a}'
        if types_equal(r.types, b.types) is False:
            return f'token types {r.types}, of the full tokens: {b.types}'
        self.note(rec, any(len(s) > 1 for s in r.full()), text, ext, mode, o, r)


class Metadata(TextCheck):
    rule = ('every text of the listed spaces x mode x options, and every partition of up to 7 subtokens for the iterators; '
            'every list of up to 4 subtokens with and without end marks x boundaries for the check of metadata; non-trivial: at least two full tokens')
    spaces = {
        'quick': [('empty', ALL, PRODUCT_OPTS), ('single', ALL, SINGLE_OPTS), ('slangs', ALL, SINGLE_OPTS),
                  ('spairs', ['nosplit', 'full', 'numbers', 'nocase-ronin', 'chars', '10k'], SINGLE_OPTS + [{'append_eof': True}]),
                  ('pairs', ['nosplit', 'basic', '1k'], [{}]), ('triples', ['nosplit', 'nocase'], [{}]), ('kinds', ALL, SINGLE_OPTS),
                  ('uclass', ['nosplit', 'nocase', 'chars'], [{}])],
        'thorough': [('single', ALL, PRODUCT_OPTS), ('langs', ALL, SINGLE_OPTS), ('spairs', ALL, PRODUCT_OPTS),
                     ('pairs', ALL, SINGLE_OPTS), ('triples', ALL, [{}]), ('quads', ['nosplit', 'basic', '1k'], [{}]),
                     ('alllangs', ALL, [{}]), ('kinds2', ALL, [{}]), ('uclass2', ALL, [{}])],
    }

    def units(self, tier):
        return [['iterators', k] for k in range(0, 8)] + [['joined', k] for k in range(0, 5)] + super().units(tier)

    def run_unit(self, unit, rec):
        if unit[0] == 'iterators':
            return self.iterators(unit, rec)
        if unit[0] == 'joined':
            return self.joined(unit, rec)
        return super().run_unit(unit, rec)

    def iterators(self, unit, rec):
        import itertools
        from codeprep.subtokens import FullTokenIterator, SubtokenIterator
        n = unit[1]
        subs = [f's{i}' for i in range(n)]
        for cuts in itertools.product([0, 1], repeat=max(0, n - 1)):
            bounds = [0] + [i + 1 for i, c in enumerate(cuts) if c] + ([n] if n else [])
            owner = [sum(1 for b in bounds[1:] if b <= i) for i in range(n)]
            parts = [subs[a:b] for a, b in zip(bounds, bounds[1:])]
            expected = [
                (FullTokenIterator, {}, [''.join(p) for p in parts]),
                (FullTokenIterator, {'return_full_token_index': True}, [(i, ''.join(p)) for i, p in enumerate(parts)]),
                (FullTokenIterator, {'format': len}, [len(p) for p in parts]),
                (FullTokenIterator, {'format': tuple, 'return_full_token_index': True}, [(i, tuple(p)) for i, p in enumerate(parts)]),
                (SubtokenIterator, {}, list(subs)),
                (SubtokenIterator, {'return_full_token_index': True}, list(zip(owner, subs))),
                (SubtokenIterator, {'format': tuple}, [(s,) for s in subs]),
            ]
            for cls, kw, want in expected:
                rec.evaluations += 1
                try:
                    with core.guard():
                        got = list(itertools.islice(cls(list(subs), list(bounds), **kw), 100))
                except Exception as e:
                    got = e
                if n > 1:
                    rec.nontrivial((cls.__name__, sorted(map(str, kw)), bounds))
                if got != want:
                    rec.violation({'unit': unit}, f'{cls.__name__}({subs}, {bounds}, {list(kw)}) gives {got!r}, expected {want!r}')
            for bad in ([], [1] + bounds[1:], bounds[:-1] + [n + 1], bounds + [n + 2]):
                if bad == bounds or (bad and bad[0] == 0 and bad[-1] == n):
                    continue
                for cls in (FullTokenIterator, SubtokenIterator):
                    rec.evaluations += 1
                    try:
                        cls(list(subs), list(bad))
                    except ValueError:
                        continue
                    rec.violation({'unit': unit}, f'{cls.__name__}({subs}, {bad}) accepts wrong boundaries')

    def joined(self, unit, rec):
        """The check of metadata, and metadata of two lists joined: all lists of subtokens with and without end marks x all boundaries"""
        import itertools
        from codeprep.preprocess.metadata import PreprocessingMetadata, check_metadata_validity
        types = [type(f'T{i}', (), {}) for i in range(8)]
        n = unit[1]

        def partitions(n):
            return [[0] + [i + 1 for i, c in enumerate(cuts) if c] + ([n] if n else [])
                    for cuts in itertools.product([0, 1], repeat=max(0, n - 1))]
        for ends in itertools.product([0, 1], repeat=n):
            subs = ['aB'[i % 2] + (MARK if e else MARK[:-1] if i % 3 == 2 else '') for i, e in enumerate(ends)]
            for m in range(0, n + 2):
                for bounds in partitions(m):
                    meta = PreprocessingMetadata({'x'}, list(bounds), types[:len(bounds) - 1])
                    for marks in (True, False):
                        rec.evaluations += 1
                        rec.nontrivial((ends, bounds, marks))
                        try:
                            check_metadata_validity(list(subs), meta, **({} if marks else {'use_only_token_end_chars': False}))
                            got = True
                        except (ValueError, AssertionError):
                            got = False
                        want = m == n and (not marks or all((i + 1 in bounds) == bool(e) for i, e in enumerate(ends)))
                        if got != want:
                            rec.violation({'unit': unit}, f'metadata with the boundaries {bounds} of {subs!a} '
                                                          f'{"accepted" if got else "refused"} (end marks count: {marks})')
        if n == 0:
            self.long_lists(unit, rec)
        for m in range(0, 4):
            for a in partitions(n):
                for b in partitions(m):
                    x = PreprocessingMetadata({'p', 'q'}, list(a), types[:len(a) - 1])
                    y = PreprocessingMetadata({'q', 'r'} if m else set(), list(b), types[4:4 + len(b) - 1])
                    rec.evaluations += 1
                    z = x.update(y)
                    want = ({'p', 'q'} | ({'r'} if m else set()), a + [a[-1] + i for i in b[1:]], types[:len(a) - 1] + types[4:4 + len(b) - 1])
                    if (z.nonprocessable_tokens, z.word_boundaries, z.token_types) != want:
                        rec.violation({'unit': unit}, f'metadata with the boundaries {a} and {b} joined give {z}')
                    if (y.nonprocessable_tokens, y.word_boundaries) != ({'q', 'r'} if m else set(), b):
                        rec.violation({'unit': unit}, f'metadata that are added to other ones are changed: {y}')

    def long_lists(self, unit, rec):
        """Long lists that are right, or wrong at one place"""
        from codeprep.preprocess.metadata import PreprocessingMetadata, check_metadata_validity
        for n in (30, 300, 1500):
            places = sorted({p for k in (0, 1, 10, 20, 21, 100, 128, 256, 500, 512, 1000, 1024) for p in (k, n - 1 - k) if 0 <= p < n})
            for p in [None] + places:
                for wrong in ('mark', 'bound') if p is not None else ('mark',):
                    subs = ['a' + MARK] * n
                    bounds = list(range(n + 1))
                    if p is not None and wrong == 'mark':
                        subs[p] = 'a'
                    elif p is not None:
                        if p == n - 1:
                            continue
                        del bounds[p + 1]
                    rec.evaluations += 1
                    rec.nontrivial((n, p, wrong))
                    try:
                        check_metadata_validity(list(subs), PreprocessingMetadata(set(), bounds, [object] * (len(bounds) - 1)))
                        got = True
                    except (ValueError, AssertionError):
                        got = False
                    if got != (p is None):
                        rec.violation({'unit': unit}, f'{n} subtokens with a wrong {wrong} at {p} are {"accepted" if got else "refused"}')

    def case(self, text, ext, mode, o, rec):
        from codeprep.subtokens import FullTokenIterator, SubtokenIterator
        r = self.api.call(mode, text, ext, o)
        b = r.bounds
        if not b or b[0] != 0 or b[-1] != len(r.tokens) or any(x >= y for x, y in zip(b, b[1:])):
            return f'boundaries {b} do not partition the {len(r.tokens)} tokens {r.tokens!a}'
        if len(r.types) != len(b) - 1:
            return f'{len(r.types)} token types for {len(b) - 1} full tokens'
        if any(not isinstance(t, str) for t in r.tokens):
            return f'not all tokens are strings: {r.tokens!a}'
        bare = {t[:-len(MARK)] if t.endswith(MARK) else t for t in r.tokens} if mode in SUB_MODES else set(r.tokens)
        if not r.nonproc <= bare:
            return f'non-processable tokens {sorted(r.nonproc - bare)!a} do not occur among the tokens {r.tokens!a}'
        if list(FullTokenIterator(r.tokens, b)) != [''.join(s) for s in r.full()]:
            return f'full token iterator: {list(FullTokenIterator(r.tokens, b))!a}, expected {r.full()!a}'
        if list(SubtokenIterator(r.tokens, b)) != r.tokens:
            return f'subtoken iterator: {list(SubtokenIterator(r.tokens, b))!a}, expected {r.tokens!a}'
        if mode in SUB_MODES and MARK not in text:
            from codeprep.preprocess.metadata import PreprocessingMetadata, check_metadata_validity
            try:
                check_metadata_validity(r.tokens, PreprocessingMetadata(set(), list(b), [str] * (len(b) - 1)))
            except (AssertionError, ValueError) as e:
                return f'the metadata are said not to fit to the tokens {r.tokens!a}: {e!r}'
        s = self.api.spec(mode, text, ext, o)
        if r.tokens == s.tokens:
            if b != s.bounds:
                return f'tokens {r.tokens!a}: boundaries {b}, expected {s.bounds}'
            if not types_equal(r.types, s.types):
                return f'full tokens {s.full()!a}: types {r.types}, expected {s.types}'
        else:
            rec.count('skipped_because_of_another_property')
        plain = getattr(self.api.t, MODES[mode][0] if MODES[mode][0] != 'bpe' else 'nosplit')
        if MODES[mode][0] != 'bpe':
            kw = dict(MODES[mode][1])
            kw.update(o)
            if plain(text, ext, **kw) != r.tokens:
                return f'without metadata the tokens are {plain(text, ext, **kw)!a}, with metadata {r.tokens!a}'
        self.note(rec, len(b) > 2, text, ext, mode, o, r)


class Markers(TextCheck):
    rule = ('every text of the listed spaces x mode x options; non-trivial: at least one full token of several subtokens')
    spaces = {
        'quick': [('single', ALL, SINGLE_OPTS), ('slangs', ALL, SINGLE_OPTS), ('pairs', ['nocase', 'numbers', 'chars', '5k'], [{}]),
                  ('ids4', ['basic', 'nocase', 'nocase-ronin', '1k', '10k'], [{}]), ('spairs', ALL, SINGLE_OPTS),
                  ('aids5', ['basic', 'nocase', 'nocase-stem'], [{}]), ('num4', ['numbers', 'chars', '1k'], [{}]),
                  ('kinds', ALL, SINGLE_OPTS), ('uclass', ALL, [{}]), ('marks2', ALL, [{}])],
        'thorough': [('single', ALL, PRODUCT_OPTS), ('langs', ALL, SINGLE_OPTS), ('pairs', ALL, SINGLE_OPTS),
                     ('ids5', ALL, [{}]), ('triples', ALL, SINGLE_OPTS), ('num6', ALL, [{}]), ('aids6', WORD_MODES, [{}]),
                     ('alllangs', ALL, [{}]), ('kinds2', ALL, [{}]), ('uclass2', ALL, [{}]), ('marks3', ALL, [{}])],
    }
    SPECIAL = ('<w>', '</w>')

    def case(self, text, ext, mode, o, rec):
        r = self.api.call(mode, text, ext, o)
        multi = False
        b = []
        if mode in SUB_MODES and MARK in text and not o.get('no_unicode'):
            try:
                b = self.base('full', text, ext, o).full()
            except Raised:
                return 'skip'
        for i, (sub, t) in enumerate(zip(r.full(), r.types)):
            multi |= len(sub) > 1
            if mode in SUB_MODES:
                if len(b) == len(r.full()) and ''.join(sub) != ''.join(b[i]) + MARK:
                    return f'{sub!a} is not {b[i]!a} with exactly one {MARK}'
                if not sub[-1].endswith(MARK):
                    return f'full token {sub!a} does not end in {MARK}: {r.tokens!a}'
                if MARK not in text and any(s.endswith(MARK) for s in sub[:-1]):
                    return f'{MARK} inside of full token {sub!a}: {r.tokens!a}'
                if sub[-1].endswith(MARK * 2) and MARK not in text:
                    return f'{MARK} twice in {sub!a}'
                continue
            if len(sub) == 1:
                if sub[0] in self.SPECIAL + ('<Cap>', '<CAPS>') and sub[0] not in text or (sub[0].endswith(MARK) and MARK not in text):
                    return f'stray marker {sub!a}: {r.tokens!a}'
                continue
            if sub == ['"', '"'] and t == 'StringLiteral':
                continue
            if MODES[mode][0] == 'nosplit':
                return f'full token {sub!a} is split'
            body = sub
            case_markers = [s for s in body if s in ('<Cap>', '<CAPS>')]
            if len(sub) == 2 and sub[0] in ('<Cap>', '<CAPS>'):
                if sub[1] in self.SPECIAL:
                    return f'wrong markers in {sub!a}'
                continue
            if sub[0] != '<w>' or sub[-1] != '</w>':
                return f'full token {sub!a} is not enclosed in <w> ... </w>: {r.tokens!a}'
            body = sub[1:-1]
            if any(s in self.SPECIAL for s in body) or len(body) < 2 or (len(body) == 2 and body[0] in ('<Cap>', '<CAPS>')):
                return f'wrong markers in {sub!a}'
            for a, b in zip(body, body[1:] + ['<w>']):
                if a in ('<Cap>', '<CAPS>') and b in ('<Cap>', '<CAPS>') + self.SPECIAL:
                    return f'case marker without a word in {sub!a}'
            if case_markers and not mode.startswith('nocase'):
                return f'case markers in {sub!a}'
        self.note(rec, multi, text, ext, mode, o, r)


class CaseEncoding(TextCheck):
    rule = ('every identifier and text of the listed spaces with case encoding; non-trivial: a case marker is present; the '
            'decoded tokens are compared with those of the same mode without case encoding')
    M = ['nocase', 'nocase-numbers', 'nocase-ronin']
    spaces = {
        'quick': [('ids5', ['nocase'], [{}]), ('ids4', M, [{}, {'no_unicode': True}]), ('aids6', ['nocase'], [{}]),
                  ('spairs', M, SINGLE_OPTS), ('slangs', M, SINGLE_OPTS), ('pairs', ['nocase'], [{}])]
                 + [('kinds', M, [{}]), ('uclass', M, [{}, {'no_unicode': True}]), ('uclass2', ['nocase'], [{}])]
                 + per_range(['nocase'], [{}], 0x3000, 0x800, 'uid'),
        'thorough': [('ids6', ['nocase'], [{}]), ('ids5', M, [{}, {'no_unicode': True}]), ('aids7', ['nocase', 'nocase-ronin'], [{}]),
                     ('pairs', M, SINGLE_OPTS), ('langs', M, SINGLE_OPTS), ('triples', M, SINGLE_OPTS), ('alllangs', M, [{}]),
                     ('kinds2', M, [{}]), ('uclass2', M, [{}])]
                    + per_range(M, [{}], 0x110000, 0x4000, 'uid'),
    }

    def case(self, text, ext, mode, o, rec):
        plain = {'nocase': 'basic', 'nocase-numbers': 'numbers', 'nocase-ronin': 'ronin'}[mode]
        r = self.api.call(mode, text, ext, o)
        try:
            b = self.api.call(plain, text, ext, o)
        except Raised:
            return 'skip'
        marked = False
        if len(r.full()) != len(b.full()):
            return f'{len(r.full())} full tokens, without case encoding {len(b.full())}: {r.tokens!a}'
        for got, want, t in zip(r.full(), b.full(), b.types):
            want = unwrapped(want)
            body = unwrapped(got)
            i = 0
            if mode == 'nocase-ronin':
                # one case marker may stand for several pieces: compare the letters
                low = ''.join(s for s in body if s not in ('<Cap>', '<CAPS>'))
                if low.lower() != ''.join(want).lower() and ref.is_ascii(''.join(want)):
                    return f'{got!a} has other letters than {want!a}'
                marked |= '<Cap>' in body or '<CAPS>' in body
                continue
            decoded = []
            while i < len(body):
                if body[i] in ('<Cap>', '<CAPS>'):
                    marked = True
                    if i + 1 >= len(body):
                        return f'case marker without a word: {got!a}'
                    w = body[i + 1]
                    decoded.append(w.upper() if body[i] == '<CAPS>' else w[0].upper() + w[1:])
                    if decoded[-1] == w and w.isascii():
                        return f'case marker in front of a word without case: {got!a}'
                    if body[i] == '<CAPS>' and any('A' <= c <= 'Z' for c in w):
                        return f'{w!a} is not lowercased in {got!a}'
                    if body[i] == '<Cap>' and 'A' <= w[0] <= 'Z':
                        return f'{w!a} is not lowercased in {got!a}'
                    i += 2
                else:
                    w = body[i]
                    decoded.append(w)
                    if t == 'SplitContainer' and ref.case_prefix(w)[0] and w != '<non-en>':
                        return f'{w!a} is not lowercased in {got!a}'
                    i += 1
            if decoded != want:
                return f'{got!a} decodes to {decoded!a}, without case encoding the token is {want!a}'
        self.note(rec, marked, text, ext, mode, o, r)


class WordSplit(TextCheck):
    rule = ('every identifier of the listed spaces; non-trivial: the identifier has several parts; compared with the '
            'specification of camel case, snake case and digit boundaries')
    spaces = {
        'quick': [('ids5', ['basic'], [{}]), ('aids6', ['basic'], [{}]), ('ids4', WORD_MODES, [{}]), ('num5', ['numbers', 'basic'], [{}]),
                  ('num4', WORD_MODES, [{}]), ('spairs', WORD_MODES, [{}]), ('slangs', WORD_MODES, SINGLE_OPTS), ('pairs', ['basic', 'nocase-stem'], [{}])]
                 + [('kinds', WORD_MODES, [{}]), ('uclass', WORD_MODES, [{}]), ('uclass2', ['basic'], [{}])]
                 + per_range(['basic'], [{}], 0x3000, 0x800, 'uid'),
        'thorough': [('ids6', ['basic', 'numbers'], [{}]), ('aids7', WORD_MODES, [{}]), ('ids5', WORD_MODES, [{}]),
                     ('num6', WORD_MODES, [{}]), ('pairs', WORD_MODES, SINGLE_OPTS), ('langs', WORD_MODES, SINGLE_OPTS),
                     ('triples', WORD_MODES, [{}]), ('alllangs', WORD_MODES, [{}]),
                     ('kinds2', WORD_MODES, [{}]), ('uclass2', WORD_MODES, [{}])]
                    + per_range(WORD_MODES, [{}], 0x110000, 0x4000, 'uid'),
    }

    def case(self, text, ext, mode, o, rec):
        r = self.api.call(mode, text, ext, o)
        s = self.api.spec(mode, text, ext, o)
        if r.full() != s.full():
            try:
                b = self.base('nosplit', text, ext, o)
            except Raised:
                return 'skip'
            if b.tokens != self.api.spec('nosplit', text, ext, o).tokens:
                return 'skip'
            for g, w in zip(r.full(), s.full()):
                if g != w:
                    return f'{"".join(unwrapped(w))!a} is split into {g!a}, expected {w!a}'
            return f'{len(r.full())} full tokens, expected {len(s.full())}: {r.tokens!a}'
        self.note(rec, any(len(x) > 3 for x in s.full()), text, ext, mode, o, r)


class OptionCheck(TextCheck):
    """Compares with the specification where the two agree without the option."""

    def relevant(self, r, text, ext, mode, o):
        return True

    def case(self, text, ext, mode, o, rec):
        r = self.api.call(mode, text, ext, o)
        s = self.api.spec(mode, text, ext, o)
        if r.tokens != s.tokens or r.bounds != s.bounds:
            if not self.base_ok(mode, text, ext):
                return 'skip'
            return f'{mode} with {o}: got {r.tokens!a} {r.bounds}, expected {s.tokens!a} {s.bounds}'
        sig = self.finding(text, ext, mode, o, s)
        if sig:
            return sig
        self.note(rec, self.relevant(r, text, ext, mode, o), text, ext, mode, o, r)

    def finding(self, text, ext, mode, o, s):
        return None


class Placeholders(OptionCheck):
    rule = ('every text of the listed spaces x mode x (no_com, no_str, both, and every max_str_length); non-trivial: a '
            'placeholder is present in the output')
    OPTS = [{'no_com': True}, {'no_str': True}, {'no_com': True, 'no_str': True}, {'no_str': True, 'max_str_length': 4},
            {'max_str_length': 5}, {'max_str_length': 2}, {'max_str_length': 3, 'no_spaces': True}]
    LENS = [{'max_str_length': n} for n in list(range(0, 62))]
    SOME = [{'max_str_length': n} for n in (0, 1, 2, 3, 4, 8, 9, 10, 11, 35, 36, 37, 60, 61, 62, 63, 70)]
    REST = ['nosplit', 'full', 'nocase-numbers', 'chars', '5k']
    spaces = {
        'quick': [('single', ALL, OPTS), ('slangs', ALL, OPTS), ('spairs', REST, OPTS), ('pairs', ['nosplit', 'full', '1k'], OPTS[:2] + OPTS[4:5]),
                  ('coms3', ['nosplit', 'chars'], [{'no_com': True}]), ('strs3', ['nosplit', 'full', '1k'], [{'no_str': True}, {'max_str_length': 4}]),
                  ('kinds', REST, OPTS), ('lens66', ['full'], LENS), ('lens66', ['nosplit', 'basic', 'chars'], SOME)],
        'thorough': [('langs', ALL, OPTS), ('pairs', ALL, OPTS), ('coms4', ALL, [{'no_com': True}]), ('strs4', ALL, OPTS[1:]),
                     ('lens130', ['nosplit', 'full', 'basic', 'chars', '5k'], [{'max_str_length': n} for n in range(0, 132)]),
                     ('triples', ALL, OPTS), ('alllangs', ALL, OPTS), ('kinds2', ALL, OPTS)],
    }
    HOLDERS = ('<comment>', '<str-literal>', '""')

    def relevant(self, r, text, ext, mode, o):
        bare = [''.join(s) for s in r.full()]
        return any((b[:-len(MARK)] if b.endswith(MARK) else b) in self.HOLDERS for b in bare)

    def finding(self, text, ext, mode, o, s):
        if o.get('max_str_length', 0) >= 62 and not o.get('no_str'):
            m, fixed = MODES[mode]
            strict = ref.Spec(m, {**fixed, **o}, self.api.bpe(mode) if m == 'bpe' else None, strict=True).run(text, ext)
            if strict[0] != s.tokens:
                return f'{o} has no effect on a longer string', 'max_str_length>=62'


class WhitespaceTokens(TextCheck):
    rule = ('every text of the listed spaces x mode, with and without no_spaces; non-trivial: a newline or tab token is present '
            'in the output with whitespace kept')
    M = ['nosplit', 'full', 'basic', 'nocase', 'chars', '1k']
    O2 = [{}, {'no_spaces': True}]
    O4 = O2 + [{'no_spaces': True, 'no_com': True}, {'no_spaces': True, 'no_str': True}]
    spaces = {
        'quick': [('ws6', ['nosplit'], O2), ('ws5', M, O2), ('single', ALL, O4), ('pairs', ['nosplit', 'full'], O2),
                  ('slangs', ALL, O4), ('langs', ['nosplit'], O2), ('spairs', M, O4), ('chars4', ['nosplit'], O2),
                  ('wscom4', M, O2), ('kinds', M, O2)],
        'thorough': [('ws7', M, O2), ('pairs', ALL, O4), ('langs', ALL, O4), ('chars5', ['nosplit'], O2), ('triples', ALL, O4),
                     ('alllangs', ALL, O4), ('wscom5', M, O2), ('kinds2', M, O2)],
    }

    def case(self, text, ext, mode, o, rec):
        r = self.api.call(mode, text, ext, o)
        if o.get('no_spaces'):
            rest = {k: v for k, v in o.items() if k != 'no_spaces'}
            try:
                b = self.base(mode, text, ext, rest)
            except Raised:
                return 'skip'
            want = [s for s, t in zip(b.full(), b.types) if join(s) not in ('\n', '\t')]
            if r.full() != want:
                return f'without whitespace: {r.full()!a}, with it removed from the full output: {want!a}'
            self.note(rec, len(want) != len(b.full()), text, ext, mode, o, r)
            return
        m, fixed = MODES[mode]
        bpe = self.api.bpe(mode) if m == 'bpe' else None
        lax = self.skeleton(ref.Spec(m, {**fixed, **o}, bpe).run(text, ext))
        got = self.skeleton((r.tokens, r.nonproc, r.bounds, r.types))
        strict = self.skeleton(ref.Spec(m, {**fixed, **o}, bpe, strict=True).run(text, ext))
        if got != strict:
            if [x for x in got if x[0] != 'W'] != [x for x in strict if x[0] != 'W']:
                return 'skip'
            if got == lax:
                return (f'a line break inside a longer blank piece is lost: {r.tokens!a}', 'newline-inside-blank-token')
            return f'whitespace tokens: got {r.tokens!a}, expected (W: whitespace token, T: other) {strict!a}'
        self.note(rec, any(x[0] == 'W' for x in got), text, ext, mode, o, r)

    @staticmethod
    def skeleton(res):
        tokens, _, bounds, _ = res
        out = []
        for a, b in zip(bounds, bounds[1:]):
            j = join(tokens[a:b])
            out.append(('W' if j in ('\n', '\t') else 'T', j))
        return out


class NoUnicode(OptionCheck):
    rule = ('every text of the listed spaces x mode with no_unicode, alone and together with other options; non-trivial: the text '
            'has a non-ASCII character')
    OPTS = [{'no_unicode': True}, {'no_unicode': True, 'no_com': True}, {'no_unicode': True, 'no_str': True},
            {'no_unicode': True, 'no_spaces': True}, {'no_unicode': True, 'max_str_length': 4}]
    spaces = {
        'quick': [('single', ALL, OPTS), ('slangs', ALL, OPTS), ('pairs', ['nosplit', 'full', '1k'], OPTS[:1]), ('spairs', ALL, OPTS),
                  ('ids5', ['nosplit'], OPTS[:1]), ('ids4', ['chars', 'nocase', '5k'], OPTS[:1]), ('strs4', ['full', 'chars'], OPTS[:1]), ('strs3', ALL, OPTS[:1]),
                  ('coms3', ['nosplit', '1k'], OPTS[:1]), ('kinds', ALL, OPTS[:1]), ('uclass', ALL, OPTS[:1]),
                  ('uclass2', ['full', '5k'], OPTS[:1])]
                 + per_range(['nosplit', 'full', 'chars'], OPTS[:1], 0x1000, 0x400),
        'thorough': [('langs', ALL, OPTS), ('pairs', ALL, OPTS), ('ids5', ALL, OPTS[:1]), ('strs5', ['full', 'chars', '1k'], OPTS[:1]),
                     ('coms4', ALL, OPTS[:1]), ('triples', ALL, OPTS), ('alllangs', ALL, OPTS[:1]),
                     ('kinds2', ALL, OPTS[:1]), ('uclass2', ALL, OPTS[:1])]
                    + per_range(['nosplit', 'full', 'chars'], OPTS[:1], 0x110000, 0x4000),
    }

    def relevant(self, r, text, ext, mode, o):
        return not ref.is_ascii(text)

    def case(self, text, ext, mode, o, rec):
        if ref.is_ascii(text):
            r = self.api.call(mode, text, ext, o)
            rest = {k: v for k, v in o.items() if k != 'no_unicode'}
            try:
                b = self.base(mode, text, ext, rest)
            except Raised:
                return 'skip'
            if r.tokens != b.tokens or r.bounds != b.bounds or not types_equal(r.types, b.types):
                return f'ASCII text: {r.tokens!a} with no_unicode, {b.tokens!a} without'
            return
        return super().case(text, ext, mode, o, rec)


class EndOfFile(TextCheck):
    rule = 'every text of the listed spaces x mode x options, with and without append_eof; non-trivial: the text is not blank'
    spaces = {
        'quick': [('empty', ALL, SINGLE_OPTS), ('single', ALL, SINGLE_OPTS), ('slangs', ALL, SINGLE_OPTS), ('spairs', ALL, [{}]),
                  ('ws4', ALL, [{}, {'no_spaces': True}]), ('pairs', ['nosplit', 'chars'], [{}]), ('kinds', ALL, [{}])],
        'thorough': [('empty', ALL, PRODUCT_OPTS), ('langs', ALL, SINGLE_OPTS), ('pairs', ALL, SINGLE_OPTS), ('ws6', ALL, SINGLE_OPTS[:2]),
                     ('triples', ALL, [{}])],
    }

    def case(self, text, ext, mode, o, rec):
        try:
            b = self.base(mode, text, ext, o)
        except Raised:
            return 'skip'
        r = self.api.call(mode, text, ext, {**o, 'append_eof': True})
        eof = '<EOF>' + (MARK if mode in SUB_MODES else '')
        if r.tokens != b.tokens + [eof]:
            return f'with the end marker {r.tokens!a}, without {b.tokens!a}'
        if r.bounds != b.bounds + [len(r.tokens)] or r.types[:-1] != b.types or r.types[-1] != 'SpecialToken':
            return f'metadata with the end marker {r.bounds} {r.types}, without {b.bounds} {b.types}'
        if r.nonproc != b.nonproc | {'<EOF>'}:
            return f'non-processable {sorted(r.nonproc)!a} with the end marker, {sorted(b.nonproc)!a} without'
        self.note(rec, bool(text.strip()), text, ext, mode, o, r)


class Chars(TextCheck):
    rule = ('every text of the listed spaces x options, split into characters; non-trivial: a token of several characters is split')
    OPTS = SINGLE_OPTS[:2] + SINGLE_OPTS[3:]
    spaces = {
        'quick': [('empty', ['chars'], OPTS), ('single', ['chars'], OPTS), ('slangs', ['chars'], OPTS), ('pairs', ['chars'], OPTS),
                  ('langs', ['chars'], [{}]), ('triples', ['chars'], [{}]), ('ids5', ['chars'], [{}]), ('strs4', ['chars'], [{}]),
                  ('coms3', ['chars'], [{}]), ('num5', ['chars'], [{}]),
                  ('kinds', ['chars'], OPTS), ('uclass', ['chars'], OPTS), ('uclass2', ['chars'], [{}])]
                 + per_range(['chars'], [{}], 0x2800, 0x800),
        'thorough': [('langs', ['chars'], OPTS), ('ids6', ['chars'], [{}]), ('strs5', ['chars'], [{}]), ('coms4', ['chars'], [{}]),
                     ('num7', ['chars'], [{}]), ('triples', ['chars'], OPTS), ('quads', ['chars'], OPTS), ('alllangs', ['chars'], OPTS),
                     ('kinds2', ['chars'], OPTS), ('uclass2', ['chars'], OPTS)]
                    + per_range(['chars'], [{}], 0x110000, 0x4000),
    }

    def case(self, text, ext, mode, o, rec):
        r = self.api.call(mode, text, ext, o)
        try:
            b = self.base('full', text, ext, o)
        except Raised:
            return 'skip'
        if len(b.full()) != len(r.full()) or b.types != r.types:
            return f'other full tokens than without splitting: {r.full()!a}, {b.full()!a}'
        split = False
        for sub, f, t in zip(r.full(), b.full(), b.types):
            f = ''.join(f)
            whole, cs = [f + MARK], list(f) + [MARK]
            if o.get('max_str_length') is not None and t == 'StringLiteral' and sub == ['"', '"' + MARK] and f == '""':
                continue
            if t in WHOLE:
                ok = sub == whole
            elif f in ('<comment>', '<str-literal>', '<EOL>') and t in ('StringLiteral', 'OneLineComment', 'MultilineComment'):
                # (a word of the text may look like a placeholder: it is split)
                ok = sub == whole or (f in text and sub == cs)
            elif t in ('OneLineComment', 'MultilineComment'):
                ok = sub == cs or (len(f) == 1 and sub == whole)
            elif t in ('Number', 'One', 'Zero') and f in '01':
                ok = sub in (whole, cs)
            else:
                ok = sub == cs
                split = split or len(f) > 1
            if not ok:
                return f'{t} {f!a} is split into {sub!a}'
        self.note(rec, split, text, ext, mode, o, r)


class Atomic(TextCheck):
    rule = ('every text of the listed spaces x mode x options; non-trivial: a keyword, operator or other non-processable token is present')
    spaces = {
        'quick': [('empty', ALL, SINGLE_OPTS), ('single', ALL, SINGLE_OPTS), ('slangs', ALL, SINGLE_OPTS), ('spairs', ALL, [{}, {'no_com': True}]),
                  ('pairs', ['nosplit', 'basic', '10k'], [{}]), ('langs', ['full', 'chars', 'nocase-stem', '1k'], [{}]), ('kinds', ALL, [{}]),
                  ('uclass', ['basic', 'chars', '1k'], [{}])],
        'thorough': [('langs', ALL, SINGLE_OPTS), ('pairs', ALL, SINGLE_OPTS), ('triples', ALL, SINGLE_OPTS), ('alllangs', ALL, SINGLE_OPTS), ('kinds2', ALL, [{}]), ('uclass2', ALL, [{}])],
    }

    def case(self, text, ext, mode, o, rec):
        r = self.api.call(mode, text, ext, o)
        for sub, t in zip(r.full(), r.types):
            if t in WHOLE:
                if len(sub) != 1:
                    return f'{t} is split into {sub!a}'
                if join(sub) not in r.nonproc:
                    return f'{t} {join(sub)!a} is not among the non-processable tokens {sorted(r.nonproc)!a}'
        s = self.api.spec(mode, text, ext, o)
        if r.tokens != s.tokens:
            # the keywords, operators etc. must still be there, whole and in this order
            want = [join(x) for x, t in zip(s.full(), s.types) if t in WHOLE]
            got = iter([join(x) for x in r.full() if len(x) == 1])
            missing = [x for x in want if x not in got]
            if missing:
                return f'{missing[0]!a} is missing, split or at another place: {r.tokens!a}'
            if not set(want) <= r.nonproc:
                return f'{sorted(set(want) - r.nonproc)!a} not among the non-processable tokens {sorted(r.nonproc)!a}'
            return 'skip'
        if r.nonproc != s.nonproc:
            return f'non-processable tokens {sorted(r.nonproc)!a}, expected {sorted(s.nonproc)!a}; tokens {r.tokens!a}'
        self.note(rec, bool(r.nonproc), text, ext, mode, o, r)


CHECKS = {
    'C01': Conservation,
    'C02': Rejoin,
    'C03': Metadata,
    'C04': Markers,
    'C05': CaseEncoding,
    'C06': WordSplit,
    'C07': Placeholders,
    'C08': WhitespaceTokens,
    'C09': NoUnicode,
    'C10': EndOfFile,
    'C11': Chars,
    'C12': Atomic,
}


# in which options meet, and texts of many lengths
ALPHA_OPTS = [o for o in PRODUCT_OPTS if not o.get('no_unicode')]
NO_UNI = [{**o, 'no_unicode': True} for o in ALPHA_OPTS]
EOF_OPTS = [{'append_eof': True}, {'append_eof': True, 'no_spaces': True, 'no_com': True, 'max_str_length': 6}]
FEW = ['nosplit', 'nocase', 'chars', '1k']
MORE = {
    'C01': ([('rich', ['nosplit', 'full'], [{}]), ('long', ['nosplit', 'full'], [{}])],
            [('vlong', ['nosplit', 'full'], [{}])]),
    'C02': ([('rich', Rejoin.M, ALPHA_OPTS), ('long', ['basic', 'chars', '10k'], [{}])],
            [('long', Rejoin.M, [{}]), ('vlong', ['basic', 'chars', '5k'], [{}])]),
    'C03': ([('rich', ALL, PRODUCT_OPTS + EOF_OPTS), ('long', ['nosplit', 'nocase', '5k'], [{}])],
            [('long', ALL, [{}]), ('vlong', ['nosplit'], [{}])]),
    'C04': ([('rich', ALL, PRODUCT_OPTS), ('long', ['nocase', 'numbers', 'chars', '1k'], [{}])],
            [('long', ALL, [{}]), ('vlong', ['nocase', '1k'], [{}])]),
    'C05': ([('rich', CaseEncoding.M, PRODUCT_OPTS), ('long', ['nocase', 'nocase-numbers'], [{}])],
            [('vlong', ['nocase'], [{}])]),
    'C06': ([('rich', WORD_MODES, PRODUCT_OPTS), ('long', ['basic', 'numbers'], [{}])],
            [('long', WORD_MODES, [{}]), ('vlong', ['numbers'], [{}])]),
    'C07': ([('rich', ALL, PRODUCT_OPTS), ('long', ['nosplit', 'full'], [{'no_com': True, 'no_str': True}, {'max_str_length': 40}, {'max_str_length': 7}])],
            [('vlong', ['nosplit', 'chars'], [{'no_com': True}, {'no_str': True}, {'max_str_length': 50}])]),
    'C08': ([('rich', ALL, PRODUCT_OPTS), ('long', ['nosplit', 'chars'], WhitespaceTokens.O2)],
            [('long', WhitespaceTokens.M, WhitespaceTokens.O4), ('vlong', ['nosplit'], WhitespaceTokens.O2)]),
    'C09': ([('rich', ALL, NO_UNI), ('long', ['nosplit', 'full', '1k'], NoUnicode.OPTS[:1])],
            [('long', ALL, NoUnicode.OPTS[:1]), ('vlong', ['full'], NoUnicode.OPTS[:1])]),
    'C10': ([('rich', ALL, PRODUCT_OPTS), ('long', ['nosplit', 'chars'], [{}])],
            [('long', ALL, [{}]), ('vlong', ['nosplit'], [{}])]),
    'C11': ([('rich', ['chars'], ALPHA_OPTS), ('long', ['chars'], [{}, {'max_str_length': 20}])],
            [('vlong', ['chars'], [{}])]),
    'C12': ([('rich', ALL, PRODUCT_OPTS), ('long', ['nosplit', 'nocase', '1k'], [{}])],
            [('long', ALL, [{}]), ('vlong', ['nosplit'], [{}])]),
}
for _id, (_quick, _thorough) in MORE.items():
    CHECKS[_id].spaces = {'quick': CHECKS[_id].spaces['quick'] + _quick,
                          'thorough': CHECKS[_id].spaces['thorough'] + _quick + _thorough}

# every kind of token in every shape that any language gives it
SHAPES = {
    'C01': (['nosplit', 'full'], [{}]), 'C02': (['basic', '1k'], [{}]), 'C03': (['nosplit', 'nocase', '5k'], [{}]),
    'C04': (['nocase', 'numbers', '1k'], [{}]), 'C05': (['nocase', 'nocase-numbers'], [{}]), 'C06': (['basic', 'numbers'], [{}]),
    'C07': (['nosplit', 'full', '1k'], [{'no_com': True}, {'no_str': True}, {'max_str_length': 3}]), 'C08': (['nosplit', 'chars'], WhitespaceTokens.O2),
    'C09': (['nosplit', 'full', '1k'], NoUnicode.OPTS[:1]), 'C10': (['nosplit', '1k'], [{}]), 'C11': (['chars'], [{}]),
    'C12': (['nosplit', 'nocase', '1k'], [{}])}
# texts that look like the marks of codeprep
MARKS = {
    'C01': (['nosplit', 'full'], [{}]), 'C02': (['basic', 'chars', '1k'], [{}]), 'C03': (['nosplit', 'nocase', 'chars', '5k'], [{}]),
    'C05': (['nocase', 'nocase-numbers'], [{}]), 'C06': (['basic', 'numbers'], [{}]),
    'C07': (['nosplit', 'full', '1k'], [{'no_com': True}, {'no_str': True}, {'max_str_length': 6}]), 'C08': (['nosplit', 'chars'], WhitespaceTokens.O2),
    'C09': (['nosplit', 'full', '1k'], NoUnicode.OPTS[:1]), 'C10': (ALL, [{}]), 'C11': (['chars'], [{}]), 'C12': (['nosplit', 'nocase', '1k'], [{}])}
for _id, (_modes, _opts) in MARKS.items():
    CHECKS[_id].spaces = {'quick': CHECKS[_id].spaces['quick'] + [('marks2', _modes, _opts)],
                          'thorough': CHECKS[_id].spaces['thorough'] + [('marks2', _modes, _opts), ('marks3', _modes[-1:], _opts[:1])]}
for _id, (_modes, _opts) in SHAPES.items():
    _c = CHECKS[_id]
    _all = [m for m in {'C02': Rejoin.M, 'C05': CaseEncoding.M, 'C06': WORD_MODES, 'C08': WhitespaceTokens.M, 'C11': ['chars'],
                        'C01': ['nosplit', 'full']}.get(_id, ALL)]
    _c.spaces = {'quick': _c.spaces['quick'] + [('shapes', _modes, _opts)], 'thorough': _c.spaces['thorough'] + [('shapes', _all, _opts)]}
