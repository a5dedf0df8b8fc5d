"""Checks of byte-pair encoding: applying merges, learning them, keeping them."""
import collections
import contextlib
import glob
import itertools
import json
import os
import sys

import core
import fsops
import ref
import sim
import texts
from corpuschecks import CorpusCheck, restore_vocab
from world import attempt, forked

END = '@'


def symbols(word):
    """The symbols a word is made of before any merge."""
    return ['@@' if c == '@' else c for c in word] + [END]


def apply_merge(word, pair):
    """word: tuple of symbols"""
    out = []
    i = 0
    while i < len(word):
        if i + 1 < len(word) and (word[i], word[i + 1]) == pair:
            out.append(word[i] + word[i + 1])
            i += 2
        else:
            out.append(word[i])
            i += 1
    return tuple(out)


def pair_counts(vocab):
    c = collections.Counter()
    for word, freq in vocab.items():
        for p in zip(word, word[1:]):
            c[p] += freq
    return c


def verify_merges(base, merges, n=None):
    """
    Is `merges` (list of (pair, frequency)) what greedy learning of n merges from `base` (word -> frequency) gives, for some
    choice between equally frequent pairs? -> (None or what is wrong, segmentation of the words, was there no tie)
    """
    vocab = {tuple(symbols(w)): f for w, f in base.items()}
    unique = True
    for i, (pair, freq) in enumerate(merges):
        counts = pair_counts(vocab)
        if not counts:
            return f'merge {i} {pair}, but there is nothing left to merge', vocab, unique
        best = max(counts.values())
        if counts[pair] != best:
            return (f'merge {i} is {pair}, which occurs {counts[pair]} times; '
                    f'{[p for p, c in counts.items() if c == best]} occur {best} times'), vocab, unique
        if freq != best:
            return f'merge {i} {pair} is recorded with frequency {freq}, it occurs {best} times', vocab, unique
        unique = unique and sum(c == best for c in counts.values()) == 1
        vocab = {apply_merge(w, pair): f for w, f in vocab.items()}
    if n is not None:
        if len(merges) > n:
            return f'{len(merges)} merges instead of {n}', vocab, unique
        if len(merges) < n and pair_counts(vocab):
            return f'only {len(merges)} merges of {n}, although more are possible', vocab, unique
    return None, vocab, unique


class EncodeCheck(core.Check):
    rule = ('every list of merges that can be built step by step over a small alphabet x every word up to a length, with and '
            'without cached words, asked twice; every word which is the result of one or two merges of the predefined lists; '
            'non-trivial: words in which a merge applies')
    # alphabet, merges, word length, shards
    bounds = {'quick': [('ab', 3, 7, 32), ('ab@', 2, 6, 8), ('abc', 2, 6, 8), ('a', 4, 12, 4), ('a@', 3, 7, 16)],
             'thorough': [('ab', 4, 6, 128), ('ab@', 3, 5, 64), ('abc', 3, 5, 64), ('a', 6, 14, 16), ('a@', 4, 6, 64),
                          ('ü[', 3, 5, 32)]}

    def setup(self, home):
        core.import_codeprep()
        import textapi
        self.api = textapi.Api()
        from codeprep.bpepkg import bpe_encode, merge
        self.get = bpe_encode.get_bpe_subwords
        self.encode_word = bpe_encode.encode_word
        self.encode = bpe_encode.encode
        self.BpeData = bpe_encode.BpeData
        self.m = merge

    def units(self, tier):
        out = [['long', k] for k in range(len(self.LONG))]
        out += [['small', a, n, l, k, s] for a, n, l, s in self.bounds[tier] for k in range(s)]
        for name, n in (('1k', 1000), ('5k', 5000), ('10k', 10000)):
            out += [['single', name, k, 4] for k in range(4)]
            top = {'quick': {'1k': 160, '5k': 120, '10k': 120}, 'thorough': {'1k': 1000, '5k': 1000, '10k': 1000}}[tier][name]
            shards = 4 if tier == 'quick' else 32
            out += [['pairs', name, top, k, shards] for k in range(shards)]
        return out

    def run_unit(self, unit, rec):
        getattr(self, unit[0])(unit, rec)

    def small_lists(self, alphabet, n):
        base = [symbols(c)[0] for c in alphabet]

        def extend(merges, syms):
            yield merges
            if len(merges) == n:
                return
            for a in syms:
                if a.endswith(END) and a != '@@' and not (a.endswith('@@') and not a.endswith('@@@')):
                    continue     # nothing comes after the end of a word
                for b in syms + [END]:
                    if (a, b) not in merges:
                        yield from extend(merges + [(a, b)], syms + [a + b])
        yield from extend([], base)

    def build(self, merges):
        ml = self.m.MergeList()
        for i, p in enumerate(merges):
            ml.append(self.m.Merge(p, 1, i))
        return ml

    def small(self, unit, rec):
        _, alphabet, n, length, shard, shards = unit
        words = [''.join(w) for l in range(1, length + 1) for w in itertools.product(alphabet, repeat=l)]
        for k, merges in enumerate(self.small_lists(alphabet, n)):
            if k % shards != shard:
                continue
            if rec.stop:
                return
            want = ref.ref_bpe({p: i for i, p in enumerate(merges)})
            ml = self.build(merges)
            cache = {}
            for i, w in enumerate(words[:40]):
                if i % 3 == 0:
                    exp = want(w)
                    cache[w.replace('@', '@@') + '@'] = [x.replace('@', '@@') for x in exp[:-1]] + [exp[-1].replace('@', '@@') + '@']
            plain = self.BpeData({}, ml)
            cached = self.BpeData(cache, ml)
            for i, w in enumerate(words):
                rec.evaluations += 1
                exp = want(w)
                try:
                    got = list(self.get(w, plain))
                    if i < 40:
                        again = [list(self.get(w, plain)), list(self.get(w, cached)), list(self.get(w, cached))]
                        got = next((g for g in again if g != got), got) if got == exp else got
                except Exception as e:
                    rec.violation({'unit': unit, 'merges': merges, 'word': w}, f'{merges} {w!a} raised {e!r}')
                    continue
                if len(exp) < len(w) + (exp[-1] == ''):
                    rec.nontrivial((merges, w))
                if got != exp:
                    rec.violation({'unit': unit, 'merges': merges, 'word': w},
                                  f'merges {merges} split {w!a} into {got!a}, expected {exp!a}')
            self.without_end(unit, rec, merges, ml, words)
            if k % 2000 == shard:
                rec.sample({'merges': merges, 'words': len(words)})

    def without_end(self, unit, rec, merges, ml, words):
        """Words which do not carry the mark of their end, and many at a time"""
        ranks = {p: i for i, p in enumerate(merges)}
        want = {}
        for w in words:
            rec.evaluations += 1
            syms = symbols(w)[:-1]
            esc = ''.join(syms)
            want[' '.join(ref.merge_symbols(ranks, syms))] = len(want) + 1
            try:
                got = ' '.join(self.encode_word(esc, ml))
            except Exception as e:
                rec.violation({'unit': unit, 'merges': merges, 'word': w}, f'{merges} {w!a} (no end mark) raised {e!r}')
                return
            if got not in want or want[got] != len(want):
                rec.violation({'unit': unit, 'merges': merges, 'word': w},
                              f'merges {merges} split {w!a} (no end mark) into {got!a}, expected {list(want)[-1]!a}')
                return
        rec.evaluations += 1
        got = self.encode({''.join(symbols(w)[:-1]): i + 1 for i, w in enumerate(words)}, ml)
        if got != want:
            diff = set(got.items()) ^ set(want.items())
            rec.violation({'unit': unit, 'merges': merges, 'word': words}, f'merges {merges} split {len(words)} words '
                          f'at a time differently from one at a time: {sorted(diff)[:3]!a}')

    LONG = [[('a', 'b')], [('a', 'a')], [('a', 'a'), ('aa', 'aa'), ('aa', 'b')], [('b', 'a'), ('a', 'b'), ('ba', 'ba'), ('a', 'ba')],
            [('b', '@@'), ('a', 'b@@'), ('ab@@', 'ab@@')], [('a', END), ('a', 'b'), ('b', END)]]

    def long(self, unit, rec):
        """Words of many symbols (longer ones are encoded with a progress bar)"""
        _, k = unit
        merges = self.LONG[k]
        ml = self.build(merges)
        want = ref.ref_bpe({p: i for i, p in enumerate(merges)})
        sys.stderr.flush()
        for period in ('a', 'ab', 'aab', 'ab@', 'abba'):
            for n in (100, 4998, 4999, 5000, 5001, 6000):
                w = (period * n)[:n]
                rec.evaluations += 1
                rec.nontrivial((k, w))
                try:
                    with core.guard(), open(os.devnull, 'w') as null, contextlib.redirect_stderr(null):
                        got = list(self.get(w, self.BpeData({}, ml)))
                except Exception as e:
                    rec.violation({'unit': unit}, f'{merges}: {period!a} repeated up to {n} characters raised {e!r}')
                    continue
                if got != want(w):
                    rec.violation({'unit': unit}, f'{merges}: {period!a} repeated up to {n} characters is split wrongly')

    def listed(self, name):
        path = os.path.join(core.REPO, 'codeprep', 'data', 'bpe', 'case', name, 'merges.txt')
        return list(ref.load_merges(path))

    def check_words(self, unit, rec, name, words):
        """Many words in one text"""
        for i in range(0, len(words), 100):
            if rec.stop:
                return
            part = words[i:i + 100]
            keywords = self.api.call('nosplit', ' '.join(part), 'java', {}).nonproc
            part = [w for w in part if w not in keywords]
            rec.evaluations += len(part)
            try:
                with core.guard():
                    got = self.api.call(name, ' '.join(part), 'java', {}).tokens
            except Exception as e:
                rec.violation({'unit': unit, 'words': part}, str(e))
                continue
            words_out, cur = [], []
            for t in got:
                if t.endswith('</t>'):
                    words_out.append(cur + [t[:-4]])
                    cur = []
                else:
                    cur.append(t)
            want = [self.api.bpe(name)(w) for w in part]
            for w, x in zip(part, want):
                rec.nontrivial((name, w))
            if words_out != want or cur:
                k = next((j for j, (g, x) in enumerate(zip(words_out, want)) if g != x), len(want))
                rec.violation({'unit': unit, 'words': part},
                              f'{name}: {part[k] if k < len(part) else None!a} is split into '
                              f'{words_out[k] if k < len(words_out) else None!a}, expected {want[k] if k < len(want) else cur!a}')

    def results(self, name):
        out = []
        for a, b in self.listed(name):
            w = a + b
            if w.endswith('@') and not w.endswith('@@'):
                w = w[:-1]
            elif w.endswith('@@@'):
                w = w[:-1]
            w = w.replace('@@', '@')
            if w.isascii() and w.isalpha():
                out.append(w)
        return list(dict.fromkeys(out))

    def single(self, unit, rec):
        _, name, shard, shards = unit
        ws = self.results(name)[shard::shards]
        self.check_words(unit, rec, name, ws)
        self.check_words(unit, rec, name, [w + 'x' for w in ws])
        self.check_words(unit, rec, name, ['q' + w for w in ws])

    def pairs(self, unit, rec):
        _, name, top, shard, shards = unit
        ws = self.results(name)
        step = max(1, len(ws) // top)
        ws = ws[::step][:top]
        for i, a in enumerate(ws):
            if i % shards == shard:
                self.check_words(unit, rec, name, [a + b for b in ws])

    def replay(self, case, rec):
        if 'words' in case:
            self.check_words(case['unit'], rec, case['unit'][1], case['words'])
        else:
            self.run_unit(case['unit'], rec)


class LearnCheck(CorpusCheck):
    rule = ('every base vocabulary of one word (two letters, up to the stated length), of two and of three words with different '
            'frequencies, words over special characters, and every listed corpus x options x number of merges through the '
            'command line; non-trivial: at least one merge is learned')

    SPECIAL = ['a', '.', '[', '\\', '(', '^', '$', '*', '|', '+', 'ü', '\n', '\t', '\xa0', '日', '@', '😀', '{', '#', '-']

    def units(self, tier):
        t = tier == 'thorough'
        out = []
        one = [('ab', 14 if t else 10), ('abc', 8 if t else 6), ('a@', 10 if t else 7)]
        for a, l in one:
            s = 32 if t else 4
            out += [['one', a, l, k, s] for k in range(s)]
        two = [('ab', 6 if t else 5), ('abc', 4 if t else 3)]
        for a, l in two:
            s = 64 if t else 12
            out += [['two', a, l, k, s] for k in range(s)]
        s = 64 if t else 8
        out += [['three', 'ab', 4 if t else 3, k, s] for k in range(s)]
        s = 16 if t else 4
        out += [['special', 4 if t else 3, k, s] for k in range(s)]
        out += [['sizes', x, 400 if t else 100, 0, 1] for x in ('length', 'frequency')]
        out += [['sizes', 'words', k, 0, 1] for k in ((10, 40, 150, 600, 1300) if t else (10, 40, 150, 600))]
        for c in range(len(CORPORA)):
            for o in range(len(LEARN_OPTS)):
                out.append(['corpus', c, o, [1, 2, 3, 5, 8, 40, 400] if t else [1, 3, 8, 400]])
        return out

    def setup(self, home):
        super().setup(home)
        from codeprep.bpepkg import bpe_learn, bpe_encode
        self.do_merges = bpe_learn.do_merges
        self.encode_word = bpe_encode.encode_word

    def run_unit(self, unit, rec):
        kind = unit[0]
        if kind == 'corpus':
            return self.corpus(unit, rec)
        if kind == 'one':
            _, a, l, k, s = unit
            vocabs = ({''.join(w): 3} for n in range(1, l + 1) for w in itertools.product(a, repeat=n))
        elif kind == 'two':
            _, a, l, k, s = unit
            words = [''.join(w) for n in range(1, l + 1) for w in itertools.product(a, repeat=n)]
            vocabs = ({x: f, y: g} for x, y in itertools.permutations(words, 2) for f, g in ((3, 2), (5, 5)))
        elif kind == 'three':
            _, a, l, k, s = unit
            words = [''.join(w) for n in range(1, l + 1) for w in itertools.product(a, repeat=n)]
            vocabs = ({x: 7, y: 5, z: 3} for x, y, z in itertools.permutations(words, 3))
        elif kind == 'sizes':
            _, x, l, k, s = unit
            vocabs = self.sizes(x, l)
        else:
            _, l, k, s = unit
            vocabs = ({''.join(w) + 'a' + ''.join(w): 2, 'a': 5} for n in range(1, l + 1)
                      for w in itertools.product(self.SPECIAL, repeat=n))
        for i, vocab in enumerate(vocabs):
            if i % s != k:
                continue
            if rec.stop:
                return
            for n in (1, 3, 50) if kind != 'sizes' else (2, 30, 300):
                self.learn(unit, rec, vocab, n)
            if i % 5000 == k:
                rec.sample({'vocabulary': vocab})

    @staticmethod
    def sizes(what, limit):
        """Vocabularies which are large in one respect"""
        if what == 'length':
            for n in range(1, limit + 1):
                for period in ('a', 'ab', 'aab', 'abcdefghijklmnopqrstuvwxyz0123456789'):
                    w = (period * n)[:n]
                    yield {w: 2, 'xy' + w[::-1]: 3, 'xyz': 1}
        elif what == 'frequency':
            for n in sorted({b ** e + d for b in (2, 10) for e in range(1, limit) if b ** e < 10 ** 30 for d in (-1, 0, 1)} - {0}):
                yield {'ab': n, 'bc': n + 1, 'xaby': 1, 'cd': max(n - 1, 1)}
                yield {'ab': n, 'cab': n, 'bd': 2 * n + 1}
        else:
            words = [''.join(w) for w in itertools.product('abcdefg', repeat=4)]
            words = [w + w[:i % 4] for i, w in enumerate(words)]
            yield {w: i * i % 97 + 1 for i, w in enumerate(words[::max(1, len(words) // limit)][:limit])}
            yield {w: 1 for w in words[:limit]}

    def learn(self, unit, rec, base, n):
        rec.evaluations += 1
        case = {'unit': unit, 'vocab': base, 'n': n}
        try:
            with core.guard():
                final, ml = self.do_merges({' '.join(symbols(w)): f for w, f in base.items()}, n)
                merges = [(m.pair, m.freq) for m in ml]
        except core.Hang:
            return rec.violation(case, 'no end')
        except Exception as e:
            return rec.violation(case, f'learning {n} merges from {base!a} raised {e!r}')
        msg, vocab, _ = verify_merges(base, merges, n)
        if merges:
            rec.nontrivial((sorted(base.items()), n))
        rec.outcome(len(merges))
        if not msg:
            want = {' '.join(w): f for w, f in vocab.items()}
            if dict(final) != want:
                msg = f'the words are segmented as {final!a}, applying the merges gives {want!a}'
        if not msg and n != 3:
            for w, seg in zip(base, vocab):
                got = self.encode_word(''.join(symbols(w)), ml)
                if tuple(got) != seg:
                    msg = f'{w!a} is encoded as {got!a}, while learning it was segmented as {seg!a}'
        if msg:
            rec.violation(case, f'learning {n} merges from {base!a}: {merges!a}: {msg}')

    def corpus(self, unit, rec):
        _, c, o, ns = unit
        w = self.w
        opts, ext = LEARN_OPTS[o]
        for n in ns:
            if rec.stop:
                return
            w.wipe()
            w.forget()
            restore_vocab()
            for name, data in CORPORA[c].items():
                w.write('corp/' + name, data)
            w.tick()
            rec.evaluations += 1
            r = attempt(lambda: w.simulate(lambda: w.cli('learn-bpe', str(n), '-p', w.path('corp'), '--id', 'cid',
                                                         *(['-e', ext] if ext else []), *opts))[0])
            case = {'unit': unit, 'n': n}
            if not r.ok:
                rec.violation(case, f'learn-bpe {n} {opts} {ext}: {r}')
                continue
            base = base_vocab(self, CORPORA[c], 'java' if '--legacy' in opts else ext, '--no-unicode' in opts)
            learned = read_learned(w)
            if len(learned) != (1 if pair_counts({tuple(symbols(x)): f for x, f in base.items()}) else 0):
                # nothing to be learned: a folder without merges can be left
                if not (len(learned) == 1 and not next(iter(learned.values()))):
                    rec.violation(case, f'learn-bpe {n} left {sorted(learned)}')
                    continue
            for path, merges in learned.items():
                msg, vocab, _ = verify_merges(base, merges, n)
                if msg:
                    rec.violation(case, f'learn-bpe {n} {opts} {ext}: {msg}; base vocabulary {base!a}')
                elif merges:
                    rec.nontrivial((c, o, n))
                    self.usable(case, rec, merges, base, n)
            rec.sample({'corpus': sorted(CORPORA[c]), 'options': opts, 'ext': ext, 'n': n}, 2)

    def usable(self, case, rec, merges, base, n):
        """The learned codes are what bpe() uses."""
        w = self.w
        words = [x for x in base if x.isascii() and x.isidentifier()][:40]
        words = [x for x in words if not w.text.nosplit(x, 'java', return_metadata=True)[1].nonprocessable_tokens]
        for k in sorted({1, len(merges)}):
            want = ref.ref_bpe({p: i for i, (p, f) in enumerate(merges[:k])})
            got = attempt(lambda: [w.text.bpe(x, f'cid-{k}', 'java') for x in words])
            exp = [want(x) for x in words]
            for e in exp:
                e[-1] += '</t>'
            if not got.ok:
                rec.violation(case, f'bpe with cid-{k}: {got}')
            elif got.value != exp:
                d = [(x, g, e) for x, g, e in zip(words, got.value, exp) if g != e]
                rec.violation(case, f'bpe with cid-{k}, which was learned as {merges[:k]!a}, gives {d[:3]!a} (word, given, '
                                    'expected)')

    def replay(self, case, rec):
        if 'vocab' in case:
            self.learn(case['unit'], rec, case['vocab'], case['n'])
        else:
            self.run_unit(case['unit'], rec)


CORPORA = [
    {'a.java': b'int ab = abab;\nString s = "ab cd";\n', 'b.py': b'def ab(): pass # ab'},
    {'a.java': b'foo foo foo fool food // fool\n/* foo */ "foo" "fo o"'},
    {'a.java': 'größe größe x = "größe @ y"; @Override a@b'.encode(), 'b.java': 'größer GRÖSSE'.encode('latin1')},
    {'a.java': b'x'}, {'a.java': b''},
    {'a.java': b'"this is a very long string literal" "short st" aaaaaa aaaa aaa', 'sub/b.java': b'aaaaaaa "aa aa"'},
    {'a.c': b'if else if while for', 'b.py': b'while_ if_ None else1', 'c.java': b'None None while'},
    {'a.java': b'1234 1234 0x12 12.5e3 a1 a12 a123 _a_ __a'},
    {'a.java': b'a\\n b\\t "c\\n" \'\\u0041\' \\', 'b.txt': b'\\x41 \\\\ \\'},
    {'a.java': 'ab ab ab 日本 日本 \U0001f600 "日 本" ÷ \xa0x'.encode()},
    {'a/A.java': b'foo ( bar', 'b/A.java': b'if bar foo', 'c/a/A.java': b'foo ; bar', 'A.java': b'bar [ foo bar', 'A.py': b'foo % bar',
     'a/A': b'bar ! foo'},
    {f'f{i}.java': f'var{i % 3} item{i} = item{i + 1} + "s{i}";'.encode() for i in range(7)},
    {f'{x}.java': ''.join(f'{a}{b}{c}Of{x.title()} {b}{c}{a} {c}{x};\n' for a in 'abcde' for b in ('get', 'set', 'is', 'has') for c in 'wxyz').encode()
     for x in ('one', 'two', 'three')},
    {'a.java': b''.join(b'x = "' + b'lm' * (i // 2) + b'n' * (i % 2) + b'";\n' for i in range(30)),
     'b.py': ''.join(f"y = '{'ä ' * (i // 2) + 'ö' * (i % 2)}'\n" for i in range(20)).encode()},
]
LEARN_OPTS = [([], None), (['--no-unicode'], None), ([], 'java'), (['--no-unicode'], 'py|java'), (['--legacy'], None)]


def base_vocab(check, files, ext, no_unicode):
    """What merges are learned from: all full tokens of the selected files which can be split (comments left out, strings as a
    whole, long strings empty), with their numbers of occurrences. Uses the text functions of the code under test."""
    from codeprep.preprocess.placeholders import placeholders
    counts = collections.Counter()
    fixed = set(placeholders.values())
    exts = ext.split('|') if ext else None
    for name, data in files.items():
        if exts and not any(name.endswith('.' + x) for x in exts):
            continue
        from corpuschecks import text_of
        x = os.path.splitext(name)[1][1:]
        text = text_of(data)
        tokens, m = check.w.text.nosplit(text, x, no_com=True, full_strings=True, no_unicode=no_unicode, append_eof=True,
                                         return_metadata=True)
        whole = check.w.text.nosplit(text, x, no_com=True, full_strings=True, append_eof=True)
        tokens = ['""' if y.__name__ == 'StringLiteral' and len(z) > 14 else t for t, y, z in zip(tokens, m.token_types, whole)]
        counts.update(tokens)
        fixed |= set(m.nonprocessable_tokens)
    return {t: n for t, n in counts.items() if t not in fixed}


def read_learned(w):
    """All learned lists of merges, read without the code under test. -> {directory: [(pair, freq)]}"""
    out = {}
    for root, dirs, files in os.walk(w.home):
        if 'merges.txt' in files and not root.endswith('.part'):
            with fsops._real['open'](os.path.join(root, 'merges.txt'), 'rb') as f:
                data = f.read()
            merges = []
            for line in data.decode('ascii').split('\n')[:-1]:
                a, b, n = line.encode().decode('unicode-escape').split(' ')
                merges.append(((a, b), int(n)))
            out[os.path.relpath(root, w.home)] = merges
    return out


class WildCheck(core.Check):
    """Merges learned from running text (codeprep.bpepkg.wild_bpe)."""
    rule = ('every text up to a length over alphabets of one to four characters, every short block repeated with every other short '
            'block in between, every limit of merges for short texts, texts in files and folders; non-trivial: texts of three or more '
            'characters')
    # alphabet, length, shards
    bounds = {'quick': [('a', 40, 1), ('ab', 12, 8), ('abc', 8, 8), ('a|\u00fc.', 6, 4), ('a b', 8, 8),
                        ('a \xa0\n', 6, 4)],
              'thorough': [('a', 120, 1), ('ab', 17, 64), ('abc', 11, 64), ('a|\u00fc.', 8, 32), ('a b', 11, 64), ('a \xa0\n', 8, 16)]}

    def units(self, tier):
        out = [['texts', a, n, k, s] for a, n, s in self.bounds[tier] for k in range(s)]
        n = 3 if tier == 'quick' else 4
        return out + [['blocks', n, k, 8] for k in range(8)] + [['limits', k, 4] for k in range(4)] + [['files'], ['long']]

    def setup(self, home):
        core.import_codeprep()
        self.home = home
        import codeprep.bpepkg.wild_bpe as wild
        wild.getsize = lambda o: 0       # sys.getsizeof does not exist in PyPy
        self.wild = wild

    def run_unit(self, unit, rec):
        getattr(self, unit[0])(rec, unit, *unit[1:])

    def texts(self, rec, unit, alphabet, length, shard, shards):
        i = 0
        for n in range(0, length + 1):
            for t in itertools.product(alphabet, repeat=n):
                i += 1
                if i % shards == shard:
                    self.one(rec, unit, ''.join(t))
                if rec.stop:
                    return

    def blocks(self, rec, unit, n, shard, shards):
        words = [''.join(t) for k in range(1, n + 1) for t in itertools.product('ab', repeat=k)]
        for i, (x, y) in enumerate(itertools.product(words, words)):
            if i % shards != shard:
                continue
            for t in (x * 3 + y + x * 2, x + y + 'c' + x * 4 + y, (x + y) * 3 + x, (x * 2 + 'c' + y) * 2 + x + x):
                self.one(rec, unit, t)
            if rec.stop:
                return

    def limits(self, rec, unit, shard, shards):
        for i, t in enumerate(itertools.product('ab', repeat=7)):
            if i % shards == shard:
                for n in range(0, 8):
                    self.one(rec, unit, ''.join(t), n)

    def files(self, rec, unit):
        d = os.path.join(self.home, 'texts')
        os.makedirs(d)
        for t in ('', 'x', 'ab ab', 'a  a a', ' ', '\n\n', 'x\ny\nx\ny', '\u00fc \u00fc \u65e5', 'def f(x):\n  return x x', 'ab\xa0ab'):
            for enc in ('utf-8', 'latin1'):
                try:
                    data = t.encode(enc)
                except UnicodeEncodeError:
                    continue
                path = os.path.join(d, 'f.py')
                with open(path, 'wb') as f:
                    f.write(data)
                shown = t.replace(' ', '\xa0')
                self.judge(rec, unit, shown, None, attempt(lambda: self.collect(self.wild.run_from_file(path))))
                self.judge(rec, unit, shown + '\n\n\n', None, attempt(lambda: self.collect(self.wild.run_from_dir(d))))

    def long(self, rec, unit):
        """Files longer than what is read at once, with a character which decides the encoding at one place"""
        d = os.path.join(self.home, 'long')
        os.makedirs(d)
        for where in (0, 1, 100, 4095, 4096, 8190, 8191, 8192, 8193, 16384, 20000):
            for rest in (0, 1, 9000):
                for char, enc in (('\xe9', 'latin1'), ('\xe9', 'utf-8'), ('\U0001f600', 'utf-8'), ('q', 'utf-8'), ('\xff', 'latin1')):
                    t = 'ab c'[:4] * (where // 4) + 'ab c'[:where % 4] + char + 'bcb' * (rest // 3) + 'b' * (rest % 3)
                    path = os.path.join(d, 'f.py')
                    with open(path, 'wb') as f:
                        f.write(t.encode(enc))
                    shown = t.replace(' ', '\xa0')
                    for n in (1, 5):
                        self.judge(rec, unit, shown, n, attempt(lambda: self.collect(self.wild.run_from_file(path, n))))
                    self.judge(rec, unit, shown + '\n\n\n', 3, attempt(lambda: self.collect(self.wild.run_from_dir(d, 3))))

    @staticmethod
    def collect(it):
        with core.guard():
            return [(m, n) for m, n, _ in it]

    def one(self, rec, unit, text, n=None):
        self.judge(rec, unit, text.replace(' ', '\xa0'), n, attempt(lambda: self.collect(self.wild.run_from_text(text) if n is None
                                                                    else self.wild.run_from_text(text, n))))

    def judge(self, rec, unit, text, n, r):
        rec.evaluations += 1
        if len(text) > 2:
            rec.nontrivial((text, n))
        if not r.ok:
            rec.violation({'unit': unit, 'text': text, 'n': n}, f'{text[:300]!a}: {r}')
            return
        rec.outcome(r.value)
        msg = self.wrong(text, n, r.value)
        if msg:
            rec.violation({'unit': unit, 'text': text, 'n': n}, f'{text[:300]!a} with n={n} gives {r.value!a}: {msg}'[:800])

    @staticmethod
    def wrong(text, n, merges):
        seq = tuple(text)
        for i, (pair, freq) in enumerate(merges):
            c = collections.Counter(zip(seq, seq[1:]))
            parts = pair.split(' ')
            if len(parts) != 2 or tuple(parts) not in c:
                return f'merge {i} {pair!a} does not occur in {seq!a}'
            best = max(c.values())
            if c[tuple(parts)] != best:
                return f'merge {i} {pair!a} occurs {c[tuple(parts)]} times in {seq!a}, others {best} times'
            new = apply_merge(seq, tuple(parts))
            if freq != len(seq) - len(new):
                return f'merge {i} {pair!a} is recorded with {freq} occurrences, {len(seq) - len(new)} are merged'
            seq = new
        if n is not None and len(merges) > n:
            return f'{len(merges)} merges instead of {n}'
        if len(seq) > 1 and (n is None or len(merges) < n):
            return f'{seq!a} is left'
        return None

    def replay(self, case, rec):
        if 'text' in case and case['unit'][0] not in ('files', 'long'):
            return self.one(rec, case['unit'], case['text'], case.get('n'))
        self.run_unit(case['unit'], rec)


CHECKS = {'C15': EncodeCheck, 'C16': LearnCheck, 'C29': WildCheck}
