"""Checks of the public functions as a whole: histories of calls, and the ways to ask for the same thing."""
import ast
import itertools
import os
import sys

import core
import ref
from codeschecks import DATASETS, WORDS, greedy, words_of, write_words
from corpuschecks import CorpusCheck, restore_vocab
from textapi import MODES
from world import attempt, forked

TEXT = 'void ddbaNd_daba(Über x1) { // aB Cc\n\tif (getX12 == 0x1F) s = "a  bü CC@"; /* é */\n  return ddba + mmi; }'


def shown(r):
    tokens, m = r
    return [list(tokens), sorted(m.nonprocessable_tokens), list(m.word_boundaries), [t.__name__ for t in m.token_types]]


def spoil(r):
    """The caller does what it likes with what it got."""
    tokens, m = r
    for i in range(len(tokens)):
        tokens[i] = '?'
    tokens.append('@')
    del m.word_boundaries[:]
    m.nonprocessable_tokens.clear()
    m.token_types.append(None)


class CallHistories(CorpusCheck):
    """Every call gives what it gives as the first call of a process."""
    rule = ('every sequence of up to three (thorough: four) of the listed calls in one process, and every sequence of two calls (thorough: '
            'of three for one text in all languages) among all of the listed ways to call x texts x languages and among calls for unusual texts and unknown languages; the caller overwrites every list it '
            'is given; non-trivial: every call but the first of a sequence')
    # name -> (mode or codes id, options) of a text function
    CALLS = {
        'nosplit': ('nosplit', {}), 'full no_unicode': ('full', {'no_unicode': True}), 'nocase-stem': ('nocase-stem', {}),
        'basic all': ('numbers', {'no_spaces': True, 'no_com': True, 'no_str': True, 'append_eof': True}),
        'chars': ('chars', {}), '1k': ('1k', {}), '5k max 4': ('5k', {'no_unicode': True, 'max_str_length': 4}),
        'A-5': ('A-5', {}), 'A-2': ('A-2', {}), 'B-2': ('B-2', {'no_unicode': True}),
    }
    # for sequences of calls with other texts: ways to call x texts x languages
    WAYS = [('nosplit', {}), ('nosplit', {'no_com': True, 'no_str': True, 'no_spaces': True}),
            ('full', {'max_str_length': 5, 'append_eof': True}), ('basic', {'append_eof': True}), ('nocase', {'no_unicode': True}),
            ('stem', {}), ('chars', {'append_eof': True}), ('A-5', {}), ('B-2', {'no_unicode': True, 'append_eof': True})]
    TEXTS = ['', 'x = 1', '// aB', 'aB_10 = "b c" # aB', 'aB_10 = "b c" # aB\n', '/* aB\n ü */ ddba', '\tifIf 0x1FL', "'ddba"]
    EXTS = ['java', 'py', None]
    # for sequences of calls whose texts lead to different guesses of the language (no lexer has these names), or differ only far inside
    UNUSUAL = ['<?xml version="1.0"?><a b="c"><!-- aB --></a>', '#!/bin/sh\n# aB\necho "b c" | ifIf 10', '#!/usr/bin/python\naB = 10 # "b c" # aB\n',
               '#include <a.h>\nint aB = 0x1F; // "b c"\n'] + ['a = 10;\n' * 40 + 'aB = %s;\n' % x + 'b = "c d";\n' * 40 for x in ('10', '"c"', 'if')]
    UNUSUAL_EXTS = ['foo', 'Foo', 'bar', 'java']
    KEEP = ['1k keep', 'A-5 keep', 'B-2 keep', '1k keep no_unicode']      # force_reinit_bpe_data=False
    OTHER = ['unknown id', 'corpus chars', 'corpus A-2', 'corpus nosplit']

    def operations(self):
        return list(self.CALLS) + self.KEEP + self.OTHER

    def units(self, tier):
        ops = self.operations()
        texts = [['texts', i, 32] for i in range(32)] + [['unusual', i, 8] for i in range(8)]
        if tier == 'quick':
            return texts + [[3, [], i, 24] for i in range(24)]
        return texts + [['triples', t, i, 4] for t in range(len(self.TEXTS)) for i in range(4)] + \
            [[4, [a, b], 0, 1] for a in ops for b in ops]

    def setup(self, home):
        super().setup(home)
        w = self.w
        restore_vocab()
        for name in ('A', 'B'):
            path, files = DATASETS[name]
            for f in files:
                w.write(f'{path}/{f}', write_words(WORDS[f]))
            w.tick()
            w.simulate(lambda: w.cli('learn-bpe', '5' if name == 'A' else '2', '-p', w.path(path), '--id', name))
        w.write('c/x.java', TEXT.encode())
        w.tick()
        w.forget()
        self.state = w.save()
        self.first = {}
        self.n = 0
        for op in self.operations():
            if op in self.KEEP:
                continue
            r = forked(lambda: self.do(op))
            if not r.ok:
                raise RuntimeError(f'{op}: {r}')
            self.first[op] = r.value
        for op in self.KEEP:
            self.first[op] = self.first[op[:-5]] if op[:-5] in self.first else None
        r = forked(lambda: self.do('1k', opts={'no_unicode': True}))
        self.first['1k keep no_unicode'] = r.value

    def expected_by_spec(self, op):
        mode, opts = self.CALLS[op]
        opts = dict(opts)
        eof = opts.pop('append_eof', False)
        if mode in MODES:
            m, fixed = MODES[mode]
            bpe = None
            if m == 'bpe':
                bpe = ref.ref_bpe(ref.load_merges(os.path.join(core.REPO, 'codeprep', 'data', 'bpe', 'case', mode, 'merges.txt')))
            s = ref.Spec(m, {**fixed, **opts}, bpe)
        else:
            name, k = mode.split('-')
            merges = greedy(words_of(DATASETS[name][1]), int(k))[0]
            s = ref.Spec('bpe', opts, ref.ref_bpe({p: i for i, (p, _) in enumerate(merges)}))
        tokens, nonproc, bounds, types = s.run(TEXT, 'java', eof)
        return [list(tokens), sorted(nonproc), list(bounds), [ref.type_name(t) for t in types]]

    def do(self, op, opts=None):
        w = self.w
        t = w.text
        if op in self.CALLS or op in self.KEEP:
            keep = op in self.KEEP
            mode, o = self.CALLS.get(op) or ({'1k': '1k', 'A-5': 'A-5', 'B-2': 'B-2'}[op.split()[0]],
                                             {'no_unicode': True} if 'no_unicode' in op or op.startswith('B') else {})
            o = dict(o, **(opts or {}), return_metadata=True)
            if keep:
                o['force_reinit_bpe_data'] = False
            if mode in MODES and MODES[mode][0] != 'bpe':
                m, fixed = MODES[mode]
                r = getattr(t, m)(TEXT, 'java', **fixed, **o)
            else:
                r = t.bpe(TEXT, mode, 'java', **o)
            res = shown(r)
            spoil(r)
            return res
        if op == 'unknown id':
            try:
                t.bpe(TEXT, 'A-6', 'java')
            except Exception as e:
                return type(e).__name__
            return 'accepted'
        self.n += 1
        out = w.path(f'out{self.n}')
        what = op.split()[1]
        if what == 'A-2':
            r = w.simulate(lambda: w.corpus.bpe(w.path('c'), 'A-2', output_path=out))[0]
        else:
            r = w.simulate(lambda: self.call(what, w.path('c'), out))[0]
        return [x.decode('latin1') for x in self.observe(r)['files'].values()]

    def text_calls(self, texts=None):
        return [(way, t, e) for t in (range(len(self.TEXTS)) if texts is None else texts)
                for way in range(len(self.WAYS)) for e in range(len(self.EXTS))]

    def unusual_calls(self):
        return [(way, t, e) for t in range(len(self.TEXTS), len(self.TEXTS + self.UNUSUAL)) for way in (1, 4)
                for e in range(len(self.EXTS), len(self.EXTS + self.UNUSUAL_EXTS))]

    def args(self, call):
        way, text, ext = call
        return self.WAYS[way] + ((self.TEXTS + self.UNUSUAL)[text], (self.EXTS + self.UNUSUAL_EXTS)[ext])

    def do_text(self, call):
        mode, o, text, ext = self.args(call)
        try:
            if mode in MODES:
                m, fixed = MODES[mode]
                r = getattr(self.w.text, m)(text, ext, return_metadata=True, **fixed, **o)
            else:
                r = self.w.text.bpe(text, mode, ext, return_metadata=True, **o)
        except Exception as e:
            return type(e).__name__
        res = shown(r)
        spoil(r)
        return res

    def text_first(self, calls):
        if not hasattr(self, '_text_first'):
            self._text_first = {}
        for c in calls:
            if c not in self._text_first:
                r = forked(lambda: self.do_text(c))
                if not r.ok:
                    raise RuntimeError(f'{c}: {r}')
                self._text_first[c] = r.value
        return self._text_first

    def text_sequences(self, histories, first):
        n, bad = 0, []
        for h in histories:
            for i, c in enumerate(h):
                n += 1
                got = self.do_text(c)
                if got != first[c]:
                    bad.append((h[:i + 1], got))
                    break
            if bad:
                break
        return n, bad

    def named(self, call):
        mode, o, text, ext = self.args(call)
        return f'{mode}({text!a}, {ext!r}, {o})'

    def run_texts(self, unit, rec):
        if unit[0] in ('texts', 'unusual'):
            calls = self.text_calls() if unit[0] == 'texts' else self.unusual_calls()
            if unit[0] == 'unusual':
                import pygments.lexers
                pygments.lexers.guess_lexer('x')        # (loads all of the lexers)
            # one call first, then every other one, in an order that puts it after every other one, too
            histories = [[a, b] for i, a in enumerate(calls) if i % unit[2] == unit[1] for b in calls]
        else:
            calls = self.text_calls([unit[1]])
            histories = [[a, b, c] for i, a in enumerate(calls) if i % unit[3] == unit[2] for b in calls for c in calls]
        first = self.text_first(calls)
        r = forked(lambda: self.text_sequences(histories, first), 600)
        if not r.ok:
            rec.violation({'unit': unit}, f'{r}')
            return
        n, bad = r.value
        rec.evaluations += n
        rec.distinct.update(core.h64((unit, i)) for i in range(n if not bad else 0))
        for h, got in bad:
            rec.violation({'unit': unit, 'calls': h}, f'after {[self.named(c) for c in h[:-1]]} (and the histories before it), '
                          f'{self.named(h[-1])} gives {got!a} instead of {first[h[-1]]!a}')
        rec.sample({'unit': unit})

    def run_unit(self, unit, rec):
        if unit[0] in ('texts', 'triples', 'unusual'):
            return self.run_texts(unit, rec)
        depth, prefix, shard, n = unit
        ops = self.operations()
        for op in ops[shard::n] if not prefix else []:
            if op in self.CALLS:
                want = self.expected_by_spec(op)
                got = self.first[op]
                rec.outcome(got[0])
                if want[0] != got[0] or want[2] != got[2]:
                    rec.violation({'unit': unit, 'history': [op]}, f'{op} gives {got[:1]!a} instead of {want[:1]!a}')
                    return
        rests = list(itertools.product(ops, repeat=depth - len(prefix)))[shard::n]
        r = forked(lambda: self.sequences(prefix, rests), 600)
        if not r.ok:
            rec.violation({'unit': unit}, f'{r}')
            return
        n, bad = r.value
        rec.evaluations += n
        if not bad:
            rec.distinct.update(core.h64((unit, i)) for i in range(n))
        for history, msg in bad[:2]:
            rec.violation({'unit': unit, 'history': history}, msg)
        rec.sample({'unit': unit})

    def allowed(self, history):
        """force_reinit_bpe_data=False is for the same id as in the previous call of bpe()"""
        last = None
        for op in history:
            if op in self.KEEP and last is not None and last != op.split()[0]:
                return False
            if op in self.KEEP or op in self.CALLS and not (self.CALLS[op][0] in MODES and MODES[self.CALLS[op][0]][0] != 'bpe'):
                last = self.CALLS[op][0] if op in self.CALLS else op.split()[0]
        return True

    def sequences(self, prefix, rests):
        """-> (number of calls, what went wrong); in a process of its own"""
        n, bad = 0, []
        for rest in rests:
            history = list(prefix) + list(rest)
            if not self.allowed(history):
                continue
            self.w.forget()
            for i, op in enumerate(history):
                n += 1
                r = attempt(lambda: self.do(op))
                if not r.ok or r.value != self.first[op]:
                    got = r if not r.ok or not isinstance(r.value, list) else r.value[0]
                    bad.append((history[:i + 1], f'after {history[:i]}, {op} gives {got!a} instead of {self.first[op]!a}'[:900]))
                    break
            if len(bad) > 2:
                break
        return n, bad

    def replay(self, case, rec):
        if 'history' not in case:
            return self.run_unit(case['unit'], rec)
        h = case['history']
        r = forked(lambda: self.sequences(h, [()]))
        for history, msg in (r.value[1] if r.ok else [(h, f'{r}')]):
            rec.violation(case, msg)


# for the options of the command line: spellings and the arguments of the functions
FLAGS = {'no_spaces': ['--no-spaces', '-0'], 'no_unicode': ['--no-unicode', '-U'], 'no_com': ['--no-com', '-C'],
         'no_str': ['--no-str', '-S'], 'full_strings': ['--full-strings', '-f'], 'no_case': ['--no-case', '-l'],
         'split_numbers': ['--split-numbers', '-n'], 'ronin': ['--ronin', '-r'], 'stem': ['--stem', '-s']}
LIMIT = [['--max-str-length=%d'], ['-L', '%d'], ['-L=%d'], ['--max-str-length', '%d'], ['-L%d']]


def subsets(names):
    return [list(c) for n in range(len(names) + 1) for c in itertools.combinations(names, n)]


def strings(full):
    """The ways to treat strings"""
    out = [{}, {'no_str': True}, {'max_str_length': 0}, {'max_str_length': 7}, {'max_str_length': 26}]
    if full:
        out += [dict(o, full_strings=True) for o in out if 'no_str' not in o]
    return out


def option_sets(mode):
    out = []
    for flags in subsets(['no_spaces', 'no_unicode', 'no_com'] + (['no_case'] if mode == 'basic' else [])):
        for s in strings(mode == 'nosplit'):
            o = {f: True for f in flags}
            o.update(s)
            if mode == 'basic':
                for extra in ([], ['split_numbers'], ['split_numbers', 'ronin'], ['split_numbers', 'ronin', 'stem']):
                    out.append(dict(o, **{e: True for e in extra}))
            else:
                out.append(o)
    return out


def argv(opts, style):
    """The options of a command in one of several spellings and orders"""
    parts = []
    letters = ''
    for k, v in opts.items():
        if k == 'max_str_length':
            parts.append([x % v if '%' in x else x for x in LIMIT[style % len(LIMIT)]])
        elif style == 2:
            letters += FLAGS[k][1][1]
        else:
            parts.append([FLAGS[k][style % 2]])
    if letters:
        parts.append(['-' + letters])
    if style == 1:
        parts.reverse()
    return [x for p in parts for x in p]


CLI_TEXT = 'if (aBcGas_d12 == XÜ9 && 0x1F) { // Über 12\n\tString s = "ein Wörtchen 12 und so" + "a  b"; /* Kommentar */\n  }\n'


CLI_FILES = {'x.java.prep': (CLI_TEXT, 'java'), 'sub/y.py.prep': ('def f_Ab(): # Comm\n    return "doc str"', 'py'),
             'Z.Java.prep': ('class aB {} // Zz', 'Java'), 'sub/q.PY.prep': ('def aB(): pass # "Zz"', 'PY')}


class Interfaces(CorpusCheck):
    """The command line, the text functions and the corpus functions agree about what the options mean."""
    rule = ('every combination of the options of every command in three spellings (long, short, joined letters; different orders) '
            'with a text, with a dataset and with refused additions; every combination of the arguments of the functions and of the '
            'letters of a config string; non-trivial: combinations with at least one option')
    MODES = ['nosplit', 'chars', 'basic', 'bpe 1k', 'bpe 5k', 'bpe 10k', 'bpe A-3']

    def units(self, tier):
        n = 4
        out = [['text', m, style, i, n] for style in range(3) for m in self.MODES for i in range(n)]
        out += [['corpus', m, i, n] for m in self.MODES for i in range(n)]
        out += [['refused', m] for m in self.MODES] + [['config', i, 8] for i in range(8)] + [['encode', i, 8] for i in range(8)]
        return out

    def setup(self, home):
        super().setup(home)
        w = self.w
        restore_vocab()
        path, files = DATASETS['A']
        for f in files:
            w.write(f'{path}/{f}', write_words(WORDS[f]))
        w.tick()
        w.simulate(lambda: w.cli('learn-bpe', '5', '-p', w.path(path), '--id', 'A'))
        w.write('c/x.java', CLI_TEXT.encode())
        w.write('c/sub/y.py', b'def f_Ab(): # Comm\n    return "doc str"')
        w.write('c/Z.Java', b'class aB {} // Zz')
        w.write('c/sub/q.PY', b'def aB(): pass # "Zz"')
        w.tick()
        self.state = w.save()
        self.before = set(w.tree(w.home, names_only=True))
        self.merges = {'A-3': {p: i for i, (p, _) in enumerate(greedy(words_of(files), 3)[0])}}
        for m in ('1k', '5k', '10k'):
            self.merges[m] = ref.load_merges(os.path.join(core.REPO, 'codeprep', 'data', 'bpe', 'case', m, 'merges.txt'))

        ways = [self.spec('basic', dict({e: True for e in extra}, **o), CLI_TEXT, 'java') for o in ({}, {'no_case': True})
                for extra in ([], ['split_numbers'], ['split_numbers', 'ronin'], ['split_numbers', 'ronin', 'stem'])]
        assert all(a != b for a, b in itertools.combinations(ways, 2)), 'a text that does not tell the options apart'

    def spec(self, mode, opts, text, ext, eof=False):
        name, _, codes = mode.partition(' ')
        s = ref.Spec(name, opts, ref.ref_bpe(self.merges[codes]) if codes else None)
        return list(s.run(text, ext, eof)[0])

    def run_unit(self, unit, rec):
        getattr(self, unit[0])(rec, unit, *unit[1:])

    def fail(self, rec, unit, args, msg):
        rec.violation({'unit': unit, 'args': args}, msg[:900])

    def text(self, rec, unit, mode, style, shard, n):
        if self.merges and mode.startswith('bpe'):
            self.w.forget()
        texts = [(CLI_TEXT, 'java'), (CLI_TEXT, None), (CLI_TEXT, 'Py')] if style == 0 else [(CLI_TEXT, ['java', 'JAVA'][style - 1])]
        for o in option_sets(mode.split()[0])[shard::n]:
            for text, ext in texts:
                args = mode.split() + argv(o, style)
                if style == 1:
                    args = args + (['-e', ext] if ext else []) + [text]
                elif style == 2:
                    args = args + ['-v', '-V', text] + ([f'--ext={ext}'] if ext else [])
                else:
                    args = mode.split() + [text] + argv(o, style) + (['--ext', ext] if ext else [])
                rec.evaluations += 1
                if o:
                    rec.nontrivial(args)
                r = attempt(lambda: self.w.cli(*args))
                if not r.ok:
                    self.fail(rec, unit, args, f'codeprep {args!a}: {r}')
                    continue
                got = ast.literal_eval(r.value.strip() or 'None')
                want = self.spec(mode, o, text, ext)
                rec.outcome(got)
                if got != want:
                    self.fail(rec, unit, args, f'codeprep {args!a} gives {got!a} instead of {want!a}')
                if style == 0:
                    got = attempt(lambda: self.function(mode, o, text, ext))
                    if not got.ok or got.value != want:
                        self.fail(rec, unit, args, f'{mode}() with {o} gives {got} instead of {want!a}')
                if rec.stop:
                    return
        if shard == 0:
            for text in ('', '\n', ' ', '0', 'x'):
                args = mode.split() + [text]
                rec.evaluations += 1
                r = attempt(lambda: self.w.cli(*args))
                want = self.spec(mode, {}, text, None)
                if not r.ok or ast.literal_eval(r.value.strip() or 'None') != want:
                    self.fail(rec, unit, args, f'codeprep {args!a}: {r} instead of {want!a}')

    def function(self, mode, opts, text, ext):
        name, _, codes = mode.partition(' ')
        f = getattr(self.w.text, name)
        return f(text, codes, ext, **opts) if codes else f(text, ext, **opts)

    def corpus_function(self, mode, opts, ext, out, vocab):
        name, _, codes = mode.partition(' ')
        f = getattr(self.w.corpus, name)
        kw = dict(opts, extensions=ext, output_path=out, calc_vocab=vocab)
        return f(self.w.path('c'), codes, **kw) if codes else f(self.w.path('c'), **kw)

    def outputs(self, out):
        """What a run leaves behind"""
        files = self.w.tree(out)
        home = {k: v for k, v in self.w.tree(self.w.home).items()
                if os.path.basename(k) in ('vocab', 'vocabsize') and k not in self.before}
        names = sorted(self.w.tree(self.w.home, names_only=True))
        return {'files': files, 'vocabularies': home, 'names': names}

    def corpus(self, rec, unit, mode, shard, n):
        w = self.w
        sets = option_sets(mode.split()[0])[shard::n]
        if self.tier == 'quick':
            sets = [o for o in sets if len(o) <= 2]
        for i, o in enumerate(sets):
            ext = [None, 'java', 'java|py', 'py', 'Java', 'PY|Java', 'Java|java', 'y', 'av|PY'][i % 9]
            vocab = (i + i // 9) % 4 == 0
            where = ['-o', '--output-path', None][(i + i // 9) % 3]
            w.restore(self.state)
            w.forget()
            out = w.path('cwd')
            os.makedirs(out)
            args = mode.split() + [['-p', '--path'][i % 2], w.path('c')] + argv(o, i % 3)
            if where:
                args += [where, out]
            if ext:
                args += ['-e', ext]
            if vocab:
                args += [['-V', '--calc-vocab'][i % 2]]
            shown = [a.replace(w.root, '.') for a in args]
            rec.evaluations += 1
            rec.nontrivial(args)
            cwd = os.getcwd()
            os.chdir(out if not where else w.root)
            try:
                r = attempt(lambda: w.simulate(lambda: w.cli(*args))[0])
            finally:
                os.chdir(cwd)
            if not r.ok:
                self.fail(rec, unit, shown, f'codeprep {shown!a}: {r}')
                continue
            got = self.outputs(out)
            w.restore(self.state)
            w.forget()
            os.makedirs(out)
            want = attempt(lambda: w.simulate(lambda: self.corpus_function(mode, o, ext, out, vocab))[0])
            if not want.ok:
                self.fail(rec, unit, shown, f'{mode}() with {o}: {want}')
                continue
            want = self.outputs(out)
            for k in want:
                if got[k] != want[k]:
                    self.fail(rec, unit, shown, f'codeprep {shown!a} and the function {mode} with {o}: {k}: {got[k]!a} and {want[k]!a}')
                    break
            tokens = {}
            for f, data in want['files'].items():
                name = f.split('/', 1)[1] if '/' in f else f
                text = CLI_FILES.get(name)
                if text is None:
                    continue
                tokens[name] = data
                line = [t.encode().decode('unicode-escape') for t in data.decode('ascii').rstrip('\n').split(' ')]
                exp = self.spec(mode, o, text[0], text[1], True)
                if line != exp and [t for t in line if t not in ('\n', '\n</t>')] != [t for t in exp if t not in ('\n', '\n</t>')]:
                    self.fail(rec, unit, shown, f'codeprep {shown!a} writes {line!a} instead of {exp!a}')
            selected = {f for f in CLI_FILES if not ext or any(f.endswith(f'.{e}.prep') for e in ext.split('|'))}
            if set(tokens) != selected:
                self.fail(rec, unit, shown, f'codeprep {shown!a} writes {sorted(want["files"])}')
            if bool(want['vocabularies']) != vocab:
                self.fail(rec, unit, shown, f'codeprep {shown!a}: vocabularies {sorted(want["vocabularies"])}')
            if rec.stop:
                return

    def refused(self, rec, unit, mode):
        """Options which exclude each other or do not belong to the command"""
        w = self.w
        name = mode.split()[0]
        bad = [['-S', '-L', '5', 'x'], ['--no-str', '--max-str-length=5', 'x'], ['x', '-o', 'y'], ['x', '-p', 'c'], [], ['-p'], ['x', 'y'], ['--nonsense', 'x']]
        if name == 'nosplit':
            bad += [['-S', '-f', 'x'], ['--no-str', '--full-strings', 'x']]
        else:
            bad += [['-f', 'x']]
        if name != 'basic':
            bad += [['-l', 'x'], ['-n', 'x'], ['-r', 'x'], ['-s', 'x'], ['--no-case', 'x']]
        for args in bad:
            args = mode.split() + args
            rec.evaluations += 1
            rec.nontrivial(args)
            before = sorted(w.tree(w.home, names_only=True))
            r = attempt(lambda: w.cli(*args))
            if r.kind != 'exit':
                self.fail(rec, unit, args, f'codeprep {args!a} is not refused: {r}')
            elif before != sorted(w.tree(w.home, names_only=True)):
                self.fail(rec, unit, args, f'codeprep {args!a} is refused, but files appear')

    def meaning(self, c):
        """What a configuration does, in terms of what the text functions do with it"""
        from codeprep.pipeline.to_repr import to_repr
        from codeprep.parse.core import convert_text
        return to_repr(c, list(convert_text(CLI_TEXT, 'java')))[0]

    def config(self, rec, unit, shard, n):
        """Config strings: letters -> configuration -> letters"""
        from codeprep.prepconfig import PrepConfig, PrepParam
        vals = [PrepConfig.possible_param_values[p] for p in PrepParam]
        for i, letters in enumerate(itertools.product(*vals)):
            if i % n != shard:
                continue
            s = ''.join(letters)
            rec.evaluations += 1
            rec.nontrivial(s)
            enonly, com, st, split, tabs, case = letters
            r = attempt(lambda: PrepConfig.from_encoded_string(s))
            ok = not (case == 'l' and split in '0F45679')
            if r.ok != ok:
                self.fail(rec, unit, s, f'the combination {s} is {"accepted" if r.ok else "refused"}: {r}')
                continue
            if not ok:
                continue
            c = r.value
            if str(c) != s or PrepConfig.from_encoded_string(str(c)) != c or not (c == PrepConfig(dict(zip(PrepParam, letters)))):
                self.fail(rec, unit, s, f'{s} is read as {c}')
            if rec.stop:
                return
        if shard == 0:
            for s in ['', 'u', 'uc1us', 'uc1s0uu', 'xc1s0u', 'uc-0su', 'UC10su']:
                if attempt(lambda: PrepConfig.from_encoded_string(s)).ok:
                    self.fail(rec, unit, s, f'the string {s!r} is accepted')

    def encode(self, rec, unit, shard, n):
        """Arguments of the functions -> configuration: different meanings have different strings, and each says what was asked for"""
        from codeprep.api.common import create_prep_config
        seen = {}
        i = 0
        limits = [None, 0, 1, 2, 3, 9, 10, 11, 35, 36, 37, 60, 61]
        for mode in ['nosplit', 'chars', 'basic', 'bpe 1k', 'bpe 5k', 'bpe 10k', 'bpe A-3']:
            name, _, codes = mode.partition(' ')
            names = ['no_spaces', 'no_unicode', 'no_com', 'no_str'] + {'nosplit': ['full_strings'],
                                                                     'basic': ['no_case', 'split_numbers', 'ronin', 'stem']}.get(name, [])
            for flags in subsets(names):
                for limit in limits:
                    o = {f: True for f in flags}
                    if limit is not None:
                        o['max_str_length'] = limit
                    c = create_prep_config(name, bpe_codes_id=codes or None, **o)
                    s = str(c)
                    split = ('stem' if 'stem' in o else 'ronin' if 'ronin' in o else 'numbers' if 'split_numbers' in o else
                             'full' if 'full_strings' in o else '')
                    meaning = (mode, split, 'no_spaces' in o, 'no_unicode' in o, 'no_com' in o, 'no_case' in o,
                               'no' if 'no_str' in o else None if limit is None else max(limit, 2))
                    rec.evaluations += 1
                    if seen.setdefault(s, meaning) != meaning:
                        self.fail(rec, unit, [mode, o], f'{mode} with {o} has the config string {s}, which stands for {seen[s]} already')
                    i += 1
                    if i % n != shard or mode.endswith('-3'):
                        continue
                    rec.nontrivial((mode, sorted(o.items())))
                    got = self.function(mode, o, CLI_TEXT, 'java') if not codes else None
                    if got is not None:
                        eff = dict(o)
                        if 'stem' in o:
                            eff.update(ronin=True, split_numbers=True)
                        if 'ronin' in o:
                            eff.update(split_numbers=True)
                        want = self.spec(mode, eff, CLI_TEXT, 'java')
                        rec.outcome(got)
                        if got != want:
                            self.fail(rec, unit, [mode, o], f'{mode} with {o} gives {got!a} instead of {want!a}')
                    if rec.stop:
                        return

    def replay(self, case, rec):
        self.run_unit(case['unit'], rec)


CHECKS = {'C13': CallHistories, 'C14': Interfaces}
