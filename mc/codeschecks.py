"""Checks of what learn-bpe leaves behind: ids, histories of learning, interruptions, saved files."""
import collections
import itertools
import os
import re

import core
import fsops
import ref
from bpechecks import apply_merge, pair_counts, read_learned, symbols, verify_merges
from corpuschecks import CorpusCheck, CrashCheck, restore_vocab, text_of
from world import attempt


def greedy(base, n):
    """-> (first n merges learned from word -> frequency, is there never a tie)"""
    vocab = {tuple(symbols(w)): f for w, f in base.items()}
    merges, unique = [], True
    for _ in range(n):
        counts = pair_counts(vocab)
        if not counts:
            break
        best = max(counts.values())
        pairs = [p for p, c in counts.items() if c == best]
        unique = unique and len(pairs) == 1
        merges.append((pairs[0], best))
        vocab = {apply_merge(w, pairs[0]): f for w, f in vocab.items()}
    return merges, unique


def write_words(words):
    """words: [(word, times)] -> contents of a file, which begins with an operator of its own"""
    out = ['+-*/%&|^!~<>=?:,;.()[]{}'[sum(map(ord, words[0][0])) % 24]]
    for w, n in words:
        out += [' '.join([w] * n)]
    return ('\n'.join(out) + '\n').encode()


# The words of the datasets are neither keywords nor split by the parser; no pair is ever as frequent as another one among
# the first merges.
WORDS = {
    'A.java': [('ddba', 19), ('nd', 15), ('daba', 10), ('adna', 9), ('ndadba', 13), ('ünab', 9)],
    'A.py': [('appaay', 14), ('apayy', 11), ('pyy', 13), ('yapa', 6), ('ayy', 5)],
    'A2.java': [('aaao', 2), ('aakss', 15), ('skk', 19), ('kks', 20), ('koaa', 14)],
    'B.java': [('mmi', 20), ('ooioi', 11), ('mii', 7), ('mmm', 16), ('mimi', 14)],
    'C.java': [('iitttu', 2), ('tiuti', 10), ('tuiu', 9), ('tttu', 2), ('ttuttt', 11)],
    'D.java': [('eeluau', 8), ('uulal', 3), ('uueea', 14), ('lleaa', 10), ('ueuee', 12)],
    'new.java': [('yzayz', 3), ('xxy', 4), ('yza', 10), ('ayyzzx', 14), ('yyxxz', 14)],
}
MANY = {   # more than a hundred merges
    'E.java': [('cddegh', 48), ('ffgegabaea', 32), ('cfefhdahch', 2), ('bbcha', 45), ('gdfbhcfh', 33), ('hagah', 34), ('behafgbged', 59),
               ('hhdafhehdf', 58), ('eehcgcbeha', 44), ('cgbehhhgae', 10), ('gggffgfhgf', 32), ('bacgdgeag', 50), ('faeafaehb', 40),
               ('cfebhadg', 13), ('bachccggdh', 5), ('hgbabebd', 56), ('bdhfdh', 16), ('bhdcg', 14)],
}
WORDS.update(MANY)
IDS = ['my', 'my ', ' my', 'My', 'my-1', 'my_1', 'my-', 'm', 'my\t', 'a\nb', 'a', 'my\n', 'm\xfc', '1k', '5k-1', '10', 'proj', '.', 'a/b', 'my.part', '*',
       'part_vocab', 'x' * 300, '日本']
NUMBERS = [1, 2, 9, 10, 11, 20, 99, 100]
DATASETS = {'E': ('r/many', ['E.java']), 'A': ('p/proj', ['A.java', 'A.py']), 'A2': ('q/proj', ['A2.java']), 'B': ('p/proj_1', ['B.java']),
            'C': ('p/proj_nounicode', ['C.java']), 'D': ('p/a_-_b', ['D.java'])}
DATASETS.update({f'M {i}': (f'm{i}/same', [('A2', 'B', 'C', 'D')[i % 4] + '.java']) for i in range(24)})


def words_of(files, ext=None, no_unicode=False):
    c = collections.Counter()
    for f in files:
        if ext and not f.endswith('.' + ext):
            continue
        for w, n in WORDS[f]:
            if not (no_unicode and not w.isascii()):
                c[w] += n
    return dict(c)


class LearnHistories(CorpusCheck):
    rule = ('every history of up to three (thorough: four) of the listed operations (learn n merges on one of five datasets with '
            'several options and ids, change a dataset, preprocess one), and longer ones with many datasets of one name or many numbers of merges; after every operation all ids, all numbers of merges and '
            'all vocabularies are looked at; non-trivial: histories after which at least one id exists')
    # name, dataset, n, options
    LEARN = [('A3', 'A', 3, []), ('A5', 'A', 5, []), ('A1', 'A', 1, []), ('Ano2', 'A', 2, ['--no-unicode']),
             ('Aj3', 'A', 3, ['-e', 'java']), ('Aleg2', 'A', 2, ['--legacy']), ('A2', 'A2', 3, []), ('B2', 'B', 2, []),
             ('C2', 'C', 2, []), ('D2', 'D', 2, []), ('Amy3', 'A', 3, ['--id', 'my']), ('A2my2', 'A2', 2, ['--id', 'my']),
             ('Bproj', 'B', 2, ['--id', 'proj']), ('C99', 'C', 99, [])]
    OTHER = ['edit A', 'prep A', 'bpe A', 'A bytes', 'B word-end']

    def operations(self):
        return [x[0] for x in self.LEARN] + self.OTHER

    def units(self, tier):
        ops = self.operations()
        out = [[3 if tier == 'quick' else 4, [a, b]] for a in ops for b in ops]
        # numbers of merges with different numbers of digits
        # more datasets of the same name than one digit can number; every number of merges one after the other
        out += [[k, [f'M {i}' for i in order], r] for k in (14 if tier == 'quick' else 24,) for order in (range(k), range(k - 1, -1, -1))
                for r in (False, True)]
        out += [[12, [f'E {i}' for i in order]] for order in (range(1, 13), range(12, 0, -1), (6, 12, 1, 11, 2, 10, 3, 9, 4, 8, 5, 7))]
        # ids that look like others
        out += [[2, [f'I C {a}', f'I D {b}']] for a in IDS for b in IDS]
        return out + [[2 if tier == 'quick' else 3, [f'E {a}', f'E {b}'], r] for a in NUMBERS for b in NUMBERS
                      for r in (False, True)]

    def setup(self, home):
        super().setup(home)
        import codeprep.pipeline.bperegistry as reg
        self.reg = reg
        import codeprep.pipeline.vocabloader as vl
        self.vl = vl
        for name, (path, files) in DATASETS.items():
            for ext in (None, 'java'):
                for nou in (False, True):
                    base = words_of(files, ext, nou)
                    if not greedy(base, 5 if name in 'A' else 3)[1]:
                        raise RuntimeError(f'tie in {name} {ext} {nou}')
        if not greedy(words_of(DATASETS['A'][1] + ['new.java']), 5)[1]:
            raise RuntimeError('tie after edit')

    def start(self):
        w = self.w
        w.wipe()
        w.forget()
        restore_vocab()
        for name, (path, files) in DATASETS.items():
            if name[0] == 'M':
                continue
            for f in files:
                w.write(f'{path}/{f}', write_words(WORDS[f]))
            w.tick()
        return {'slots': {}, 'files': {k: list(v[1]) for k, v in DATASETS.items()}, 'version': 0}

    def arrange(self, unit):
        super().arrange(unit)
        if len(unit) > 2:
            self.w.fs.reverse = unit[2]

    def run_unit(self, unit, rec):
        depth, prefix = unit[:2]
        state = self.start()
        for i, op in enumerate(prefix):
            state = self.step(unit, rec, prefix[:i], op, state)
            if state is None:
                return
        self.explore(unit, rec, prefix, state, depth)

    def explore(self, unit, rec, history, state, depth):
        if len(history) >= depth or rec.stop:
            return
        saved = self.w.save()
        for op in self.operations() if history[0][0] != 'E' else [f'E {n}' for n in NUMBERS]:
            if rec.stop:
                return
            self.w.restore(saved)
            nxt = self.step(unit, rec, history, op, state)
            if nxt is not None:
                self.explore(unit, rec, history + [op], nxt, depth)

    def step(self, unit, rec, history, op, state):
        """-> the state after the operation, or None if it went wrong"""
        w = self.w
        w.tick()
        w.forget()
        state = {'slots': {k: dict(v, learned=set(v['learned'])) for k, v in state['slots'].items()},
                 'files': dict(state['files']), 'version': state['version']}
        case = {'unit': unit, 'history': history + [op]}
        rec.evaluations += 1
        if op == 'edit A':
            if state['version']:
                return None      # the same as before
            w.write('p/proj/new.java', write_words(WORDS['new.java']))
            state['files']['A'] = state['files']['A'] + ['new.java']
            state['version'] = 1
        elif op == 'prep A':
            r = attempt(lambda: w.simulate(lambda: self.call('nosplit', w.path('p/proj'), w.path('out'), vocab=True))[0])
            if not r.ok:
                rec.violation(case, f'{r}')
                return None
        elif op in ('A bytes', 'B word-end'):       # not supported
            args = ('2', '-p', w.path(DATASETS[op[0]][0]), '--' + op[2:])
            r = attempt(lambda: w.simulate(lambda: w.cli('learn-bpe', *args))[0])
            if r.ok or 'BpeConfigNotSupported' not in str(r.value):
                rec.violation(case, f'learn-bpe {args}: {r}')
                return None
        elif op == 'bpe A':
            ids = sorted(s['id'] for s in state['slots'].values() if s['id'])
            if not ids:
                return None
            r = attempt(lambda: w.simulate(lambda: w.corpus.bpe(w.path('p/proj'), f'{ids[0]}-1',
                                                                output_path=w.path('out')))[0])
            if not r.ok:
                rec.violation(case, f'{r}')
                return None
        else:
            if op[0] == 'I':
                ds, n, opts = op[2], 2, ['--id', op[4:]]
            elif op[0] == 'E':
                ds, n, opts = 'E', int(op[2:]), []
            elif op[0] == 'M':
                ds, n, opts = op, 2, []
                path, files = DATASETS[op]
                state['files'][op] = files
                for f in files:
                    w.write(f'{path}/{f}', write_words(WORDS[f]))
                w.tick()
            else:
                _, ds, n, opts = next(x for x in self.LEARN if x[0] == op)
            ext = 'java' if '--legacy' in opts or '-e' in opts else None
            nou = '--no-unicode' in opts
            key = (ds, state['version'] if ds == 'A' else 0, ext, nou)
            base = words_of(state['files'][ds], ext, nou)
            merges, unique = greedy(base, n)
            slot = state['slots'].get(key)
            want = opts[opts.index('--id') + 1] if '--id' in opts else None
            refused = slot is None and want is not None and want in [s['id'] for s in state['slots'].values()]
            spelled = ['--id=' + opts[1]] if op[0] == 'I' else opts
            r = attempt(lambda: w.simulate(lambda: w.cli('learn-bpe', str(n), '-p', w.path(DATASETS[ds][0]), *spelled))[0])
            if not r.ok and not refused:
                rec.violation(case, f'{r}')
                return None
            if not refused:
                if slot is None:
                    slot = state['slots'][key] = {'id': None, 'want': want, 'learned': set(), 'base': base, 'merges': []}
                if len(merges) > len(slot['merges']):
                    slot['merges'] = merges
                slot['learned'].add(len(merges))
        msg = self.look(state, history + [op])
        if msg:
            rec.violation(case, f'after {history + [op]}: {msg}')
            return None
        if state['slots']:
            rec.nontrivial(history + [op])
        rec.outcome(sorted((s['id'], sorted(s['learned'])) for s in state['slots'].values()))
        rec.sample(case)
        return state

    def listed(self):
        """What the user is told is available"""
        if not os.path.isdir(self.reg.USER_BPE_DIR):
            return {}
        out = {}
        for name, n in re.findall(r'(.*?)-\[1\.\.(\d+)\]\n', self.reg.format_available_merge_list_ids(), re.S):
            if name in out:
                out[name + ' (twice)'] = 0
            out[name] = int(n)
        return out

    def rejected(self, name):
        try:
            r = self.w.text.bpe('x', name, 'java')
        except self.reg.InvalidBpeCodesIdError:
            return None
        except Exception as e:
            return f'bpe codes id {name!r} raised {e!r}'
        return f'bpe codes id {name!r} is accepted and gives {r!a}'

    def look(self, state, history):
        slots = state['slots']
        if not slots:
            return self.rejected('proj-1')
        got = self.listed()
        self.w.fs.reverse = not self.w.fs.reverse
        other = self.listed()
        self.w.fs.reverse = not self.w.fs.reverse
        if other != got:
            return f'listed are {got}, or {other} if directories are listed in another order'
        known = {s['id']: max(s['learned']) for s in slots.values() if s['id']}
        for s, n in known.items():
            if got.get(s) != n:
                return f'{s}-[1..{n}] was learned, listed are {got}'
        fresh = [i for i in got if i not in known]
        new = [s for s in slots.values() if s['id'] is None]
        if len(fresh) != len(new):
            return f'the listed ids are {got}, {len(slots)} datasets were learned, {sorted(known)} were known before'
        for s in new:
            s['id'] = fresh[0]
            if s['want'] and s['want'] != s['id']:
                return f'the id {s["want"]!r} was asked for, the codes have the id {s["id"]!r}'
            if got[s['id']] != max(s['learned']):
                return f'{got} instead of {max(s["learned"])} merges'
        for s in slots.values():
            n = max(s['learned'])
            ks = range(1, n + 1) if s in new or len(slots) == 1 else sorted({1, n, min(s['learned'])})
            if len(s['merges']) > 5:
                ks = sorted(k for k in ks if k <= 3 or k >= n - 1)
            words = list(s['base']) + ['ddbanda', 'tuttiu', 'zxyza', 'mimii', 'q']
            words = [w for w in words if w.isascii()]
            exact = self.exact(s)
            for k in ks:
                merges = [p for p, f in s['merges'][:k]]
                r = attempt(lambda: self.w.text.bpe(' '.join(words), f'{s["id"]}-{k}', 'java'))
                if not r.ok:
                    return f'bpe with {s["id"]}-{k}: {r}'
                if k > exact:       # equally frequent pairs: any of them
                    continue
                f = ref.ref_bpe({p: i for i, p in enumerate(merges)})
                want = []
                for w in words:
                    parts = f(w)
                    want += parts[:-1] + [parts[-1] + '</t>']
                if r.value != want:
                    return f'bpe with {s["id"]}-{k} gives {r.value!a}, with the merges {merges!a} it is {want!a}'
            for bad in (f'{s["id"]}-{n + 1}', f'{s["id"]}-0', s['id'], f'{s["id"]}x-1', f'{s["id"]}-'):
                fine = bad in ('1k', '5k', '10k') or (bad.rsplit('-', 1)[0] in got and bad.rsplit('-', 1)[-1] == '1')
                msg = None if fine else self.rejected(bad)
                if msg:
                    return msg
        return None

    def exact(self, s):
        """The number of merges which are the only possible ones"""
        for k in range(len(s['merges']), -1, -1):
            if greedy(s['base'], k)[1]:
                return k

    def replay(self, case, rec):
        state = self.start()
        history = []
        for op in case.get('history') or case['unit'][1]:
            state = self.step(case['unit'], rec, history, op, state)
            history = history + [op]
            if state is None:
                return



class LearnCrash(CrashCheck):
    rule = ('every file operation of learn-bpe (from nothing, or continuing fewer merges) x every torn-write variant x {process '
            'killed, write error}, the same command again in the same or in a later second, with a second crash at every point of the '
            'second run; '
            'before and after the second run every listed id must give exactly the learned codes')
    # merges learned before without interruption, merges of the interrupted command, options, dataset
    configs = {'quick': [((), 3, [], 'A'), ((2,), 4, [], 'A'), ((3,), 2, ['--no-unicode', '--id', 'my'], 'C')],
               'thorough': [((), 3, [], 'A'), ((2,), 4, [], 'A'), ((3,), 2, ['--no-unicode', '--id', 'my'], 'C'),
                            ((), 99, [], 'C'), ((1, 3), 5, ['-e', 'java'], 'A')]}

    def units(self, tier):
        out = []
        for c in self.configs[tier]:
            for gap in (10, 0):
                out += [[list(c), gap, 'single', k, 8] for k in range(8)]
        out += [[[[2], 4, [], 'C'] if tier == 'thorough' else [[1], 2, [], 'C'], 10, 'double', k, 64] for k in range(64)]
        return out

    def warm_job(self, path, out):
        self.w.cli('learn-bpe', '2', '-p', path)
        self.w.cli('learn-bpe', '3', '-p', path)
        self.reg_look()

    def reg_look(self):
        import codeprep.pipeline.bperegistry as reg
        import codeprep.pipeline.vocabloader as vl
        out = {}
        if os.path.isdir(reg.USER_BPE_DIR):
            for line in reg.format_available_merge_list_ids().split('\n')[:-1]:
                name, n = line.rsplit('-[1..', 1)
                n = int(n.rstrip(']'))
                out[name] = n
        return out, vl

    def run_unit(self, unit, rec):
        (before, n, opts, ds), gap, kind, shard, shards = unit
        w = self.w
        restore_vocab()
        w.wipe()
        w.forget()
        path, files = DATASETS[ds]
        for f in files:
            w.write(f'{path}/{f}', write_words(WORDS[f]))
        w.tick()
        ext = 'java' if '-e' in opts else None
        base = words_of(files, ext, '--no-unicode' in opts)
        words = [x for x in base if x.isascii()] + ['ddbanda', 'tuttiu', 'q']
        top = len(greedy(base, max(list(before) + [n]))[0])
        merges, _ = greedy(base, top)
        exact = max(k for k in range(top + 1) if greedy(base, k)[1])

        def learn(k):
            w.cli('learn-bpe', str(k), '-p', w.path(path), *opts)

        for k in before:
            w.simulate(lambda: learn(k))
            w.tick()
        start = w.save()
        start = (start[0], start[1] + 10)

        def splits(name, k):
            got = w.text.bpe(' '.join(words), f'{name}-{k}', 'java')
            f = ref.ref_bpe({p: i for i, (p, _) in enumerate(merges[:k])})
            want = []
            for x in words:
                parts = f(x)
                want += parts[:-1] + [parts[-1] + '</t>']
            return None if got == want or k > exact else f'{name}-{k} gives {got!a}, the merges {merges[:k]!a} give {want!a}'

        def job():
            w.forget()
            listed, _ = self.reg_look()
            bad = None
            for name, k in listed.items():
                if k > top:
                    bad = f'{name} is listed with {k} merges'
                else:
                    bad = bad or splits(name, k) or splits(name, 1)
            learn(n)
            return bad

        def observe(bad):
            listed, vl = self.reg_look()
            o = {'before the second run': bad, 'listed': listed, 'wrong': [], 'merges': {}}
            for name, k in listed.items():
                for j in sorted({1, k}):
                    m = splits(name, j)
                    if m:
                        o['wrong'].append(m)
                o['base vocabulary'] = vl.all(name)
                o['fixed tokens'] = vl.nonbpe(name)
                o['bpe vocabulary'] = vl.bpe(name, k)
            for d, ms in read_learned(w).items():
                o['merges'][d] = ms[:exact] + ms[exact:] * (len(ms) <= exact) + [len(ms)]
            return o

        def need(o):
            if o['before the second run'] or o['wrong'] or len(o['listed']) != 1 or list(o['listed'].values()) != [top]:
                return str(o)[:500]

        self.explore_crashes(unit, rec, start, job, observe, shard=shard, shards=shards, gap=gap, double=kind == 'double',
                             need=need, modes=('crash',) if kind == 'double' else ('crash', 'fault'))


def counts_of(check, files, ext, no_unicode):
    """-> (number of occurrences of every token merges are learned from or which stays whole, the tokens which stay whole)"""
    from codeprep.preprocess.placeholders import placeholders
    counts = collections.Counter()
    fixed = set(placeholders.values())
    exts = ext.split('|') if ext else None
    for name, data in files.items():
        if exts and not any(name.endswith('.' + x) for x in exts):
            continue
        tokens, m = check.w.text.nosplit(text_of(data), os.path.splitext(name)[1][1:], no_com=True, full_strings=True,
                                         max_str_length=14, no_unicode=no_unicode, append_eof=True, return_metadata=True)
        counts.update(tokens)
        fixed |= set(m.nonprocessable_tokens)
    return dict(counts), fixed


class CodesVocabularies(CorpusCheck):
    rule = ('every listed corpus x options x every sequence of up to two (thorough: three) numbers of merges learned one after '
            'the other; all four vocabularies of every learned id are compared with the token counts of the text functions and '
            'the segmentation by the learned merges; non-trivial: corpora with at least one merge')

    def units(self, tier):
        ns = [1, 3, 8, 400] if tier == 'quick' else [1, 2, 3, 5, 8, 40, 400]
        k = 2 if tier == 'quick' else 3
        seqs = [list(s) for r in range(1, k + 1) for s in itertools.permutations(ns, r)]
        from bpechecks import CORPORA, LEARN_OPTS
        return [[c, o, seqs] for c in range(len(CORPORA)) for o in range(len(LEARN_OPTS) - 1)] + \
            [[-n, 0, [[3], [3, 8]]] for n in ((5, 600, 1300) if tier == 'thorough' else (5, 600))]

    def setup(self, home):
        super().setup(home)
        import codeprep.pipeline.vocabloader as vl
        self.vl = vl

    def run_unit(self, unit, rec):
        from bpechecks import CORPORA, LEARN_OPTS
        c, o, seqs = unit
        w = self.w
        opts, ext = LEARN_OPTS[o]
        if c < 0:   # many files, each with a token that may not be split
            files = {f'd{i % 7}/f{i}.java': f'{chr(0x2190 + i)} ab{i % 50} cd if'.encode() for i in range(-c)}
        else:
            files = {k: v.rstrip(b'\n') for k, v in CORPORA[c].items()}
        counts, fixed = counts_of(self, files, ext, '--no-unicode' in opts)
        saved = {}
        for seq in seqs:
            if rec.stop:
                return
            if tuple(seq[:-1]) in saved:
                w.restore(saved[tuple(seq[:-1])])
            else:
                w.wipe()
                restore_vocab()
                for name, data in files.items():
                    w.write('corp/' + name, data)
            w.forget()
            w.tick()
            n = seq[-1]
            rec.evaluations += 1
            case = {'unit': [c, o, [seq]]}
            r = attempt(lambda: w.simulate(lambda: w.cli('learn-bpe', str(n), '-p', w.path('corp'), '--id', 'cid',
                                                         *(['-e', ext] if ext else []), *opts))[0])
            if not r.ok:
                rec.violation(case, f'learn-bpe {seq} {opts} {ext} {r}')
                continue
            saved[tuple(seq)] = w.save()
            msg = self.look(rec, seq, counts, fixed)
            if msg:
                rec.violation(case, f'after learn-bpe {seq} {opts} {ext}: {msg}')
            rec.sample(case, 2)

    @staticmethod
    def differ(name, got, want):
        if got == want:
            return None
        if isinstance(want, dict):
            d = sorted(set(map(repr, got.items())) ^ set(map(repr, want.items())))
        else:
            d = sorted(set(got) ^ set(want))
        return f'the {name} vocabulary is wrong: {d[:8]!a}'

    def look(self, rec, seq, counts, fixed):
        vl = self.vl
        n = vl.all('cid').get('\n', 0)    # a file of a corpus can have a line break more than its text
        counts = dict(counts)
        if counts.get('\n', 0) <= n <= counts.get('\n', 0) + counts['<EOF>'] and n:
            counts['\n'] = n
            fixed = fixed | {'\n'}
        msg = self.differ('full', vl.all('cid'), counts) or self.differ('non-bpe', vl.nonbpe('cid'), fixed) or \
            self.differ('base', vl.base('cid'), {k: v for k, v in counts.items() if k not in fixed})
        if msg:
            return msg
        learned = sorted(read_learned(self.w).items())
        base = {k: v for k, v in counts.items() if k not in fixed}
        for d, merges in learned:
            if not merges:
                continue
            rec.nontrivial((sorted(counts), seq, len(merges)))
            n = int(os.path.basename(d))
            if len(merges) != n:
                return f'{d} has {len(merges)} merges'
            want = collections.Counter()
            vocab = {tuple(symbols(x)): f for x, f in base.items()}
            for p, _ in merges:
                vocab = {apply_merge(x, p): f for x, f in vocab.items()}
            for x, f in vocab.items():
                for s in x:
                    want[s] += f
            for x, f in counts.items():
                if x in fixed:
                    want[x.replace('@', '@@') + '@'] += f
            msg = self.differ(f'bpe ({n} merges)', vl.bpe('cid', n), dict(want))
            if msg:
                return msg
            rec.outcome((n, len(want)))
        return None



class RoundTrip(CorpusCheck):
    rule = ('every code point (except for the blank, which separates) and every string up to length three over the listed '
            'special characters, as part of a merge, as cached word and part of one, as token of a vocabulary and of the '
            'non-processable tokens: written and read back with the public functions; non-trivial: each of them')
    NASTY = ['a', '\\', 'n', 'x', 'u', '\n', '\r', '\t', '"', "'", '@', '\xa0', '\x85', '\u2028', 'ü', '😀', '\ud800', '0', '#', '\x1c',
             '\0', '%', '{', '\x7f', '\ufeff']

    def units(self, tier):
        top = 0x110000
        out = [['points', a, min(a + 0x8000, top)] for a in range(0, top, 0x8000)]
        n = len(self.NASTY)
        k = 4 if tier == 'thorough' else 3
        out += [['strings', k, i] for i in range(n)]
        out += [['lengths']]
        return out

    def setup(self, home):
        super().setup(home)
        from codeprep.bpepkg import cache, merge
        from codeprep.preprocess import metadata
        from codeprep import util
        import codeprep.pipeline.vocab as vocab
        self.m, self.c, self.md, self.u, self.v = merge, cache, metadata, util, vocab

    def run_unit(self, unit, rec):
        if unit[0] == 'points':
            for a in range(unit[1], unit[2], 0x800):
                if rec.stop:
                    return
                self.check(unit, rec, [chr(c) for c in range(a, min(a + 0x800, unit[2])) if c != 32])
        elif unit[0] == 'strings':
            _, k, i = unit
            words = [self.NASTY[i] + ''.join(r) for j in range(k) for r in itertools.product(self.NASTY, repeat=j)]
            for a in range(0, len(words), 3000):
                if rec.stop:
                    return
                self.check(unit, rec, words[a:a + 3000])
        else:
            self.suffixes(unit, rec)
            for n in range(0, 30):
                self.check(unit, rec, [f'w{i}' for i in range(n)])

    def suffixes(self, unit, rec):
        """The part of the name of a folder of merges that says how they were learned"""
        from codeprep.bpepkg.bpe_config import BpeConfig, BpeParam
        for we in (True, False):
            for u in ('yes', 'no', 'bytes'):
                c = BpeConfig({BpeParam.CASE: 'yes', BpeParam.WORD_END: we, BpeParam.BASE: 'code', BpeParam.UNICODE: u})
                rec.evaluations += 1
                for s in (c.to_suffix(), '_-_' + c.to_suffix()):
                    if not BpeConfig.from_suffix(s) == c:
                        self.bad(unit, rec, 'suffix', [], BpeConfig.from_suffix(s), c)

    def bad(self, unit, rec, what, words, got, want):
        rec.violation({'unit': unit, 'what': what}, f'{what}: {got!a} was read, {want!a} was written'[:500])

    def check(self, unit, rec, words):
        """words: different strings without a blank"""
        w = self.w
        f = w.path('artifact')
        rec.evaluations += len(words)
        for x in words:
            rec.nontrivial(x)
        # merges
        for a, b in ((lambda x: (x, 'q'), 1), (lambda x: ('q', x), 2), (lambda x: (x, x), 3)):
            ml = self.m.MergeList()
            for i, x in enumerate(words):
                ml.append(self.m.Merge(a(x), i % 7 * 1000 + b, i))
            r = attempt(lambda: (self.m.dump_merges(ml, f), [(m.pair, m.freq, m.priority) for m in self.m.read_merges(f)])[1])
            want = [(a(x), i % 7 * 1000 + b, i) for i, x in enumerate(words)]
            if not r.ok or r.value != want:
                d = [(g, x) for g, x in zip(r.value, want) if g != x][:3] if r.ok else r
                self.bad(unit, rec, 'merges', words, d, '')
                break
            ns = range(1, len(words) + 2) if len(words) < 40 else (1, 2, len(words) - 1, len(words), len(words) + 1)
            for n in ns:
                got = [m.pair for m in self.m.read_merges(f, n)]
                if got != [x[0] for x in want[:n]]:
                    self.bad(unit, rec, f'first {n} merges', words, got[:5], len(got))
        # cache of split words
        cache = {}
        for x in words:
            cache[x + '@'] = [x, '@']
            cache['p' + x + '@'] = ['p', x + '@']
            cache['p' + x] = ['p' + x]
        r = attempt(lambda: (self.c.dump_bpe_cache(cache, f), self.c.read_bpe_cache(f))[1])
        if not r.ok or r.value != cache:
            d = [(k, r.value.get(k), v) for k, v in cache.items() if r.value.get(k) != v][:3] if r.ok else r
            self.bad(unit, rec, 'cache', words, d, '')
        # words <-> their form in files
        for x in words:
            for y in (x, x + ' ' + x):
                t = self.u.to_literal_str(y)
                if self.u.to_non_literal_str(t) != y or '\n' in t or '\t' in t or '\r' in t or not t.isascii():
                    self.bad(unit, rec, 'literal', words, t, y)
                    return
        # vocabularies and non-processable tokens
        load_set = getattr(self.v, '_load_vocab_set', None)
        if load_set:
            tokens = set(words) | {x + ' ' for x in words} | {' ' + x for x in words} | {' ', '  '}
            r = attempt(lambda: (self.md.save_metadata(self.md.PreprocessingMetadata(set(tokens)), f), load_set(f))[1])
            if not r.ok or r.value != tokens:
                self.bad(unit, rec, 'non-processable tokens', words, sorted(tokens ^ set(r.value))[:5] if r.ok else r, '')
        dump, load = getattr(self.v, '_dump_vocab_dict', None), getattr(self.v, '_load_vocab_dict', None)
        if dump and load:
            vocab = {x: i + 1 for i, x in enumerate(words)}
            vocab.update({x + ' ' + x: 5 for x in words})
            vocab.update({' ' + x: 6 for x in words})
            vocab.update({x + '  ': 7 for x in words})
            vocab[' '] = 8
            r = attempt(lambda: (dump(vocab.items(), f), load(f))[1])
            if not r.ok or r.value != vocab:
                self.bad(unit, rec, 'vocabulary', words, [(k, v) for k, v in vocab.items() if r.value.get(k) != v][:5]
                         if r.ok else r, '')
        rec.outcome(len(words))
        rec.sample({'unit': unit, 'first': [ascii(x) for x in words[:3]]})


CHECKS = {'C17': RoundTrip, 'C18': LearnHistories, 'C24': LearnCrash, 'C28': CodesVocabularies}
