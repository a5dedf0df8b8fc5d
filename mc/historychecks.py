"""Checks of what the caches, outputs and vocabularies hold after histories of edits, runs and deletions."""
import itertools
import os

import core
import fsops
from corpuschecks import CONTENTS, CorpusCheck, count_files, decode_token, lines_of, restore_vocab, small_files
import texts
from textapi import MODES
from world import attempt

# mode, options, extensions, with vocabulary
CONFIGS = [('basic', {}, None, False), ('nosplit', {'no_spaces': True}, 'java', False), ('1k', {}, None, True),
           ('nocase', {'no_com': True}, 'java|py', True), ('chars', {}, None, False)]
BASE = {'a.java': b'int aB = 1; // one\n', 'b.py': b'def b2(): pass\n', 'sub/c.java': b'cC c_d', 'sub/deep/d.java': b'"d d" dd',
        'e.txt': b'plain Text'}
V = {1: b'int changedOnce = 12;\n', 2: b'/* changed */ again twice2'}


class Model:
    """The user's view of the dataset: what every file contains."""

    def __init__(self, files=None, linked=None):
        self.files = dict(files if files is not None else BASE)
        self.linked = dict(linked) if linked is not None else None      # contents of the linked folder
        self.since = []                                                 # operations since the last run

    def copy(self):
        m = Model(self.files, self.linked)
        m.since = self.since
        return m

    def all(self):
        out = dict(self.files)
        if self.linked is not None:
            out.update({'ln/' + k: v for k, v in self.linked.items()})
        return out


class Coherence(CorpusCheck):
    rule = ('every history of up to two (thorough: three) edits of the dataset or acts of deleting or overwriting outputs and caches, '
            'with a run of the same configuration after each of them or only at the end, x configurations; every file of the '
            'result is compared with what a first run in an empty home gives; non-trivial: every run')

    EDITS = ['modify a', 'modify same size', 'modify deep', 'modify linked', 'add', 'add in sub', 'add linked', 'delete a', 'delete sub',
             'delete linked', 'rename', 'move into sub', 'replace by old', 'swap', 'add link', 'remove link', 'empty folder']
    TAMPER = ['delete output', 'delete one output', 'overwrite output', 'extra output', 'delete cache', 'delete parsed',
              'overwrite parsed', 'delete config', 'delete vocab', 'delete readiness', 'delete lists', 'other config', 'learn']

    def units(self, tier):
        ops = self.EDITS + self.TAMPER
        out = []
        for c in range(len(CONFIGS)):
            if tier == 'quick' and c > 2:
                continue
            for a in ops:
                if tier == 'quick':
                    out.append([c, 2, [a], True])
                    if c == 0:
                        out.append([c, 2, [a], False])
                else:
                    out += [[c, 3 if c < 3 else 2, [a], True], [c, 2, [a], False]]
        out += [['single', c] for c in range(len(CONFIGS))]
        out += [['many', 1, k] for k in range(3 if tier == 'quick' else 9)]
        out += [['places', c, p] for c in range(len(CONFIGS) if tier == 'thorough' else 1) for p in range(len(self.PLACES))]
        out += [['gaps', c, g] for c in range(len(CONFIGS) if tier == 'thorough' else 1) for g in range(len(self.GAPS))]
        return out

    # seconds between two edits: those after which parts of the time are the same as before (12:26:40 on 13 September 2020)
    GAPS = [11, 20, 59, 60, 61, 600, 3600, 3660, 36000, 43200, 86400, 7 * 86400, 10 * 86400, 30 * 86400, 61 * 86400, 365 * 86400,
            3652 * 86400]

    def gaps(self, unit, rec):
        """Edits at an exact distance from the previous one"""
        _, c, g = unit
        w = self.w
        for op in self.EDITS:
            for second in (False, True):
                m = self.start()
                last = w.fs.clock
                w.tick()
                if rec.stop or not self.go(unit, rec, c, [], m):
                    return
                w.fs.clock = last + self.GAPS[g]
                if op in ('add linked', 'modify linked', 'delete linked'):
                    self.apply(c, 'add link', m)
                if not self.apply(c, op, m):
                    break
                last = w.fs.clock
                w.tick()
                if not self.go(unit, rec, c, [f'{self.GAPS[g]} s later: {op}'], m):
                    return
                if not second:
                    continue
                w.fs.clock = last + self.GAPS[g]
                self.apply(c, 'modify a', m)
                w.tick()
                if not self.go(unit, rec, c, [f'{self.GAPS[g]} s later: {op}', f'{self.GAPS[g]} s later: modify a'], m):
                    return

    PLACES = ['.h/x.java', 'sub/.h/x.java', '.x.java', 'x.java/y.java', '/'.join('abcdefghijkl') + '/x.java', 'ü/x.java', 'sp ace/x.java',
              'node_modules/x.java', '.git/x.java', '__pycache__/x.java', 'test/x.java', 'x.prep/x.java', '.parsed/x.java', 'new\nline/x.java',
              'out/x.java', 'b\udcff/x.java', 'sub/deep/er/x.py', 'tmp/x.java', 'x~.java', '#x.java', 'build/x.java', 'A' * 200 + '/x.java',
              'ds/x.java', 'vocab', '.lastmodif/x.java', 'README', 'ln/.h/x.java', 'LICENSE.java']

    def places(self, unit, rec):
        """Edits of a file with an unusual name or in an unusual folder"""
        _, c, p = unit
        w = self.w
        name = self.PLACES[p]
        for existed in (True, False):
            m = self.start()
            if name.startswith('ln/'):
                self.apply(c, 'add link', m)

            def edit(data):
                real = 'far/' + name[3:] if name.startswith('ln/') else 'p/ds/' + name
                files, n = (m.linked, name[3:]) if name.startswith('ln/') else (m.files, name.encode('utf-8', 'surrogateescape').decode('latin1'))
                if data is None:
                    w.remove(real)
                    del files[n]
                else:
                    w.write(os.fsencode(real), data)
                    files[n] = data
                w.tick()
            if existed:
                edit(b'int first;')
            w.tick()
            h = ['first run']
            if not self.go(unit, rec, c, h, m):
                return
            for data in (b'int aB = 2;', b'int aB = 3;', None, b'int aB = 2; ', b'int changedToo'):
                edit(data)
                h.append(f'{name!a}: {data!a}')
                if rec.stop or not self.go(unit, rec, c, h, m):
                    return

    def many(self, unit, rec):
        """Edits of single files in a dataset with just under 1000 entries (of more than that not all are looked at)"""
        _, c, k = unit
        w = self.w
        m = self.start()
        names = []
        for i in range(960):
            n = f'm{i % 7}/x{i % 3}/f{i}.java'
            m.files[n] = V[1 + i % 2]
            w.write('p/ds/' + n, m.files[n])
            names.append(n)
        w.tick()
        if not self.go(unit, rec, c, ['960 files'], m):
            return
        for i in (k * 113, 959 - k * 107):
            w.tick()
            m.files[names[i]] = b'int edited;'
            w.write('p/ds/' + names[i], b'int edited;')
            w.tick()
            if not self.go(unit, rec, c, ['960 files', f'modify {names[i]}'], m):
                return

    def setup(self, home):
        super().setup(home)
        self.fresh = {}

    def expect(self, c, name, data):
        """The preprocessed file which the first run of all gives for a file"""
        ext = os.path.splitext(name)[1]
        key = (c, ext, data)
        if key not in self.fresh:
            saved = self.w.save()
            self.w.wipe()
            self.w.write('fresh/f' + ext, data)
            mode, opts, _, _ = CONFIGS[c]
            r = self.w.simulate(lambda: self.call(mode, self.w.path('fresh'), self.w.path('freshout'), opts))[0]
            files = self.observe(r)['files']
            self.fresh[key] = files['f' + ext + '.prep']
            self.w.restore(saved)
        return self.fresh[key]

    def start(self):
        w = self.w
        restore_vocab()
        w.wipe()
        w.forget()
        for n, d in BASE.items():
            w.write('p/ds/' + n, d)
        w.write('old/old.java', b'older than everything')
        w.write('far/x.java', b'xLinked = 1')
        w.write('far/in/y.java', b'yLinked')
        w.tick(1000)
        w.write('p/ds/a.java', BASE['a.java'])
        w.write('other/f.java', b'int other;')
        m = Model()
        return m

    def run_unit(self, unit, rec):
        if unit[0] in ('single', 'gaps', 'many', 'places'):
            return getattr(self, unit[0])(unit, rec)
        c, depth, prefix, always = unit
        m = self.start()
        self.w.tick()
        if not self.go(unit, rec, c, [], m):
            return
        state = self.step(unit, rec, c, [], prefix[0], m, always or depth == 1)
        if state is not None:
            self.explore(unit, rec, c, prefix, state, depth, always)

    def explore(self, unit, rec, c, history, m, depth, always):
        if len(history) >= depth or rec.stop:
            return
        saved = self.w.save()
        for op in self.EDITS + self.TAMPER:
            if rec.stop:
                return
            self.w.restore(saved)
            nxt = self.step(unit, rec, c, history, op, m, always or len(history) + 1 == depth)
            if nxt is not None:
                self.explore(unit, rec, c, history + [op], nxt, depth, always)

    def step(self, unit, rec, c, history, op, m, run):
        m = m.copy()
        self.w.tick()
        # a file overwritten in an output which is not marked as complete cannot be told from one which was written by a run
        since = m.since + [op]
        if 'delete readiness' in since and any(x.startswith('overwrite') for x in since):
            return None
        if not self.apply(c, op, m):
            return None
        self.w.tick()
        m.since = [] if run else since
        if run and not self.go(unit, rec, c, history + [op], m):
            return None
        return m

    def go(self, unit, rec, c, history, m):
        """Runs and compares. -> is it right"""
        w = self.w
        mode, opts, ext, vocab = CONFIGS[c]
        rec.evaluations += 1
        rec.nontrivial((c, history, unit[3:]))
        w.forget()

        def job():
            r = self.call(mode, w.path('p/ds'), w.path('out'), opts, ext, vocab)
            size = r.get_corpus_size()
            return r, size
        case = {'unit': unit, 'history': history}
        r = attempt(lambda: w.simulate(job)[0])
        obs = attempt(lambda: self.observe(r.value[0], vocab)) if r.ok else r
        said = f'{mode} {opts} {ext} after {history}: '
        if not obs.ok:
            rec.violation(case, f'{said}{obs}')
            return False
        o = obs.value
        exts = ext.split('|') if ext else None
        want = {}
        for n, d in m.all().items():
            if not exts or any(n.endswith('.' + x) for x in exts):
                want[n + '.prep'] = self.expect(c, n, d)
        msg = None
        if o['files'] != want or o['missing']:
            d = sorted(k for k in set(o['files']) | set(want) if o['files'].get(k) != want.get(k))
            msg = f'{d} differ: {[(o["files"].get(k), want.get(k)) for k in d[:2]]!a}, missing {o["missing"]}'
        elif o['stray'] and 'extra output' not in history:
            msg = f'other files in the output: {o["stray"]}'
        elif vocab and o['vocab'] != count_files(want):
            msg = 'the vocabulary is not that of the files'
        elif r.value[1] != sum(count_files(want).values()):
            msg = f'corpus size {r.value[1]}, the files have {sum(count_files(want).values())} tokens'
        rec.outcome((sorted(want), msg is None))
        if msg:
            rec.violation(case, said + msg)
            return False
        rec.sample(case)
        return True

    # --- the operations. -> can it be done (and does it differ from doing nothing)

    def apply(self, c, op, m):
        w = self.w
        f = m.files

        def write(name, data):
            w.write('p/ds/' + name, data)
            f[name] = data
        if op == 'modify a':
            write('a.java', V[2] if f.get('a.java') == V[1] else V[1])
        elif op == 'modify same size':
            if 'b.py' not in f:
                return False
            write('b.py', f['b.py'][::-1].replace(b'\n', b'') + b'\n')
        elif op == 'modify deep':
            if 'sub/deep/d.java' not in f:
                return False
            write('sub/deep/d.java', V[1])
        elif op in ('modify linked', 'add linked', 'delete linked'):
            if m.linked is None:
                return False
            if op == 'modify linked':
                w.write('far/in/y.java', V[1])
                m.linked['in/y.java'] = V[1]
            elif op == 'add linked':
                w.write('far/new.java', V[2])
                m.linked['new.java'] = V[2]
            else:
                if 'x.java' not in m.linked:
                    return False
                w.remove('far/x.java')
                del m.linked['x.java']
        elif op == 'add':
            write('n.java', V[2])
        elif op == 'add in sub':
            write('sub/n.py', V[1])
        elif op == 'delete a':
            if 'a.java' not in f:
                return False
            w.remove('p/ds/a.java')
            del f['a.java']
        elif op == 'delete sub':
            if not os.path.isdir(w.path('p/ds/sub')):
                return False
            w.remove('p/ds/sub')
            for k in [k for k in f if k.startswith('sub/')]:
                del f[k]
        elif op == 'rename':
            if 'e.txt' not in f:
                return False
            w.rename('p/ds/e.txt', 'p/ds/e2.java')
            f['e2.java'] = f.pop('e.txt')
        elif op == 'move into sub':
            if 'b.py' not in f or not os.path.isdir(w.path('p/ds/sub')):
                return False
            w.rename('p/ds/b.py', 'p/ds/sub/b.py')
            f['sub/b.py'] = f.pop('b.py')
        elif op == 'replace by old':
            if not os.path.exists(w.path('old/old.java')):
                return False
            w.rename('old/old.java', 'p/ds/a.java')
            f['a.java'] = b'older than everything'
        elif op == 'swap':
            if 'a.java' not in f or 'sub/c.java' not in f:
                return False
            w.rename('p/ds/a.java', 'p/tmp')
            w.rename('p/ds/sub/c.java', 'p/ds/a.java')
            w.rename('p/tmp', 'p/ds/sub/c.java')
            f['a.java'], f['sub/c.java'] = f['sub/c.java'], f['a.java']
        elif op == 'add link':
            if m.linked is not None:
                return False
            fsops._real['symlink'](w.path('far'), w.path('p/ds/ln'))
            w.fs.stamp(w.path('p/ds'), False)
            m.linked = {k: v for k, v in self.disk('far').items()}
        elif op == 'remove link':
            if m.linked is None:
                return False
            fsops._real['unlink'](w.path('p/ds/ln'))
            w.fs.stamp(w.path('p/ds'), False)
            m.linked = None
        elif op == 'empty folder':
            fsops._real['mkdir'](w.path('p/ds/empty')) if not os.path.isdir(w.path('p/ds/empty')) else None
            w.fs.stamp(w.path('p/ds/empty'))
        else:
            return self.tamper(c, op)
        return True

    def disk(self, rel):
        return {k: v for k, v in self.w.tree(self.w.path(rel)).items()}

    def tamper(self, c, op):
        w = self.w
        outs = sorted(self.w.tree(w.path('out'), names_only=True)) if os.path.isdir(w.path('out')) else []
        preps = [o for o in outs if o.endswith('.prep')]
        cache = '../.cache'
        config = '../.config'
        if op == 'delete output':
            if not outs:
                return False
            w.remove('out')
        elif op == 'delete one output':
            if not preps:
                return False
            w.remove('out/' + preps[0])
        elif op == 'overwrite output':
            if not preps:
                return False
            w.write('out/' + preps[-1], b'junk junk\n')
        elif op == 'extra output':
            if not preps:
                return False
            w.write('out/' + os.path.dirname(preps[0]) + '/extra.prep', b'extra\n')
        elif op == 'delete cache':
            if not os.path.isdir(w.path(cache)):
                return False
            w.remove(cache)
        elif op in ('delete parsed', 'overwrite parsed'):
            parsed = sorted(k for k in w.tree(w.path(cache), names_only=True) if k.endswith('.parsed'))
            if not parsed:
                return False
            if op == 'delete parsed':
                w.remove(f'{cache}/{parsed[0]}')
            else:
                w.write(f'{cache}/{parsed[0]}', b'junk')
        elif op == 'delete config':
            if not os.path.isdir(w.path(config)):
                return False
            w.remove(config)
        elif op == 'delete vocab':
            vs = sorted(k for k in w.tree(w.path(config), names_only=True) if os.path.basename(k) == 'vocab')
            if not vs:
                return False
            w.remove(f'{config}/{vs[0]}')
        elif op == 'delete readiness':
            found = False
            for top in ('out', cache):
                for k in sorted(w.tree(w.path(top), names_only=True)):
                    if k.endswith('.lastmodif'):
                        w.remove(f'{top}/{k}')
                        found = True
            return found
        elif op == 'delete lists':
            ls = sorted(k for k in w.tree(w.path(cache), names_only=True) if os.path.basename(k) == 'filelist')
            if not ls:
                return False
            for k in ls:
                w.remove(f'{cache}/{k}')
        elif op == 'other config':
            mode, opts, ext, vocab = CONFIGS[(c + 1) % len(CONFIGS)]
            w.simulate(lambda: self.call(mode, w.path('p/ds'), w.path('out'), opts, ext, vocab))
        elif op == 'learn':
            w.simulate(lambda: w.cli('learn-bpe', '3', '-p', w.path('p/ds')))
        return True

    def single(self, unit, rec):
        """The dataset is one file."""
        w = self.w
        c = unit[1]
        mode, opts, ext, vocab = CONFIGS[c]
        for name in ('one.java', 'One.py', 'one'):
            if ext and not any(name.endswith('.' + x) for x in ext.split('|')):
                continue
            self.start()
            for i, data in enumerate((b'int a;', b'int b;\n', b'', b'int a;', b'changed')):
                w.write(name, data)
                w.tick()
                for again in (1, 2):
                    if rec.stop:
                        return
                    rec.evaluations += 1
                    case = {'unit': unit, 'name': name, 'edits': i}

                    def job():
                        r = self.call(mode, w.path(name), w.path('out'), opts, ext, vocab)
                        return r, r.get_corpus_size()
                    r = attempt(lambda: w.simulate(job)[0])
                    obs = attempt(lambda: self.observe(r.value[0], vocab)) if r.ok else r
                    want = {name + '.prep': self.expect(c, name, data)}
                    if not obs.ok or obs.value['files'] != want or (vocab and obs.value['vocab'] != count_files(want)) or \
                            r.value[1] != sum(count_files(want).values()):
                        rec.violation(case, f'{mode} {opts}, {name} edited {i} times: {obs}, expected {want}')
                    rec.nontrivial((unit, name, i, again))
                    w.tick()

    def replay(self, case, rec):
        u = case['unit']
        if u[0] in ('single', 'gaps', 'many', 'places'):
            return self.run_unit(u, rec)
        c, depth, prefix, always = u
        m = self.start()
        self.w.tick()
        if not self.go(u, rec, c, [], m):
            return
        h = case['history']
        for i, op in enumerate(h):
            m = self.step(u, rec, c, h[:i], op, m, always or i + 1 == len(h))
            if m is None:
                return



DATASETS = {
    'ds': {'a.java': b'int aB = 1;\n', 'b.py': b'pY = "s t"', 'ü.c': b'cC // com'},
    'q/ds': {'a.java': b'int other_Q = 22;\n', 'b.py': b'other = 0'},     # same name, another second
    'ds_java': {'a.java': b'int third;\n', 'z.java': b'zZ'},
    'one.java': None,
    'exts': {f'f.{e}': b'f ' + e.encode() for e in ('a', 'b', 'a_b', 'a-', '_b', '-b', 'a__b', 'a-_b', 'a-b', 'A', 'a|b', 'a\\b')},
    's/twin': {'t.java': b'first twin'},
    't/twin': {'t.java': b'second twin'},      # same name, same second
}


def runs(tier):
    """Different things a user can ask for: (dataset, mode, options, extensions, output folder, with vocabulary)"""
    out = []
    modes = ['nosplit', 'full', 'basic', 'numbers', 'ronin', 'stem', 'nocase', 'nocase-numbers', 'nocase-ronin', 'nocase-stem',
             'chars', '1k', '5k', '10k', 'cid-1', 'cid-2', 'cod-1']
    for m in modes:
        out.append(('ds', m, {}, None, 'out', False))
    opts = [{'no_spaces': True}, {'no_unicode': True}, {'no_com': True}, {'no_str': True}, {'max_str_length': 3},
            {'max_str_length': 4}, {'max_str_length': 0}, {'no_spaces': True, 'no_com': True}]
    for o in opts:
        out.append(('ds', 'basic', o, None, 'out', False))
    for e in ('java', 'py', 'java|py', 'c|java'):
        out.append(('ds', 'basic', {}, e, 'out', False))
    for d in ('q/ds', 'ds_java', 'one.java'):
        out.append((d, 'basic', {}, None, 'out', False))
        out.append((d, 'nosplit', {}, 'java', 'out', False))
    out += [('ds', 'basic', {}, None, 'out', True), ('ds', 'basic', {}, None, 'out2', True), ('q/ds', 'basic', {}, None, 'out', True),
            ('ds', '1k', {}, 'java', 'out', True), ('ds', 'nosplit', {'full_strings': True, 'no_spaces': True}, None, 'out', True),
            ('ds', 'cid-2', {'no_com': True}, 'java', 'out', True), ('ds', 'chars', {}, None, 'out2', True)]
    out += [('exts', 'basic', {}, e, 'out', False)
            for e in ('a|b', 'a_b', 'a-|b', 'a-_b', 'a|-b', 'a|_b', 'a__b', 'a||b', 'a-b', 'A|b', 'a', 'a\\b')]
    out += [('s/twin', 'basic', {}, None, 'out', False), ('t/twin', 'basic', {}, None, 'out', False)]
    if tier == 'thorough':
        for m in modes:
            out.append(('ds', m, {'no_unicode': True, 'no_str': True}, 'java', 'out2', False))
            out.append(('q/ds', m, {'max_str_length': 7}, None, 'out', True))
    return out


class CrossTalk(CorpusCheck):
    rule = ('every ordered pair of different requests (dataset, mode, options, extensions, output folder, vocabulary) one after the '
            'other in one home, and the first one once more; each result is compared with that of the request alone, and no two '
            'different requests share a place; non-trivial: every pair')

    def units(self, tier):
        n = len(runs(tier))
        return [[i] for i in range(n)]

    def setup(self, home):
        super().setup(home)
        self.requests = runs(self.tier)
        self.alone = {}
        w = self.w
        restore_vocab()
        w.wipe()
        w.forget()
        for d, files in DATASETS.items():
            if files is None:
                w.write(d, b'int oneFile;')
            else:
                for n, data in files.items():
                    w.write(f'{d}/{n}', data)
            if d != 's/twin':
                w.tick()
        w.write('train/t.java', b'ababab abab ab cdcdcd cdcd')
        w.write('train2/t.java', b'oror oror oro int')
        w.tick()
        for d, i in (('train', 'cid'), ('train2', 'cod')):
            w.simulate(lambda: w.cli('learn-bpe', '2', '-p', w.path(d), '--id', i))
        w.tick()
        self.home = w.save()

    def ask(self, i):
        d, mode, opts, ext, out, vocab = self.requests[i]
        w = self.w
        w.forget()
        kw = dict(opts)
        if '-' in mode and mode[0] == 'c':
            def job():
                return w.corpus.bpe(w.path(d), mode, extensions=ext, output_path=w.path(out), calc_vocab=vocab, **kw)
        else:
            def job():
                return self.call(mode, w.path(d), w.path(out), kw, ext, vocab)

        def both():
            r = job()
            return r, r.get_corpus_size()
        r = attempt(lambda: w.simulate(both)[0])
        if not r.ok:
            return r, None
        o = attempt(lambda: self.observe(r.value[0], vocab))
        if o.ok:
            o.value['corpus size'] = r.value[1]
            o.value.pop('stray')
        return o, r.value[0].path_to_prep_dataset

    def single(self, i):
        if i not in self.alone:
            self.w.restore(self.home)
            self.w.tick()
            self.alone[i] = self.ask(i)
        return self.alone[i]

    def run_unit(self, unit, rec):
        i = unit[0]
        only = unit[1:] or range(len(self.requests))
        w = self.w
        first = self.single(i)
        if not first[0].ok:
            rec.violation({'unit': [i]}, f'{self.requests[i]}: {first[0]}')
            return
        after = None
        for j in only:
            if rec.stop:
                return
            want = self.single(j)
            if not want[0].ok:
                continue
            if after is None:
                w.restore(self.home)
                w.tick()
                self.ask(i)
                w.tick()
                after = w.save()
            w.restore(after)
            rec.evaluations += 1
            rec.nontrivial((i, j))
            got = self.ask(j)
            msg = self.diff(got[0], want[0])
            a, b = self.requests[i], self.requests[j]
            if not msg and got[1] == first[1] and i != j and a[:5] != b[:5]:
                msg = f'both write to {got[1]}'
            case = {'unit': [i, j]}
            sig = None
            if {a[0], b[0]} == {'s/twin', 't/twin'}:
                sig = 'same name and second'
            if msg:
                rec.violation(case, f'{b} after {a}: {msg}', sig)
                continue
            w.tick()
            again = self.ask(i)
            msg = self.diff(again[0], first[0])
            if msg:
                rec.violation(case, f'{a} once more after {b}: {msg}')
            rec.outcome(got[1] and os.path.basename(got[1]))
            rec.sample({'first': a, 'then': b})


class Counts(CorpusCheck):
    rule = ('every listed content alone and all together x modes x options, and one file per 256 code points (quick: the basic '
            'plane, thorough: all planes) x modes: vocabulary, its size, the corpus size and the tokens of the files; non-trivial: '
            'every corpus')

    def units(self, tier):
        modes = ['nosplit', 'full', 'basic', 'nocase', 'chars', '1k']
        out = [['each', m, k, 4] for m in modes for k in range(4)]
        top = 0x110000 if tier == 'thorough' else 0x10000
        for m in modes:
            out += [['points', m, a, a + 0x1000] for a in range(0, top, 0x1000)]
            out += [['escapes', m, i, 4 if tier == 'thorough' else 3] for i in range(len(self.ESCAPES))]
        out += [['sets', k, 8] for k in range(8)]
        out += [['kinds', m, k] for m in modes for k in range(3)]
        out += [['command', m] for m in modes]
        out += [['limit', n] for n in range(6 if tier == 'quick' else 8)]
        return out

    ESCAPES = ['\\', 'n', 't', 'r', 'x4', '1', 'u00', 'U', 'N{', '0', 'a', '@', '%']

    def check(self, case, rec, files, mode, opts=None):
        w = self.w
        w.wipe()
        w.forget()
        restore_vocab()
        for n, d in files.items():
            w.write('ds/' + n, d)
        w.tick()
        rec.evaluations += 1

        def job():
            r = self.call(mode, w.path('ds'), w.path('out'), opts, vocab=True)
            return r, r.get_corpus_size()
        r = attempt(lambda: w.simulate(job)[0])
        o = attempt(lambda: self.observe(r.value[0], True)) if r.ok else r
        if not o.ok:
            rec.violation(case, f'{mode} {opts}: {o}')
            return
        o.value['size'] = r.value[1]
        msg = self.wrong_counts(o.value)
        rec.nontrivial((mode, opts, sorted(files.items())))
        rec.outcome((o.value['vocabsize'], o.value['size']))
        rec.sample(dict(case, files=sorted(files)[:5]))
        if msg:
            rec.violation(case, f'{mode} {opts} {sorted(files)[:5]}: {msg}')

    def run_unit(self, unit, rec):
        if unit[0] == 'each':
            _, mode, k, n = unit
            for i, d in enumerate(CONTENTS):
                if i % n == k and not rec.stop:
                    self.check({'unit': unit}, rec, {'f.java': d}, mode)
                    self.check({'unit': unit}, rec, {'f.java': d, 'g.py': d, 'sub/h': d}, mode, {'no_spaces': True})
        elif unit[0] == 'escapes':       # one literal and one comment per combination
            _, mode, i, k = unit
            words = [self.ESCAPES[i] + ''.join(t) for n in range(k) for t in itertools.product(self.ESCAPES, repeat=n)]
            files = {'f.py': '\n'.join(f'"{x}"' for x in words).encode(), 'g.java': '\n'.join(f'// {x}' for x in words).encode(),
                     'h.java': '\n'.join(words).encode()}
            self.check({'unit': unit}, rec, files, mode)
        elif unit[0] == 'points':
            _, mode, a, b = unit
            files = {}
            for s in range(a, b, 256):
                cs = [chr(c) for c in range(s, s + 256) if not 0xd800 <= c < 0xe000]
                files[f'f{s:x}.java'] = ('"' + ''.join(c for c in cs if c not in '"\\\n\r') + '" ' + ' x'.join(cs)).encode()
            self.check({'unit': unit}, rec, files, mode)
        elif unit[0] == 'kinds':
            _, mode, k = unit
            files = {f'{i % 5}/f{i}.{x}': t.encode() for i, (x, t) in enumerate(texts.KINDS + [(x, t) for t, x in texts.RICH]) if x != 'raw'}
            self.check({'unit': unit}, rec, files, mode, [{}, {'no_unicode': True}, {'no_spaces': True, 'no_com': True}][k])
        elif unit[0] == 'command':
            self.command(unit, rec)
        elif unit[0] == 'limit':
            self.limit(unit, rec)
        else:
            _, k, n = unit
            for i, c in enumerate(itertools.combinations(range(len(CONTENTS)), 2)):
                if i % n == k and not rec.stop:
                    mode = ('basic', 'full', '1k')[i // n % 3]
                    self.check({'unit': unit}, rec, {f'f{j}.java': CONTENTS[j] for j in c}, mode)


    def command(self, unit, rec):
        """The command which counts the files of a folder (or one file) with a given ending"""
        import runpy
        import sys
        w = self.w
        for k in range(3):
            w.wipe()
            w.forget()
            restore_vocab()
            for i, d in enumerate(CONTENTS):
                w.write(f'ds/{i % 3}/{i % 2}/f{i}.java', d)
            w.tick()
            r = w.simulate(lambda: self.call(unit[1], w.path('ds'), w.path('out')))[0]
            files = self.observe(r)['files']
            path, ending = [(r.path_to_prep_dataset, 'prep'), (r.path_to_prep_dataset, '7.java.prep'),
                            (os.path.join(r.path_to_prep_dataset, '0/0/f0.java.prep'), 'prep')][k]
            files = {n: d for n, d in files.items()
                     if n.endswith(ending) and os.path.join(r.path_to_prep_dataset, n).startswith(path)}
            fsops._real['mkdir'](w.path('v'))
            rec.evaluations += 1
            rec.nontrivial(unit + [k])

            def job():
                old = sys.argv
                sys.argv = ['vocab', path, w.path('v'), ending]
                try:
                    sys.modules.pop('codeprep.cli.vocab', None)
                    runpy.run_module('codeprep.cli.vocab', run_name='__main__')
                finally:
                    sys.argv = old

            def seen():
                with fsops._real['open'](w.path('v/vocab')) as fh:
                    entries = [x.rsplit('\t', 1) for x in fh.read().split('\n')[:-1]]
                with fsops._real['open'](w.path('v/vocabsize')) as fh:
                    return {'files': files, 'vocab': {decode_token(a): int(b) for a, b in entries}, 'vocabsize': int(fh.readline()),
                            'order': [int(b) for _, b in entries]}
            o = attempt(lambda: w.simulate(job)[0])
            if o.ok:
                o = attempt(seen)
            msg = self.wrong_counts(o.value) if o.ok else f'{o}'
            if msg:
                rec.violation({'unit': unit}, f'vocab {path} {ending}: {msg}')

    def limit(self, unit, rec):
        """Limiting a vocabulary to at most n entries: the most frequent ones, those with the same count all or none"""
        from codeprep.pipeline.vocab import PartialVocab
        import collections
        for counts in itertools.product(range(1, 5), repeat=unit[1]):
            for n in range(unit[1] + 3):
                rec.evaluations += 1
                words = {f'w{i}': c for i, c in enumerate(counts)}
                want = {x: c for x, c in words.items() if sum(1 for d in counts if d >= c) <= n}

                def job():
                    v = PartialVocab(collections.Counter(words), 1)
                    v.limit_max_vocab(n)
                    return dict(v.merged_word_counts)
                o = attempt(job)
                rec.nontrivial((counts, n))
                if not o.ok or o.value != want:
                    rec.violation({'unit': unit}, f'{words} limited to {n} entries: {o}, expected {want}')
                    return


CHECKS = {'C25': Coherence, 'C26': CrossTalk, 'C27': Counts}
