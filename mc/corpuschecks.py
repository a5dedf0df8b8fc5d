"""Checks of the corpus functions under a controlled file system, controlled processes and enumerated histories."""
import ast
import collections
import itertools
import json
import os
import zlib

import core
import fsops
import sim
import textapi
import texts
from textapi import MODES
from world import T0, World, attempt, forked


def decode_token(s):
    return s.encode().decode('unicode-escape')


def lines_of(data):
    """The tokens of a preprocessed file, read without the code under test."""
    out = []
    for line in data.decode('ascii').split('\n')[:-1]:
        out.append([decode_token(t) for t in line.split(' ')])
    return out


def count_files(files):
    c = collections.Counter()
    for data in files.values():
        for line in lines_of(data):
            c.update(line)
    return dict(c)


def text_of(data):
    """The text a file contains."""
    try:
        s = data.decode('utf-8')
    except UnicodeDecodeError:
        s = data.decode('latin1')
    s = s.replace('\r\n', '\n').replace('\r', '\n')
    return s[:-1] if s.endswith('\n') else s


class CorpusCheck(core.Check):
    def setup(self, home):
        self.w = World(home).setup()
        self.w.wipe()

    def arrange(self, unit):
        # directories are listed in one order in half of the units and in the reverse one in the others
        self.w.fs.reverse = zlib.crc32(json.dumps(unit).encode()) % 2 == 1

    def replay(self, case, rec):
        self.run_unit(case['unit'], rec)

    def call(self, mode, path, out, opts=None, ext=None, vocab=False, suppress=False):
        """One of the public corpus functions."""
        spec, fixed = MODES[mode]
        kw = dict(fixed)
        kw.update(opts or {})
        if ext is not None:
            kw['extensions'] = ext
        if vocab:
            kw['calc_vocab'] = True
        if suppress:
            kw['suppress_caching'] = True
        if out is not None:
            kw['output_path'] = out
        if spec == 'bpe':
            return self.w.corpus.bpe(path, mode, **kw)
        return getattr(self.w.corpus, spec)(path, **kw)

    def text_call(self, mode, text, ext, opts=None):
        spec, fixed = MODES[mode]
        kw = dict(fixed)
        kw.update(opts or {})
        t = self.w.text
        if spec == 'bpe':
            return t.bpe(text, mode, ext, append_eof=True, **kw)
        return getattr(t, spec)(text, ext, append_eof=True, **kw)

    def observe(self, r, vocab=False, size=False):
        """What a user can see of a preprocessed corpus."""
        files = {}
        missing = []
        n = 0
        for f in r.get_file_iterator():
            n += 1
            rel = os.path.relpath(f, os.fsencode(r.path_to_prep_dataset)).decode('latin1')
            try:
                with fsops._real['open'](f, 'rb') as fh:
                    files[rel] = fh.read()
            except OSError:
                missing.append(rel)
        stray = sorted(set(self.w.tree(r.path_to_prep_dataset, names_only=True)) - set(files))
        o = {'files': files, 'missing': missing, 'listed': n, 'stray': stray}
        if vocab:
            o['vocab'] = dict(r.load_vocab())
            p = os.path.join(os.path.dirname(r.path_to_vocab), 'vocabsize')
            if os.path.exists(p):
                with fsops._real['open'](p) as fh:
                    o['vocabsize'] = int(fh.readline())
                    o['stats'] = (fh.read().split('\n')[:-1] or [''])[-1]
            with fsops._real['open'](r.path_to_vocab) as fh:
                o['order'] = [int(x.split('\t')[1]) for x in fh.read().split('\n')[:-1]]
        if size:
            o['size'] = r.get_corpus_size()
        return o

    @staticmethod
    def diff(got, want):
        """-> None or how two observations differ"""
        if not got.ok or not want.ok:
            return None if (got.kind, got.value) == (want.kind, want.value) else f'{got}'[:350] + f', expected {want}'
        for k in want.value:
            if k in ('order',):
                continue
            g, w = got.value.get(k), want.value[k]
            if g != w:
                if isinstance(w, dict):
                    d = sorted((set(map(repr, w.items())) ^ set(map(repr, (g or {}).items()))))
                    return f'{k} differs: {" ".join(d)[:500]}'
                return f'{k}: {g!a}, expected {w!a}'
        return None

    @staticmethod
    def wrong_counts(o):
        """Do vocabulary and size agree with the files? -> None or message"""
        want = count_files(o['files'])
        if 'vocab' in o:
            if o['vocab'] != want:
                d = sorted(set(map(repr, o['vocab'].items())) ^ set(map(repr, want.items())))
                return f'the vocabulary differs from the counts of the files: {" ".join(d)[:500]}'
            if 'vocabsize' in o and o['vocabsize'] != len(want):
                return f'vocabsize {o["vocabsize"]}, there are {len(want)} different tokens'
            if 'stats' in o and o['stats'] != f'1.0000 {len(want)} {want.get("<non-en>", 0)}':
                return f'the last line of the statistics is {o["stats"]!r} for {len(want)} tokens and {want.get("<non-en>", 0)} placeholders'
            if sorted(o['order'], reverse=True) != o['order']:
                return f'the vocabulary is not sorted by frequency: {o["order"]}'
            if len(o['order']) != len(want):
                return f'{len(o["order"])} entries for {len(want)} different tokens'
        if 'size' in o:
            n = sum(want.values())
            if o['size'] != n:
                return f'corpus size {o["size"]}, the files have {n} tokens'
        return None


WORDS = ['foo', 'Bar', 'x1', '"a b"', '+', '\n', ';', 'if', 'ü', '0', '// c\n', 'aB_c']


def small_files(n):
    """n files which differ in length and share some tokens"""
    out = {}
    for i in range(n):
        body = ' '.join(WORDS[(i * 5 + j * (i + 1)) % len(WORDS)] for j in range(2 + 3 * i % 7))
        out[f'd{i % 2}/f{i}.java' if i % 3 == 2 else f'f{i}.java'] = f'{body} v{i}\n'.encode()
    return out


def patch_vocab(chunks=None, groups=None):
    """Makes the merge phase of the vocabulary small enough to be explored; nothing but these two numbers changes."""
    import codeprep.pipeline.vocab as v
    if chunks is not None and hasattr(v, 'N_CHUNKS'):
        v.N_CHUNKS = chunks
    if groups is not None and hasattr(v, 'MAX_INIT_PARTIAL_VOCABS'):
        v.MAX_INIT_PARTIAL_VOCABS = groups


def real_run(home, files, steps, constants=None, timeout=300):
    """The steps with the processes, queues, files and clock of the operating system. -> [Outcome], what was learned |
    None if it did not come to an end in time"""
    import shutil
    import signal
    import subprocess
    import sys
    from world import Outcome
    shutil.rmtree(home, ignore_errors=True)
    fsops._real['mkdir'](home)
    env = dict(os.environ, HOME=home, TMPDIR=home, CODEPREP_REPO=core.REPO)
    job = {'files': {k: v.decode('latin1') for k, v in files.items()}, 'steps': steps, 'constants': constants or {}}
    p = subprocess.Popen([sys.executable, '-B', os.path.join(core.VERIF, 'mc', 'realrun.py')], env=env, stdin=subprocess.PIPE,
                         stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, start_new_session=True)
    try:
        out, _ = p.communicate(json.dumps(job).encode(), timeout=timeout)
    except subprocess.TimeoutExpired:
        out = None
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
    if out is None:
        return None
    if not out:
        return [Outcome('died', p.returncode)], {}
    d = json.loads(out)
    results = [Outcome(*r) for r in d['results']]
    for r in results:
        if r.ok and r.value:
            r.value['files'] = {k: v.encode('latin1') for k, v in r.value['files'].items()}
    return results, {k: v.encode('latin1') for k, v in d['config'].items()}


VOCAB_CONST = {}


def restore_vocab():
    import codeprep.pipeline.vocab as v
    for k in ('N_CHUNKS', 'MAX_INIT_PARTIAL_VOCABS'):
        if hasattr(v, k):
            VOCAB_CONST.setdefault(k, getattr(v, k))
            setattr(v, k, VOCAB_CONST[k])


class VocabSchedules(CorpusCheck):
    rule = ('every schedule of the real vocabulary merge (workers, parent, queue deliveries, file operations) with up to the '
            'stated number of deviations from the default one; non-trivial: schedules with different traces of decisions')
    # files, processes, chunks, groups, file operations are scheduling points, late deliveries, deviations, shards
    configs = {
        'quick': [(1, 2, 1, None, True, True, 2, 1), (2, 2, 1, None, True, True, 2, 4), (3, 2, 1, None, True, True, 2, 12),
                  (3, 2, 2, None, False, True, 2, 4), (4, 3, 1, None, False, True, 2, 16), (4, 2, 1, 3, False, True, 2, 4),
                  (5, 3, 2, None, True, True, 1, 2), (22, 2, 20, None, False, True, 1, 4), (3, 1, 1, None, True, True, 2, 2)],
        'thorough': [(1, 2, 1, None, True, True, 3, 4), (2, 2, 1, None, True, True, 3, 64), (3, 2, 1, None, False, True, 3, 128),
                     (3, 2, 1, None, True, True, 2, 16), (3, 3, 1, None, True, True, 2, 32), (3, 2, 2, None, False, True, 3, 64),
                     (4, 3, 1, None, False, True, 2, 32), (4, 3, 2, None, True, True, 2, 64), (5, 2, 1, None, False, True, 2, 32),
                     (5, 4, 2, None, False, True, 2, 64), (22, 3, 20, None, False, True, 1, 16), (45, 2, 20, None, False, True, 1, 16),
                     (3, 1, 1, None, True, True, 3, 16)],
    }

    def units(self, tier):
        out = []
        for c in self.configs[tier]:
            out += [[list(c), k] for k in range(c[-1])]
        for n in range(1, 33 if tier == 'quick' else 131):
            out.append(['sizes', n, tier == 'thorough'])
        return out + [['litmus', 5 if tier == 'quick' else 100, i, 11] for i in range(11)]

    def sizes(self, unit, rec):
        """Every number of files, groups, chunks and workers under one schedule"""
        import platform
        _, n, deep = unit
        w = self.w
        restore_vocab()
        w.wipe()
        for name, data in small_files(n).items():
            w.write(f'ds/{name}', data)
        path, out = w.path('ds'), w.path('out')
        w.tick()
        w.simulate(lambda: self.call('basic', path, out, {'no_unicode': True}), cpus=2)
        saved = w.save()
        groups = (None, 1, 2, 3, 5, 7, 16) if deep else (None, 1, 2, 3, 7)
        chunks = (None, 1, 2, 3, 7, 20) if deep else (1, 2, 3, 20)
        system = platform.system
        for g, c, cpus, darwin in itertools.product(groups, chunks, (1, 2, 3, 8) if deep else (1, 3), (False, True)):
            if darwin and cpus != 3:
                continue
            if rec.stop:
                break
            restore_vocab()
            patch_vocab(c, g)
            w.restore(saved)
            w.tick()
            rec.evaluations += 1
            rec.nontrivial((n, g, c, cpus, darwin))
            s = sim.Sim(sim.Chooser(), cpus=cpus)
            try:
                if darwin:
                    platform.system = lambda: 'Darwin'
                r = self.go(s, lambda: self.call('basic', path, out, {'no_unicode': True}, vocab=True), False)
            finally:
                platform.system = system
            if not r.ok:
                msg = f'{r}'
            else:
                o = attempt(lambda: self.observe(r.value, vocab=True))
                msg = self.wrong_counts(o.value) if o.ok else f'{o}'
                rec.outcome(json.dumps(o.value['order'][:9]) if o.ok else str(o))
            if msg:
                rec.violation({'unit': unit, 'groups': g, 'chunks': c, 'cpus': cpus, 'darwin': darwin}, msg)
        restore_vocab()

    def litmus(self, unit, rec):
        """
        Is what the controlled processes can do all of what real ones do? Says nothing about the code: a difference makes
        the exploration incomplete, and the evidence shows it.
        """
        import litmus      # after the classes of multiprocessing have been replaced
        _, repetitions, i, step = unit
        programs = litmus.PROGRAMS[i::step]
        seen = litmus.real([p.__name__ for p in programs], repetitions)
        for p in programs:
            with core.guard():
                outcomes, n = litmus.modelled(p, 3)
            rec.count('litmus_executions', n)
            rec.count('litmus_outcomes', len(outcomes))
            if seen is None:
                rec.count('litmus_programs_without_real_runs')
                continue
            rec.count('litmus_real_runs', sum(seen[p.__name__].values()))
            missing = sorted(set(seen[p.__name__]) - outcomes)
            rec.count('litmus_programs')
            rec.count('litmus_real_outcomes_not_explored', len(missing))
            if missing:
                rec.count('litmus_not_explored_in_' + p.__name__, len(missing))
            for x in missing:
                rec.sample({'litmus': p.__name__, 'not explored': x, 'explored': sorted(outcomes)}, 8)

    def run_unit(self, unit, rec):
        if unit[0] == 'litmus':
            return self.litmus(unit, rec)
        if unit[0] == 'sizes':
            return self.sizes(unit, rec)
        (n, cpus, chunks, groups, fsp, late, bound, shards), shard = unit
        w = self.w
        restore_vocab()
        patch_vocab(chunks, groups)
        w.wipe()
        for name, data in small_files(n).items():
            w.write(f'ds/{name}', data)
        path, out = w.path('ds'), w.path('out')
        w.tick()
        w.simulate(lambda: self.call('basic', path, out, {'no_unicode': True}), cpus=cpus)
        saved = w.save()
        w.tick()

        def job():
            return self.call('basic', path, out, {'no_unicode': True}, vocab=True)

        def once(ch, skip):
            if skip:   # only to find the decisions
                w.restore(saved)
                s = sim.Sim(ch, cpus=cpus, late_delivery=late)
                self.go(s, job, fsp)
                return
            w.restore(saved)
            w.tick()
            rec.evaluations += 1
            s = sim.Sim(ch, cpus=cpus, late_delivery=late)
            r = self.go(s, job, fsp)
            rec.count('scheduling_points', s.points)
            rec.nontrivial((n, cpus, chunks, fsp, ch.taken))
            msg = None
            if not r.ok:
                msg = f'{r}'
            else:
                o = attempt(lambda: self.observe(r.value, vocab=True))
                msg = self.wrong_counts(o.value) if o.ok else f'{o}'
                rec.outcome(json.dumps(o.value['order']) if o.ok else str(o))
            if msg:
                if s.crashed:
                    msg += f'; processes ended with {[repr(e) for _, e in s.crashed]}'
                rec.violation({'unit': unit, 'decisions': ch.taken}, msg)
            if rec.evaluations % 500 == 1:
                rec.sample({'config': unit[0], 'decisions': ch.taken})
            return not rec.stop

        sim.explore(once, bound, shard, shards)

    def go(self, s, job, fsp):
        w = self.w
        s.clock = float(w.fs.clock)
        w.fs.on_point = (lambda kind, what: s.point(kind, what)) if fsp else None
        try:
            with core.guard():
                return attempt(lambda: s.run(lambda: w.quiet(job)))
        except core.Hang:
            from world import Outcome
            return Outcome('hang', 'no end')
        finally:
            w.fs.on_point = None



# ---------------------------------------------------------------------------------------------------------------------

CONTENTS = [
    b'', b'\n', b'a', b'a\n', b'a\n\n', b'\n\n a', b'int a;\r\n\tfoo("x  y");\n', b'a\rb', b'  \t', 'föö "ü ÷"\n'.encode(),
    'Ähm'.encode('latin1'), b'\xff\xfe\x00', '\ufeffint x;'.encode(), 'a\u2028b\x85c'.encode(), b'a\x0cb\x1c\x0bc',
    b'// c @x\n', b'/* a\n b */', b'"a \\" b"', b"'c'", b'"unterminated', b'/* unterminated', b'a\tb\\n \\x41 \\', b'<EOF> <w> </t>',
    '日本 x = "日 本";'.encode(), '\U0001f600'.encode(), b'x1Y_zAB 0x1F 10L 1.5e-3f', b'import static a.B;', b'@@ @ a@b "@ @"',
    b'def f():\n    return None\n', b'SELECT 1', b'<a href="b c">T</a>', b'\x00', b'a' * 70 + b'B' * 70, b'"' + b's' * 70 + b'"',
    '\xa0a\xa0'.encode(), b'a \n\n\n b\n\n\n', b'%s %d\t|\t', b'\xe9\n// \xe9\n', b'null true -> :: >>= &&', b'if(a){b();}else{c;}',
    b'x = "b\\n" + "\\t\\x41" + \'\\\\n\' + "\\u00fc\\\\" + "\\\\\\n";\n', b"'\\N{DASH} \\a\\0'"
]
EXTS = ['java', 'py', 'c', 'txt', 'html', 'JAVA', '']


def fits(got, api):
    """The tokens of a file of the corpus, and what the text function gives for its contents: the same, or with a line
    break before the end of file."""
    if got == api:
        return True
    return len(got) == len(api) + 1 and got[:-2] == api[:-1] and got[-1] == api[-1] and got[-2] in ('\n', '\n</t>')


class CorpusIsText(CorpusCheck):
    rule = ('every listed file content x extension x mode x option, and every set of up to three (thorough: four) of the listed '
            'paths x extension filter; non-trivial: files with at least one token besides the end of file')
    MODES_Q = ['nosplit', 'full', 'basic', 'numbers', 'nocase', 'stem', 'chars', '1k']
    OPTS = [{}, {'no_spaces': True}, {'no_unicode': True}, {'no_com': True}, {'no_str': True}, {'max_str_length': 5},
            {'no_spaces': True, 'no_unicode': True, 'no_com': True, 'no_str': True}]
    PATHS = ['a.java', 'b.py', 'noext', '.java', '.hidden.py', 'x/a.java', 'x/y/a.java', 'x/b.py', 'sp ace.java', 'ü/ü.java',
             'b:\xff.java', 'a.java.prep', 'x.java/in.py', 'new\nline.java', "q'uo\"te.java", 'c.xjava', 'two.dots.java',
             'link:a.java', 'dirlink:x', 'back\\slash.java', 'a.py.java',
             'a.parsed.java', 'p.prep/.parsed.d/b.prep.py', 'UP.JAVA', 'z.part', 'q/z.java.part', 'vocab', 'a~.java', '#b#.py']
    FILTERS = [None, 'java', 'java|py', 'py|java|java', 'py', 'dots.java', 'xyz', 'java.prep', 'JAVA', 'part|Py']

    def units(self, tier):
        out = []
        modes = textapi.ALL if tier == 'thorough' else self.MODES_Q
        for m in modes:
            for i in range(len(self.OPTS)):
                if tier == 'quick' and i > 0 and (i + len(m)) % 2:
                    continue
                out.append(['contents', m, i])
        k = 4 if tier == 'thorough' else 3
        n = 32 if tier == 'thorough' else 8
        for f in range(len(self.FILTERS)):
            for s in range(n):
                out.append(['paths', f, k, s, n])
        for m in modes:
            for i in (0, len(self.OPTS) - 1) if tier == 'quick' else range(len(self.OPTS)):
                out.append(['kinds', m, i])
        out.append(['single'])
        out.append(['ways'])
        out.append(['ways', 2])
        out += [['large', m, i] for m in (modes if tier == 'thorough' else ['nosplit', 'basic', '1k'])
                for i in range(len(self.LARGE))]
        out += [['many', m, n] for m in modes[:1] for n in (101, 257, 1030)]
        return out

    # large files: one line again and again, up to a size
    LARGE = [('java', b'int aB = 1; // one\n', 70000), ('java', b'int aB = 1; // one\n', 300000), ('py', b'x = "s t" + dD\r\n', 140000),
             ('c', b'a_b + 12 ', 70000), ('txt', 'ü wort\n'.encode(), 140000), ('java', b'\n', 70000), ('html', b'<a b="c">d</a>\n', 40000),
             ('java', b'/* a b\n', 20000), ('java', b'aB c ', 5000), ('java', b'xY=1;', 11000)]

    def large(self, unit, rec):
        _, mode, i = unit
        x, line, size = self.LARGE[i]
        if self.tier == 'thorough':
            size *= 2
        w = self.w
        w.wipe()
        files = {}
        for name, data in ((f'a.{x}', line * (size // len(line) + 1)), (f'b/b.{x}', line * (size // len(line) + 1) + b'theLast'),
                           (f'c.{x}', line)):
            files[name] = data
            w.write('ds/' + name, data)
        self.check(unit, rec, mode, {}, files)

    def many(self, unit, rec):
        _, mode, n = unit
        w = self.w
        w.wipe()
        files = {}
        for i in range(n):
            name = f'd{i % 5}/e{i % 3}/f{i}.{["java", "py"][i % 2]}'
            files[name] = f'int f{i};\n'.encode()
            w.write('ds/' + name, files[name])
        self.check(unit, rec, mode, {}, files)
        self.check(unit, rec, mode, {}, {k: v for k, v in files.items() if k.endswith('.py')}, 'py')

    def run_unit(self, unit, rec):
        getattr(self, unit[0])(unit, rec)

    def check(self, unit, rec, mode, opts, files, ext=None, path='ds', vocab=False, suppress=False, out='out', cwd=None):
        """files: {name: data} with latin1 names. One run, compared file by file."""
        w = self.w
        rec.evaluations += 1
        p = w.path(path)

        def job():
            return self.call(mode, p, w.path(out) if out else None, opts, ext, vocab, suppress)
        if cwd:
            os.chdir(w.path(cwd))
        try:
            with core.guard():
                o = attempt(lambda: w.simulate(job)[0])
                obs = attempt(lambda: self.observe(o.value, vocab)) if o.ok else o
        except core.Hang:
            rec.violation({'unit': unit}, f'no end: {mode} {opts} {ext} {sorted(files)!a}')
            return
        finally:
            os.chdir('/')
        case = {'unit': unit, 'mode': mode, 'opts': opts, 'ext': ext, 'files': sorted(files)}
        if not obs.ok:
            rec.violation(case, f'{obs}')
            return
        v = obs.value
        want = {os.path.normpath(n) + '.prep' for n in files}
        if v['missing'] or set(v['files']) != want or v['listed'] != len(want) or v['stray']:
            rec.violation(case, f'files {sorted(v["files"])!a}, expected {sorted(want)!a}; listed {v["listed"]}, missing '
                                f'{v["missing"]!a}, other files {v["stray"]!a}')
            return
        base = os.path.basename(o.value.path_to_prep_dataset)
        where = os.path.dirname(o.value.path_to_prep_dataset)
        if where != w.path(out if out else cwd):
            rec.violation(case, f'written to {o.value.path_to_prep_dataset}')
        rec.outcome((base, len(want)))
        for name, data in files.items():
            rec.evaluations += 1
            got = v['files'][os.path.normpath(name) + '.prep']
            x = os.path.splitext(os.path.basename(name))[1][1:]
            try:
                x = x.encode('latin1').decode('utf-8', 'replace')
                api = self.text_call(mode, text_of(data), x, opts)
            except Exception:
                rec.count('skipped_because_of_another_property')
                continue
            try:
                ls = lines_of(got)
            except UnicodeDecodeError as e:
                rec.violation(case, f'{name!a}: {data!a} gives {got[:300]!a}: {e}')
                continue
            if len(ls) != 1 or not got.endswith(b'\n') or not fits(ls[0], api):
                rec.violation(case, f'{name!a} with {data!a} gives {got[:400]!a}, the text function gives {api!a}')
            if len(api) > 1:
                rec.nontrivial((mode, opts, name, data))
        rec.sample({'mode': mode, 'opts': opts, 'ext': ext, 'files': sorted(files)[:6]})

    def contents(self, unit, rec):
        _, mode, i = unit
        w = self.w
        w.wipe()
        files = {}
        for k, data in enumerate(CONTENTS):
            for x in EXTS:
                name = f'f{k}.{x}' if x else f'f{k}'
                files[name] = data
                w.write('ds/' + name, data)
        self.check(unit, rec, mode, self.OPTS[i], files)

    def kinds(self, unit, rec):
        """Every kind of token there is, in its language, and texts in which all options have something to do"""
        _, mode, i = unit
        w = self.w
        w.wipe()
        files = {}
        for k, (x, text) in enumerate(texts.KINDS + [(x, t) for t, x in texts.RICH]):
            if x != 'raw':
                files[f'{k % 7}/f{k}.{x}'] = text.encode()
                w.write(f'ds/{k % 7}/f{k}.{x}', text.encode())
        self.check(unit, rec, mode, self.OPTS[i], files)

    def paths(self, unit, rec):
        _, f, k, shard, n = unit
        w = self.w
        ext = self.FILTERS[f]
        exts = ext.split('|') if ext else None
        sets = [c for r in range(1, k + 1) for c in itertools.combinations(range(len(self.PATHS)), r)]
        w.wipe()
        for ci, c in enumerate(sets):
            if ci % n != shard or rec.stop:
                continue
            if len(c) == k and (ci // n + f) % (8 if k == 3 else 16):   # the largest sets are shared out among the filters
                continue
            w.wipe()
            files = {}
            links = []
            for j in c:
                p = self.PATHS[j]
                data = f'v{j} = "{j}"'.encode()
                if p.startswith('link:') or p.startswith('dirlink:'):
                    links.append(p)
                    continue
                if p.startswith('b:'):
                    w.write(b'ds/' + p[2:].encode('latin1'), data)
                    files[p[2:]] = data
                else:
                    w.write('ds/' + p, data)
                    files[p.encode().decode('latin1')] = data
            if not files and not links:
                continue
            if not os.path.isdir(w.path('ds')):
                w.write('ds/base.txt', b'x')
                files['base.txt'] = b'x'
            for p in links:
                kind, target = p.split(':')
                if kind == 'link':
                    w.write('elsewhere.java', b'outside')
                    os.symlink(w.path('elsewhere.java'), w.path('ds/zlink.java'))
                else:
                    w.write('far/in.java', b'farIn')
                    w.write('far/in.py', b'farPy')
                    os.symlink(w.path('far'), w.path('ds/zdir'))
                    files['zdir/in.java'] = b'farIn'
                    files['zdir/in.py'] = b'farPy'
            if exts:
                files = {n_: d for n_, d in files.items() if any(n_.endswith('.' + x) for x in exts)}
            self.check(unit, rec, 'basic', {}, files, ext)

    def single(self, unit, rec):
        w = self.w
        for name in ('one.java', 'one', 'ü ber.py', '.dot'):
            for data in (b'int aB;\n', b'', b'\n'):
                for ext in (None, 'java'):
                    w.wipe()
                    w.write(name, data)
                    w.write('other.java', b'other')
                    if ext is None or name.endswith('.' + ext):
                        self.check(unit, rec, 'basic', {}, {name.encode().decode('latin1'): data}, ext, path=name)

    def ways(self, unit, rec):
        """The ways to call: default output path, no caching, vocabulary, twice, trailing slash, relative path; and more files than are
        looked at to see what kinds of files there are"""
        w = self.w
        if len(unit) > 1:
            import codeprep.pipeline.parse_projects
            import codeprep.pipeline.to_repr
            mods = [m for m in (codeprep.pipeline.parse_projects, codeprep.pipeline.to_repr) if hasattr(m, 'LIMIT_FILES_SCANNING')]
            old = [m.LIMIT_FILES_SCANNING for m in mods]
            for m in mods:
                m.LIMIT_FILES_SCANNING = unit[1]
            try:
                self.ways(unit[:1], rec)
            finally:
                for m, v in zip(mods, old):
                    m.LIMIT_FILES_SCANNING = v
            return
        for vocab in (False, True):
            for suppress in (False, True):
                for out in ('out', None):
                    for again in (1, 2):
                        w.wipe()
                        files = {n: d for n, d in small_files(4).items()}
                        for n, d in files.items():
                            w.write('ds/' + n, d)
                        w.write('cwd/x', b'')
                        for _ in range(again):
                            self.check(unit, rec, 'basic', {}, files, vocab=vocab, suppress=suppress, out=out, cwd='cwd')
                            w.tick()


class PipelineSchedules(CorpusCheck):
    rule = ('every schedule of the real parsing and preprocessing pools (chunks, workers, file operations) with up to the stated '
            'number of deviations; the outputs are compared with those of one worker')
    # files, workers, chunk size, mode, what, deviations, shards
    configs = {
        'quick': [(2, 2, 1, 'basic', 'prep', 2, 4), (3, 2, 1, '1k', 'prep', 2, 8), (4, 3, 1, 'nosplit', 'prep', 1, 2),
                  (4, 2, 2, 'basic', 'prep', 2, 6), (3, 2, 1, 'nosplit', 'size', 2, 6), (2, 2, 1, '', 'learn', 1, 6),
                  (3, 2, 24, 'chars', 'prep', 2, 1), (3, 2, 1, 'basic', 'same', 2, 8),
                  (30, 2, 24, 'nosplit', 'size', 0, 1)],
        'thorough': [(2, 2, 1, 'basic', 'prep', 3, 16), (3, 2, 1, '1k', 'prep', 2, 8), (4, 3, 1, 'nosplit', 'prep', 2, 32),
                     (4, 2, 2, 'basic', 'prep', 3, 32), (3, 3, 1, 'chars', 'prep', 2, 16), (5, 2, 2, 'full', 'prep', 2, 16),
                     (3, 2, 1, 'nosplit', 'size', 3, 16), (3, 2, 1, '', 'learn', 2, 128), (3, 2, 24, 'chars', 'prep', 3, 2),
                     (3, 3, 1, 'basic', 'same', 3, 32), (30, 3, 24, 'nosplit', 'size', 1, 4)],
    }

    def units(self, tier):
        return [[list(c), k] for c in self.configs[tier] for k in range(c[-1])] + \
            [['real', n, k] for n in (1, 3, 9, 30) for k in range(1 if tier == 'quick' else 10)]

    def real(self, unit, rec):
        """The same with real processes and without any control: is what is explored what happens?"""
        w = self.w
        n = unit[1]
        files = {f'ds/{k}': v for k, v in small_files(n).items()}
        from codeschecks import WORDS as LEARN_WORDS, write_words
        files.update({f'learn/{k}': write_words(v) for k, v in LEARN_WORDS.items()})
        steps = [['call', 'basic', 'ds', 'out', {}, None, True, True], ['call', '1k', 'ds', 'out', {'no_com': True}, 'java', True, True],
                 ['call', 'basic', 'ds', 'out', {}, None, True, True], ['cli', 'learn-bpe', '3', '-p', '{root}/learn', '--id', 'x'],
                 ['cli', 'learn-bpe', '5', '-p', '{root}/learn'], ['call', 'x-3', 'ds', 'out', {}, None, False, True]]
        restore_vocab()
        w.wipe()
        w.forget()
        for k, v in files.items():
            w.write(k, v)
        want = []
        for s in steps:
            if s[0] == 'cli':
                o = attempt(lambda: w.simulate(lambda: (w.cli(*[a.replace('{root}', w.root) for a in s[1:]]), {})[1])[0])
            else:
                _, mode, path, dest, opts, ext, vocab, size = s
                o = attempt(lambda: w.simulate(lambda: self.observe(self.call(mode, w.path(path), w.path(dest), opts, ext, vocab),
                                                                    vocab, size))[0])
            want.append(o)
        learned = self.learned()
        rec.evaluations += 1
        home = os.path.join(os.path.dirname(w.home), 'real' + os.path.basename(w.home))
        r = real_run(home, files, steps)
        if r is None:
            rec.count('real_runs_without_end_in_time')
            return
        rec.count('real_runs')
        rec.nontrivial(unit)
        got, config = r
        for s, g, x in zip(steps, got, want):
            msg = self.diff(g, x) or (self.wrong_counts(g.value) if g.ok and g.value and s[0] == 'call' else None)
            if msg:
                rec.violation({'unit': unit, 'step': s}, f'with real processes, {s}: {msg}')
                return
        if len(got) != len(want):
            rec.violation({'unit': unit}, f'the real process ended: {got}')
        elif self.learned(config) != learned:
            d = sorted(k for k in set(self.learned(config)) | set(learned) if self.learned(config).get(k) != learned.get(k))
            rec.violation({'unit': unit}, f'with real processes, learned files differ: {d}')

    def run_unit(self, unit, rec):
        if unit[0] == 'real':
            return self.real(unit, rec)
        (n, cpus, chunk, mode, what, bound, shards), shard = unit
        w = self.w
        restore_vocab()
        w.wipe()
        w.fs.reverse = False
        for name, data in small_files(n).items():
            if what == 'same':      # all in one folder
                name = f'sub/{os.path.basename(name)}'
            w.write(f'ds/{name}', data)
        path, out = w.path('ds'), w.path('out')
        w.tick()
        start = w.save()

        def job():
            w.forget()
            if what == 'learn':
                w.cli('learn-bpe', '3', '-p', path, '--id', 'x')
                return None
            r = self.call(mode, path, out)
            if what == 'size':
                r.get_corpus_size()
            return r

        def observe(r):
            if what == 'learn':
                return self.learned()
            return self.observe(r, size=what == 'size')

        want = attempt(lambda: observe(w.simulate(job, cpus=1)[0]))
        if not want.ok:
            rec.violation({'unit': unit}, f'with one worker: {want}')
            return
        msg = self.wrong_counts(want.value) if what != 'learn' else None
        if msg:
            rec.violation({'unit': unit}, f'with one worker: {msg}')
            return

        def once(ch, skip):
            w.restore(start)
            s = sim.Sim(ch, cpus=cpus, chunksize=chunk)
            s.clock = float(w.fs.clock)
            w.fs.on_point = (lambda kind, what: s.point(kind, what))
            try:
                with core.guard():
                    r = attempt(lambda: s.run(lambda: w.quiet(job)))
            except core.Hang:
                from world import Outcome
                r = Outcome('hang', 'no end')
            finally:
                w.fs.on_point = None
            if skip:
                return
            rec.evaluations += 1
            rec.count('scheduling_points', s.points)
            rec.nontrivial((unit[0], ch.taken))
            got = attempt(lambda: observe(r.value)) if r.ok else r
            msg = self.diff(got, want)
            rec.outcome(s.points)
            if msg:
                if s.crashed:
                    msg += f'; processes ended with {[repr(e) for _, e in s.crashed]}'
                rec.violation({'unit': unit, 'decisions': ch.taken}, msg)
            if rec.evaluations % 500 == 1:
                rec.sample({'config': unit[0], 'decisions': ch.taken})
            return not rec.stop

        sim.explore(once, bound, shard, shards)

    def learned(self, tree=None):
        """What learn-bpe left behind, except for orders"""
        out = {}
        for rel, data in (self.w.tree(self.w.home) if tree is None else tree).items():
            if not rel.startswith('.config/') or rel.endswith('.lastmodif'):
                continue
            name = os.path.basename(rel)
            if name == 'vocabsize':
                data = data.split(b'\n')[0]
            elif name != 'merges.txt':
                data = sorted(data.split(b'\n'))
            out[rel] = data
        return out


# ---------------------------------------------------------------------------------------------------------------------

class CrashCheck(CorpusCheck):
    def warm_up(self):
        """Compiles the code with other data than that of the check; every run of the check is a new process."""
        w = self.w
        for i in range(3):
            w.wipe()
            for name, data in small_files(4).items():
                w.write(f'warm{i}/w{i}{name}', data)
            w.write(f'warm{i}/w.txt', b'not java')
            w.tick()
            attempt(lambda: w.simulate(lambda: self.warm_job(w.path(f'warm{i}'), w.path(f'warmout{i}'))))
        w.wipe()
        w.forget()

    def warm_job(self, path, out):
        for m in ('basic', '1k', 'nosplit'):
            self.observe(self.call(m, path, out, vocab=True), vocab=True, size=True)

    def setup(self, home):
        super().setup(home)
        self.warm_up()

    """Cuts every run off at every file operation, in every torn-write variant, run again, compare with one complete run."""

    def explore_crashes(self, unit, rec, start, job, observe, modes=('crash', 'fault'), shard=0, shards=1, cpus=2, gap=10,
                        prefixes=((),), double=False, need=None, picks=None):
        w = self.w
        w.restore(start)
        base_prefix = ()

        def go(prefix=()):
            return attempt(lambda: w.simulate(lambda: observe(job()), sim.Chooser(prefix), cpus=cpus, fs_points=bool(prefix))[0])

        want = forked(lambda: go())
        if not want.ok:
            rec.violation({'unit': unit}, f'an uninterrupted run: {want}')
            return
        want = Un(want)
        if not want.ok:
            rec.violation({'unit': unit}, f'an uninterrupted run: {want}')
            return
        bad = need(want.value) if need else None
        if bad:
            rec.violation({'unit': unit}, f'an uninterrupted run: {bad}')
            return
        k = -1
        for prefix in prefixes:
            w.restore(start)

            def dry():
                w.fs.reset()
                go(prefix)
                return list(w.fs.log)
            log = forked(dry)
            if not log.ok:
                rec.violation({'unit': unit}, f'an uninterrupted run: {log}')
                return
            log = log.value
            for mode in modes:
                for i, (kind, name, variants) in enumerate(log):
                    if picks and i % max(1, len(log) // picks):
                        continue
                    for v in range(variants):
                        k += 1
                        if k % shards != shard:
                            continue
                        if rec.stop:
                            return
                        w.restore(start)
                        self.crash(unit, rec, go, want, prefix, [(mode, i, v, kind, name)], gap, double, start)

    def crash(self, unit, rec, go, want, prefix, cuts, gap, double, start):
        w = self.w
        later = []
        for j, (mode, i, v, kind, name, *then) in enumerate(cuts):
            def broken(mode=mode, i=i, v=v):
                w.fs.reset(mode, i, v, tuple(then[:2]) or None)
                r = go(prefix if j == 0 else ())
                return r, list(w.fs.log)
            r = forked(broken)
            if (mode == 'crash' or then) and r.kind != 'crash':
                rec.count('not_reached')
                return
            if r.ok and mode == 'fault':
                later = [(x, *op) for x, op in enumerate(r.value[1]) if x > i]
            w.tick(gap)
        after = w.save() if double and len(cuts) == 1 else None

        def again():
            w.fs.reset()
            r = go()
            return r, list(w.fs.log)
        rec.evaluations += 1
        got = forked(again)
        log = []
        if got.ok:
            got, log = got.value
        rec.nontrivial((unit[:1], prefix, cuts))
        rec.outcome((cuts[-1][3], cuts[-1][2], got.kind))
        msg = self.diff(got, want)
        if msg:
            said = ', then '.join(f'{m} at operation {i} ({k} {n}, variant {v})' +
                                  (f' and crash at operation {t[0]} ({t[2]} {t[3]}, variant {t[1]})' if t else '')
                                  for m, i, v, k, n, *t in cuts)
            rec.violation({'unit': unit, 'prefix': prefix, 'cuts': cuts}, f'{said}: the next run: {msg}',
                          self.signature(cuts, msg))
        if rec.evaluations % 200 == 1:
            rec.sample({'unit': unit, 'cuts': cuts})
        if later and not msg and not double and len(cuts[0]) == 5:
            # the run goes on after the error: killed at every later operation
            for x, kind2, name2, variants in later:
                for v2 in range(variants):
                    if rec.stop:
                        return
                    w.restore(start)
                    self.crash(unit, rec, go, want, prefix, [cuts[0] + (x, v2, kind2, name2)], gap, double, start)
        if after is not None and not msg:
            for i, (kind, name, variants) in enumerate(log):
                for v in range(variants):
                    if rec.stop:
                        return
                    w.restore(after)
                    self.crash(unit, rec, go, want, prefix, cuts + [('crash', i, v, kind, name)], gap, False, start)

    def signature(self, cuts, msg):
        return None

    def replay(self, case, rec):
        self.run_unit(case['unit'], rec)


def Un(o):
    """forked(attempt) gives an outcome in an outcome"""
    return o.value if o.ok else o


MANY = 150  # files


class VocabCrash(CrashCheck):
    rule = ('every file operation of the vocabulary stage x every torn-write variant x {process killed, write error}, on the '
            'default schedule, with a second crash at every point of the second run, and (thorough) on every schedule with one '
            'deviation; for 150 files a kill at 24 (thorough: 96) operations spread evenly over the run; the next run is compared with the counts of the files')
    configs = {
        'quick': [(3, 2, 1, None), (4, 2, 2, None), (2, 1, 1, None), (4, 2, 1, 2)],
        'thorough': [(3, 2, 1, None), (4, 2, 2, None), (2, 1, 1, None), (4, 2, 1, 2), (5, 3, 2, None), (22, 2, 20, None)],
    }

    def units(self, tier):
        out = []
        for c in self.configs[tier]:
            n = 6
            for gap in (10, 0):
                for k in range(n):
                    out.append([list(c), gap, 'single', k, n])
        for k in range(16):
            out.append([[MANY, 2, 20, None], 10, 'many', k, 16])
        for c in ((2, 2, 1, None), (3, 2, 2, None)) if tier == 'thorough' else ((2, 2, 1, None),):
            for k in range(32):
                out.append([list(c), 10, 'double', k, 32])
        if tier == 'thorough':
            for k in range(96):
                out.append([[3, 2, 1, None], 10, 'schedules', k, 96])
        return out

    def run_unit(self, unit, rec):
        (n, cpus, chunks, groups), gap, kind, shard, shards = unit
        w = self.w
        restore_vocab()
        patch_vocab(chunks, groups)
        w.wipe()
        for name, data in small_files(n).items():
            w.write(f'ds/{name}', data)
        path, out = w.path('ds'), w.path('out')
        w.tick()
        w.simulate(lambda: self.call('basic', path, out, {'no_unicode': True}), cpus=cpus)
        start = w.save()
        start = (start[0], start[1] + 10)

        def job():
            return self.call('basic', path, out, {'no_unicode': True}, vocab=True)

        def observe(r):
            return self.observe(r, vocab=True, size=True)

        prefixes = [()]
        if kind == 'schedules':
            w.restore(start)
            ch = sim.Chooser()
            w.simulate(job, ch, cpus=cpus, fs_points=True)
            prefixes = [tuple(ch.taken[:i]) + (a,) for i in range(len(ch.taken)) for a in range(1, ch.ways[i])]
        self.explore_crashes(unit, rec, start, job, observe, shard=shard, shards=shards, cpus=cpus, gap=gap, prefixes=prefixes,
                             double=kind == 'double', need=self.wrong_counts, picks=kind == 'many' and (24 if self.tier == 'quick' else 96),
                             modes=('crash',) if kind != 'single' else ('crash', 'fault'))


class PipelineCrash(CrashCheck):
    rule = ('every file operation of listing, parsing and preprocessing (and of the corpus size) x every torn-write variant x '
            '{process killed, write error}, next run in the same or in a later second, with a second crash at every point of the second run; the next '
            'run is compared with an uninterrupted one')
    configs = {
        'quick': [(3, 'basic', None), (2, '1k', 'java'), (2, 'nosplit', None)],
        'thorough': [(3, 'basic', None), (2, '1k', 'java'), (2, 'nosplit', None), (4, 'chars', None), (5, 'nocase', 'java|py'),
                     (1, 'full', None)],
    }

    def units(self, tier):
        out = []
        for c in self.configs[tier]:
            for gap in (10, 0):
                for k in range(4):
                    out.append([list(c), gap, 'single', k, 4])
        for k in range(64):
            out.append([[2 if tier == 'thorough' else 1, 'basic', None], 10, 'double', k, 64])
        return out

    def run_unit(self, unit, rec):
        (n, mode, ext), gap, kind, shard, shards = unit
        w = self.w
        restore_vocab()
        w.wipe()
        for name, data in small_files(n).items():
            w.write(f'ds/{name}', data)
        w.write('ds/x.txt', b'not java')
        path, out = w.path('ds'), w.path('out')
        w.tick()
        start = w.save()

        def job():
            w.forget()
            r = self.call(mode, path, out, ext=ext)
            r.get_corpus_size()
            return r

        def observe(r):
            return self.observe(r, size=True)

        self.explore_crashes(unit, rec, start, job, observe, shard=shard, shards=shards, gap=gap, double=kind == 'double',
                             need=self.wrong_counts, modes=('crash',) if kind == 'double' else ('crash', 'fault'))


CHECKS = {'C19': CorpusIsText, 'C20': PipelineSchedules, 'C21': VocabSchedules, 'C22': VocabCrash, 'C23': PipelineCrash}
