"""
Runs corpus functions and commands with the processes, queues, files and clock of the operating system, in a process of its
own. Reads a job from standard input and writes what happened to standard output (both json, bytes as latin1).
"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    job = json.load(sys.stdin)
    out = os.dup(1)
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 1)
    os.dup2(null, 2)
    import core
    sys.path.insert(0, core.REPO)
    import stubs
    stubs.install_progress()
    core.import_codeprep()
    import corpuschecks
    import world
    check = corpuschecks.CorpusCheck()
    w = check.w = world.World(os.environ['HOME'])
    import codeprep.api.corpus
    import codeprep.api.text
    import codeprep.cli.spec
    w.corpus, w.text, w.cli_main = codeprep.api.corpus, codeprep.api.text, codeprep.cli.spec.parse_and_run
    for k, v in job.get('constants', {}).items():
        import codeprep.pipeline.vocab as v_
        if hasattr(v_, k):
            setattr(v_, k, v)
    for name, data in job['files'].items():
        w.write(name, data.encode('latin1'))
    results = []
    for step in job['steps']:
        if step[0] == 'cli':
            r = world.attempt(lambda: (w.cli(*[a.replace('{root}', w.root) for a in step[1:]]), {})[1])
        else:
            _, mode, path, dest, opts, ext, vocab, size = step
            r = world.attempt(lambda: check.observe(check.call(mode, w.path(path), w.path(dest), opts, ext, vocab), vocab, size))
            if r.ok:
                r.value['files'] = {k: v.decode('latin1') for k, v in r.value['files'].items()}
        results.append([r.kind, r.value])
    learned = {}
    for rel, data in w.tree(w.home).items():
        if rel.startswith('.config/'):
            learned[rel] = data.decode('latin1')
    with os.fdopen(out, 'w') as f:
        json.dump({'results': results, 'config': learned}, f)


if __name__ == '__main__':
    main()
