#!/bin/bash
# Nothing is compiled: checks that the interpreter and the libraries of /repo's environment are there.
set -e
cd "$(dirname "$0")"
/opt/venv-pypy/bin/pypy3 -B - <<'PY'
import greenlet, pygments, regex, dill, docopt, nltk, json
json.load(open('MANIFEST.json'))
print('ok')
PY
