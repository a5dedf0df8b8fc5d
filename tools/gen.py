#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (python3 tools/gen.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TESTS = 'The tests look at a few dozen example snippets'

P = []


def prop(id, title, statement, over, quant, why, files, mech, observe, technique, level='exploration', note='', state=None,
         hook=None):
    anchors = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe, 'hook_needed': hook or 'none'}
    if state:
        anchors['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append(dict(prop={'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': quant},
                        'why_tests_cant': why, 'anchors': anchors},
                  technique=technique, level=level, note=note))


ENUM = 'bounded exhaustive enumeration of inputs x configurations on the real code'
TEXT = ['codeprep/api/text.py', 'codeprep/parse/core.py', 'codeprep/parse/matchers.py', 'codeprep/parse/subtokens.py']
TOK = ['codeprep/tokens/containers.py', 'codeprep/tokens/word.py', 'codeprep/tokens/whitespace.py', 'codeprep/tokens/numeric.py',
       'codeprep/tokens/noneng.py']
OBS = ['codeprep.api.text.nosplit', 'codeprep.api.text.basic', 'codeprep.api.text.chars', 'codeprep.api.text.bpe']

exec(open(os.path.join(HERE, 'tools', 'props_table.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        d = dict(p['prop'])
        f.write(json.dumps(d, ensure_ascii=False) + '\n')
manifest = {
    'version': 1,
    'setup_cmd': 'bash setup.sh',
    'checks': [{
        'property': p['prop']['id'],
        'quick_cmd': f"bash run.sh {p['prop']['id']}",
        'thorough_cmd': f"bash run.sh {p['prop']['id']} --thorough",
        'evidence_file': f"evidence/{p['prop']['id']}.json",
        'technique': p['technique'],
        'level': p['level'],
        'level_note': p['note'],
    } for p in P if p['technique']],
    'not_applicable': NOT_APPLICABLE,
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1, ensure_ascii=False)
    f.write('\n')
print(len(P), 'properties')
