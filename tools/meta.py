#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (development tool, no check runs it)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []

TECH = 'abstract interpretation of the parsed sources, compared with a reference program per partition'
NOTE = ('Every partition of the abstract runs of each client program is compared with a reference program over the same '
        'symbols; a difference is reported only when it is certain for some input. Trusts sa/ (interpreter, library '
        'models, reference programs). What it cannot decide is listed as undecided in the evidence and is not reported.')


def prop(id, title, statement, over, text, why, files, mech, note='', tech=TECH):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), _note=note, _tech=tech))


def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech)
    NA.append((id, reason))


W, PL, U, M, PA, R, H, SK = ('whatami/what.py', 'whatami/plugins.py', 'whatami/whatutils.py', 'whatami/misc.py',
                             'whatami/parsers.py', 'whatami/registry.py', 'whatami/minijoblib/hashing.py',
                             'whatami/wrappers/what_sklearn.py')

exec(open(os.path.join(HERE, 'tools', 'table.py'), encoding='utf-8').read())


def main():
    P.sort(key=lambda p: p['id'])
    with open(os.path.join(HERE, 'properties.jsonl'), 'w', encoding='utf-8') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
    no = dict(NA)
    doc = {'version': 1, 'setup_cmd': 'python3 -m py_compile check.py sa/*.py sa/props/*.py',
           'checks': [dict(property=p['id'], quick_cmd='python3 check.py %s --tier quick' % p['id'],
                           thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
                           evidence_file='evidence/%s.json' % p['id'], technique=p['_tech'], level='other',
                           level_note=(p['_note'] + ' ' + NOTE).strip()) for p in P if p['id'] not in no],
           'not_applicable': [dict(property=k, reason=r) for k, r in sorted(no.items())],
           'notes': 'The checks only parse /repo (no build, no hooks, no execution of its code). See DESIGN.md.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
        json.dump(doc, f, indent=1)
        f.write('\n')


main()
