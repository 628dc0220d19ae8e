#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (kept here so that the two stay in step)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def p(id, title, statement, over, qtext, why, files, mech, observe=(), state=(), note='', technique='', level='proof', theorems=()):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, observe=list(observe),
                state=list(state), note=note, technique=technique, level=level)


TECH = ('contract-based deductive verification: MIR of the current source is executed symbolically function by function, '
        'pre/postconditions and loop rules become SMT obligations (z3, nlsat, cvc5); counterexamples are replayed on the compiled crate')

P = []
exec(open(os.path.join(V, 'tools', 'table.py')).read())


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for x in P:
            f.write(json.dumps({
                'id': x['id'], 'title': x['title'], 'statement': x['statement'],
                'quantifier': {'over': x['over'], 'text': x['qtext']},
                'why_tests_cant': x['why'],
                'anchors': {'files': x['files'], 'mechanism': [{'name': n, 'where': w} for n, w in x['mech']],
                            'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in x['state']],
                            'observe_at': x['observe'], 'hook_needed': None},
            }) + '\n')
            assert len(x['title']) <= 80, x['title']
    man = {
        'version': 1,
        'setup_cmd': './setup.sh',
        'hooks': {'guard': 'none', 'enable': 'none: the checks read the unmodified source tree; harness modules are appended only to scratch copies', 'source_commits': []},
        'checks': [{
            'property': x['id'], 'quick_cmd': './check %s' % x['id'], 'thorough_cmd': './check %s --tier thorough' % x['id'],
            'evidence_file': 'evidence/%s.json' % x['id'], 'technique': TECH, 'level': x['level'], 'level_note': x['note'],
        } for x in P if not x.get('na')],
        'not_applicable': NA,
        'notes': NOTES,
    }
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
