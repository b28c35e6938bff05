#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand, output committed)."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe_at, technique, note, state=()):
    P.append(dict(
        prop=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=observe_at, hook_needed=None)),
        check=dict(property=id, quick_cmd='./check {0} quick'.format(id), thorough_cmd='./check {0} thorough'.format(id),
                   technique=technique, level='exploration', level_note=note)))


exec(open(os.path.join(HERE, 'tools', 'props.py')).read())

NOT_APPLICABLE = []

if __name__ == '__main__':
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as F:
        for p in sorted(P, key=lambda p: p['prop']['id']):
            F.write(json.dumps(p['prop'], sort_keys=True) + '\n')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as F:
        json.dump(dict(
            version=1,
            setup_cmd='./setup.sh',
            hooks=dict(guard='none', enable='no hooks are compiled into the code under test: monitors attach from /verif at run time (public readouts, and the solver registry for P01)', source_commits=[]),
            checks=[p['check'] for p in sorted(P, key=lambda p: p['prop']['id'])],
            not_applicable=NOT_APPLICABLE,
        ), F, indent=1)
        F.write('\n')
