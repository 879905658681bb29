#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LT = 'longitudinal_tomography/'
PROPS = []


def P(id, title, statement, over, text, why, files, mech, tech, note,
      state=(), observe=()):
    assert len(title) <= 80, title
    PROPS.append(dict(
        prop=dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over.split(), text=text),
                  why_tests_cant=why,
                  anchors=dict(files=[LT + f for f in files],
                               state=[dict(zip(('name', 'meaning', 'where'), s))
                                      for s in state],
                               mechanism=[dict(name=n, where=LT + w)
                                          for n, w in mech],
                               observe_at=list(observe), hook_needed=None)),
        tech=tech, note=note))


exec(open(os.path.join(HERE, 'tools', 'table.py')).read())


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p['prop']) + '\n')
    checks = []
    for p in PROPS:
        i = p['prop']['id']
        checks.append(dict(
            property=i, quick_cmd=f'/opt/venv/bin/python check.py {i}',
            thorough_cmd=f'VERIF_TIER=thorough /opt/venv/bin/python check.py {i}',
            evidence_file=f'evidence/{i}.json', technique=p['tech'],
            level='exploration', level_note=p['note']))
    m = dict(version=1,
             setup_cmd='/opt/venv/bin/python -m vt.build plain asan gpu',
             checks=checks, not_applicable=NOT_APPLICABLE, notes=NOTES)
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
