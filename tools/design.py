#!/usr/bin/env python3
"""Fills the generated tables of DESIGN.md (between <!-- X --> markers)."""
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    p = os.path.join(HERE, 'DESIGN.md')
    s = open(p).read()
    kf = json.load(open(os.path.join(HERE, 'known_findings.json')))['findings']
    fix, known, seed = [], [], []
    for e in kf:
        if e['status'] == 'fixed':
            w = e['what'].split(' ', 3)[3]
            fix.append(f"| {e['commit']} | {e['property']} | {w} |")
        else:
            known.append(f"* **{e['id']}** ({e['property']}): {e['what']}.")
    notes = json.load(open(os.path.join(HERE, 'tools', 'caught.json')))
    for d in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
        m = json.load(open(d))
        i = os.path.basename(os.path.dirname(d))
        seed.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | "
                    f"{notes.get(i, '?')} |")
    for k, rows in (
            ('FIX', ['| commit | property | what failed |', '|---|---|---|']
             + fix), ('KNOWN', known),
            ('SEED', ['| planted bug | property | what it breaks | caught by |',
                      '|---|---|---|---|'] + seed)):
        s = re.sub(rf'<!-- {k} -->.*?<!-- /{k} -->',
                   lambda _: f'<!-- {k} -->\n' + '\n'.join(rows)
                   + f'\n<!-- /{k} -->', s, flags=re.S)
    open(p, 'w').write(s)


if __name__ == '__main__':
    main()
