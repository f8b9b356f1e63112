"""Rewrites the last section of DESIGN.md (the planted changes and the checks that catch them) from seeded/*/meta.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '## 5. Planted changes\n'
text = open(f'{V}/DESIGN.md').read().split(MARK)[0].rstrip() + '\n\n' + MARK
text += '\nEach lies in `seeded/<id>/` and breaks the named property while the existing tests pass; all are caught by the quick tier of ' \
        'that property\'s check (those a check first missed led to the extensions listed in the git log).\n\n| change | check | breaks | needs |\n|---|---|---|---|\n'
for d in sorted(os.listdir(f'{V}/seeded')):
    m = json.load(open(f'{V}/seeded/{d}/meta.json'))
    text += f"| {d} | {m.get('caught_by', m['property'])} | {m['what_it_breaks']} | {m['needs']} |\n"
open(f'{V}/DESIGN.md', 'w').write(text)
