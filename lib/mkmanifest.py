"""Writes MANIFEST.json from the registry and properties.jsonl (run by hand after changing either)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from registry import CHECKS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(f'{V}/properties.jsonl')]
checks = [dict(property=i, quick_cmd=f'./check {i} --tier quick', thorough_cmd=f'./check {i} --tier thorough',
               evidence_file=f'evidence/{i}.json', technique=CHECKS[i]['technique'], level='model_checking',
               level_note=CHECKS[i]['note']) for i in ids if i in CHECKS]
na = [dict(property=i, reason='check not built yet') for i in ids if i not in CHECKS]
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
               notes='TLA+ specification in spec/, checked with TLC; every check builds a scratch copy of /repo, drives it '
                     'and has TLC decide the recorded traces. See DESIGN.md.'),
          open(f'{V}/MANIFEST.json', 'w'), indent=1)
