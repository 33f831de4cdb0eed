"""writes MANIFEST.json from properties.jsonl and the existing checks"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
os.chdir(sys.path[0])
props = [json.loads(l) for l in open('properties.jsonl')]
TECH = 'explicit-state / stateless bounded model checking of the real implementation against an executable reference model'
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists('mc/checks/%s.py' % i.lower()):
        import importlib
        m = importlib.import_module('mc.checks.' + i.lower())
        checks.append(dict(property=i, quick_cmd='bin/check %s --tier quick' % i,
                           thorough_cmd='bin/check %s --tier thorough' % i,
                           technique=getattr(m, 'TECHNIQUE', TECH), level='model_checking',
                           level_note=(getattr(m, 'LEVEL_NOTE', '') or
                                       'Exhaustive within: ' + m.BOUNDS['quick'] + '. Modes: ' + ', '.join(m.MODES) + '.')))
    else:
        na.append(dict(property=i, reason='no check built yet (planned with the same machinery, see DESIGN.md)'))
json.dump(dict(version=1, setup_cmd='python3 -m mc.build pure ext', checks=checks, not_applicable=na),
          open('MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
