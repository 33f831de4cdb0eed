"""python3 tools/fixed.py CXX 'subject of the commit' 'what failed'  -- records a repaired defect"""
import json, subprocess, sys
p = '/verif/known_findings.json'
d = json.load(open(p))
h = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h', '--grep', sys.argv[2], '-1'], text=True).strip()
assert h
d['fixed'].append('fixed: property=%s %s %s' % (sys.argv[1], h, sys.argv[3]))
open(p, 'w').write(json.dumps(d, indent=1) + '\n')
