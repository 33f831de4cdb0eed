"""rewrites the generated sections of DESIGN.md from the checks, known_findings.json and seeded/"""
import glob, importlib, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
os.chdir(sys.path[0])
MARK = '<!-- generated by tools/gen_design.py from here -->\n'
head = open('DESIGN.md').read().split(MARK)[0]
out = ['\n## What the checks cover\n\nBounds, modes and assumptions as the checks declare them (the evidence files give the counts).\n']
for l in open('properties.jsonl'):
    p = json.loads(l)
    m = importlib.import_module('mc.checks.' + p['id'].lower())
    out.append('\n### %s %s\n\n* modes: %s\n* quick: %s\n* thorough: %s\n' % (
        p['id'], p['title'], ', '.join(m.MODES), m.BOUNDS['quick'], m.BOUNDS['thorough']))
    for a in getattr(m, 'ASSUMPTIONS', []):
        out.append('* assumes: %s\n' % a)
k = json.load(open('known_findings.json'))
out.append('\n## Findings\n\nOpen findings: %s. Defects found by the checks and repaired in /repo:\n\n' % (len(k['findings']) or 'none'))
for f in k['findings']:
    out.append('* %s\n' % json.dumps(f))
for f in k['fixed']:
    out.append('* %s\n' % f)
out.append('\n## Planted bugs\n\nEach was confirmed with `tools/seed.sh ID` (builds, passes the tests, demo fails only with it).\n\n| bug | property | caught by | what it breaks | needs |\n|---|---|---|---|---|\n')
for d in sorted(glob.glob('seeded/*/meta.json')):
    j = json.load(open(d))
    out.append('| %s | %s | %s | %s | %s |\n' % (os.path.basename(os.path.dirname(d)), j['property'], j.get('caught_by', j['property']), j['what_it_breaks'].replace('|', '/'), j['needs'].replace('|', '/')))
open('DESIGN.md', 'w').write(head + MARK + ''.join(out))
