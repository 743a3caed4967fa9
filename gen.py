#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and specs.py."""
import json, os
from props import PROPS
from specs import SPECS
V = os.path.dirname(os.path.abspath(__file__))
checks, na = [], []
with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['qtext']),
                                why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], hook_needed=None))) + '\n')
        s = SPECS.get(p['id'])
        if s and not s.get('disabled'):
            assumptions = '; '.join(s.get('assumptions', []))
            checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s --tier quick' % p['id'], thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
                               technique='bounded symbolic execution of the compiled LLVM IR of the real sources, path conditions and assertions decided by an SMT solver (Z3)',
                               level='model_checking',
                               level_note=('Exhaustive within bounds: ' + s['bounds'] + '. ' + (assumptions + '. ' if assumptions else '') +
                                           'Trusts clang, the engine, Z3 and the small C/C++ runtime models in rt/; sampled paths are re-run natively against g++ builds.')))
        else:
            na.append(dict(property=p['id'], reason=p['na'] or 'No check built yet for this property.'))
json.dump(dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=na,
               notes='All checks share one symbolic-execution engine (engine/), see DESIGN.md. Genuine findings and repairs: known_findings.txt.'), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')

# DESIGN.md
import glob, subprocess
from design.methods import M
o = [open(V + '/design/head.md').read(), '## 2. Properties with a check\n']
for p in PROPS:
    s = SPECS.get(p['id'])
    if not s: continue
    o.append('### %s %s\n' % (p['id'], p['title']))
    o.append('*Method and oracle.* ' + (M.get(p['id']) or '') + '\n')
    o.append('*Code executed.* ' + ', '.join(x.replace('src/maidsafe/common/', '') for x in s['sources']) + (' and the headers they use' if s['sources'] else 'header-only code') + '; harness ' + (s.get('harness') or ', '.join(x['harness'] for x in s['parts'])) +
             ('; entries ' + ', '.join(e['name'] for e in s['entries'])) + '.\n')
    o.append('*Bounds (quick).* ' + s['bounds'] + '.' + (' *Thorough.* ' + s['bounds_thorough'] + '.' if s.get('bounds_thorough') else '') +
             (' *Assumes* ' + '; '.join(s['assumptions']) + '.' if s.get('assumptions') else '') + ' Anything larger is outside the claim.\n')
    o.append('*Why tests cannot settle it.* ' + p['why'] + '\n')
o.append('## 3. Properties without a check\n')
for p in PROPS:
    if p['id'] not in SPECS:
        o.append('* %s %s: %s' % (p['id'], p['title'], p['na'] or 'no check built.'))
o.append('\n## 4. Genuine defects found\n\nRepaired (a `fix:` commit in /repo each, checks report them again if they return) and known:\n')
for l in open(V + '/known_findings.txt'):
    if l.strip(): o.append('* ' + l.strip())
o.append(open(V + '/design/tail.md').read())
o.append('| seeded bug | caught by | what it breaks | what it needs |\n|---|---|---|---|')
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f)); c = lambda t: str(t).replace('|', '/').replace('\n', ' ')
    o.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), c(m.get('caught_by', m['property'])), c(m.get('what_it_breaks', '')), c(m.get('needs', ''))))
open(V + '/DESIGN.md', 'w').write('\n'.join(o) + '\n')
