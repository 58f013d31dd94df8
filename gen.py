#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.abspath(__file__))
with open(V + '/properties.jsonl', 'w') as f:
    for i, p in sorted(props.PROPS.items()):
        assert len(p['title']) <= 80, (i, len(p['title']))
        a = dict(files=p['files'], mechanism=p['mech'])
        if p['state']:
            a['state'] = p['state']
        f.write(json.dumps(dict(id=i, title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'], anchors=a)) + '\n')
    for i, p in sorted(getattr(props, 'NA', {}).items()):
        f.write(json.dumps(dict(id=i, **p['p'])) + '\n')
checks = []
for i, p in sorted(props.PROPS.items()):
    if not p['jobs']:
        continue
    checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i, evidence_file='evidence/%s.json' % i,
                       technique='symbolic execution of the compiled C/C++ (LLVM IR) with the Z3 solver' + (' over all schedules within a switch bound' if 'schedules' in p['over'] else '') + ', native replay',
                       level='model_checking', level_note=p['note'] or 'Holds for every value within the bounds: %s. Trusts the engine (validated by native replay on every run), clang and Z3.' % p['bounds']))
m = dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=[dict(property=i, reason=p['reason']) for i, p in sorted(getattr(props, 'NA', {}).items())],
         notes='No hooks in /repo: harnesses are linked with the unmodified sources. See DESIGN.md.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
import jsonschema
s = json.load(open('/root/.vp/MANIFEST.schema.json')); jsonschema.validate(m, s)
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open(V + '/properties.jsonl'):
    jsonschema.validate(json.loads(l), s)
print(len(checks), 'checks')
# ---- the generated parts of DESIGN.md
import re
t = ['%d properties are claimed. "Jobs" are harnesses with their parameters; values after "thorough" replace those of the quick tier.\n' % len(checks)]
for i, p in sorted(props.PROPS.items()):
    t.append('### %s %s\n' % (i, p['title']))
    t.append(p['statement'] + '\n')
    t.append('* Quantified over: %s (%s).' % (p['quant'], ', '.join(p['over'])))
    t.append('* Why tests cannot settle it: %s' % p['why'])
    t.append('* Code: %s.' % '; '.join('%s (%s)' % (m['name'], m['where']) for m in p['mech']))
    t.append('* Bounds: %s.' % p['bounds'])
    if p['assumptions']:
        t.append('* Assumptions: %s.' % '; '.join(p['assumptions']))
    js = {}
    for j in p['jobs']:
        js.setdefault(j['h'], []).append(' '.join('%s=%s' % kv for kv in j['params'].items()) + (' switches=%s' % j['switches'] if 'switches' in j else '') + (' (thorough: %s)' % ' '.join('%s=%s' % kv for kv in j['thorough'].items()) if j.get('thorough') else '') + (' (thorough only)' if j.get('tier') == 'thorough' else ''))
    for h, l in js.items():
        t.append('* Jobs: harness/%s: %s.' % (h, '; '.join(l[:8]) + ('; ... %d in all' % len(l) if len(l) > 8 else '')))
    w = V + '/cost.json'
    if os.path.exists(w):
        c = json.load(open(w)).get(i)
        if c:
            t.append('* Cost of the quick tier on 8 cores: %s.' % c)
    t.append('')
for i, p in sorted(getattr(props, 'NA', {}).items()):
    t += ['### %s %s (not applicable)\n' % (i, p['p']['title']), p['reason'] + '\n']
d = open(V + '/DESIGN.md').read()
sub = lambda d, tag, text: re.sub(r'<!-- %s -->.*<!-- /%s -->' % (tag, tag), lambda m: '<!-- %s -->\n%s\n<!-- /%s -->' % (tag, text, tag), d, flags=re.S)
d = sub(d, 'props', '\n'.join(t))
import glob
s = ['| planted bug | property | needs | breaks | caught by |', '|---|---|---|---|---|']
by = json.load(open(V + '/caught.json')) if os.path.exists(V + '/caught.json') else {}
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f)); n = f.split('/')[-2]
    s.append('| %s | %s | %s | %s | %s |' % (n, m['property'], m['needs'], m['what_it_breaks'], by.get(n, m['property'])))
if len(s) > 2:
    d = sub(d, 'seeds', '\n'.join(s))
open(V + '/DESIGN.md', 'w').write(d)
