#!/usr/bin/env python3
# Generates /verif/properties.jsonl and /verif/MANIFEST.json
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, quant, why, files, mech, over=('inputs',), observe=None):
    assert len(title) <= 80, title
    a = dict(files=['xo/' + f for f in files], mechanism=[dict(name=n, where='xo/' + w) for n, w in mech])
    if observe: a['observe_at'] = observe
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=quant), why_tests_cant=why, anchors=a))
exec(open(os.path.join(V, 'tools', 'props_list.py')).read())

NA = []
exec(open(os.path.join(V, 'tools', 'na_list.py')).read())

have = {os.path.basename(f)[:-4] for f in glob.glob(V + '/harness/[A-Z]*.cpp')}
checks = []
for q in P:
    if q['id'] in [n['property'] for n in NA]: continue
    assert q['id'] in have, q['id']
    real = any(l.startswith('//@') and ' real' in l for l in open(V + '/harness/%s.cpp' % q['id']))
    checks.append(dict(property=q['id'], quick_cmd='python3 run.py check %s --tier quick' % q['id'], thorough_cmd='python3 run.py check %s --tier thorough' % q['id'],
        technique='bounded symbolic execution of the LLVM IR of the real code, assertions decided by Z3' + (' (real arithmetic for the entries marked real)' if real else ''),
        level='model_checking',
        level_note='Every input within the bounds listed in harness/%s.cpp (string lengths, element counts, operation counts; written per entry) is decided by the solver; counterexamples and witnesses are replayed on a native AddressSanitizer build of /repo.%s Trusts the executor in engine/, the stand-in libc/iostream runtime in shim/, clang -O1 lowering and Z3.' % (q['id'], ' Floating point values are treated as exact reals in the entries marked "real": rounding is outside.' if real else '')))
missing = have - {q['id'] for q in P}
if missing: print('no property text for', sorted(missing))
with open(V + '/properties.jsonl', 'w') as f:
    for q in P: f.write(json.dumps(q) + '\n')
man = dict(version=1, setup_cmd='python3 run.py setup', checks=checks, not_applicable=NA,
    notes='No hooks in /repo: the checks compile the unchanged sources to LLVM IR. One harness file per property in harness/, driver run.py, symbolic executor in engine/. Bounds and evidence: see DESIGN.md.')
json.dump(man, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(P), 'properties,', len(checks), 'checks,', len(NA), 'not applicable')

# ---- generated parts of DESIGN.md
import re, sys
sys.path.insert(0, V + '/tools')
from fixed import FIXED
def put(t, mark, body): return re.sub(r'<!-- %s -->.*?<!-- /%s -->' % (mark, mark), lambda m: '<!-- %s -->\n%s\n<!-- /%s -->' % (mark, body, mark), t, flags=re.S)
rows = []
for q in P:
    if q['id'] in [n['property'] for n in NA]: continue
    ents = [l[3:].strip() for l in open(V + '/harness/%s.cpp' % q['id']) if l.startswith('//@')]
    rows.append('### %s %s\n\n%s\n\nOracle: the definition in this statement, written independently in `harness/%s.cpp` (reference implementations over plain strings, arrays and integers). Quantified over: %s. Beyond tests: %s\n\n%s\n' % (
        q['id'], q['title'], q['statement'], q['id'], q['quantifier']['text'], q['why_tests_cant'], '\n'.join('- `%s`' % e for e in ents)))
t = open(V + '/DESIGN.md').read()
t = put(t, 'table', '\n'.join(rows))
t = put(t, 'fixed', '\n'.join('- %s (%s): %s' % (a, c, m) for a, c, m in (l.split(' ', 2) for l in FIXED.splitlines())))
seeds = []
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d)); seeds.append('| %s | %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], m['what_it_breaks'], m['needs'], m.get('caught', 'yes')))
t = put(t, 'seeded', '| id | property | breaks | needs | reported |\n|---|---|---|---|---|\n' + '\n'.join(seeds))
t = put(t, 'na', '\n'.join('- %s: %s' % (n['property'], n['reason']) for n in NA) or '(none so far)')
open(V + '/DESIGN.md', 'w').write(t)
kf = json.load(open(V + '/known_findings.json'))
kf['fixed'] = ['fixed: property=%s %s %s' % tuple(l.split(' ', 2)) for l in FIXED.splitlines()]
json.dump(kf, open(V + '/known_findings.json', 'w'), indent=1)
