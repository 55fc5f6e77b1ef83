#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run after editing."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, note, na=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, na=na))
exec(open(V + '/tools/proplist.py').read())
with open(V + '/properties.jsonl', 'w') as f:
    for q in P:
        f.write(json.dumps({'id': q['id'], 'title': q['title'], 'statement': q['statement'], 'quantifier': {'over': q['over'], 'text': q['text']}, 'why_tests_cant': q['why'], 'anchors': {'files': q['files'], 'mechanism': [{'name': n, 'where': w} for n, w in q['mech']], 'hook_needed': None}}) + '\n')
T = 'solver-based checking of the real code: symbolic execution of the LLVM IR compiled from /repo on every run; z3 decides every path and assertion over all inputs within the bounds'
m = {'version': 1, 'setup_cmd': 'make -s -C engine', 'checks': [{'property': q['id'], 'quick_cmd': 'python3 run.py %s quick' % q['id'], 'thorough_cmd': 'python3 run.py %s thorough' % q['id'], 'technique': T + q.get('tech', ''), 'level': 'model_checking', 'level_note': q['note']} for q in P if not q['na']], 'not_applicable': [{'property': q['id'], 'reason': q['na']} for q in P if q['na']]}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
# DESIGN.md = tools/design_head.md with the tables filled in
import re, glob
tab = '## Properties\n'
for q in P:
    tab += '\n### %s %s\n' % (q['id'], q['title'])
    if q['na']: tab += 'Not applicable: %s\n' % q['na']; continue
    tab += '* Specified: %s\n* Over: %s\n* Bounds and assumptions: %s\n* Beyond the tests: %s\n' % (q['statement'], q['text'], q['note'], q['why'])
    for h in sorted(glob.glob(V + '/harness/*.cpp')):
        t = open(h).read()
        if re.search(r'^//@ property.*\b%s\b' % q['id'], t, re.M): tab += '* Harness `harness/%s`, cases: %s\n' % (os.path.basename(h), ', '.join(re.findall(r'^VP_CASE\((\w+)\)', t, re.M))); tab += ''.join('* Oracle/bounds note: %s\n' % b for b in re.findall(r'^//@ (?:bounds|assume) +(.*)$', t, re.M))
st = '| change | property | needs | caught by |\n|---|---|---|---|\n'
try: caught = json.load(open(V + '/tools/caught.json'))
except Exception: caught = {}
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(d)); j = json.load(open(d)); st += '| %s | %s | %s | %s |\n' % (i, j['property'], j['needs'], caught.get(i, '?'))
open(V + '/DESIGN.md', 'w').write(open(V + '/tools/design_head.md').read().replace('PROPERTY_TABLE', tab).replace('SEED_TABLE', st).replace('FIX_LIST', ''.join('* ' + x[7:] + '\n' for x in json.load(open(V + '/known_findings.json'))['fixed'])))
