"""Writes DESIGN.md from design_parts.py, the checks, properties.jsonl, known_findings.jsonl and seeded/."""
import os, sys, json, glob, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, 'tools'))
import design_parts as D
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
man = json.load(open(V + '/MANIFEST.json'))
claimed = {c['property'] for c in man['checks']}
kf = [json.loads(l) for l in open(V + '/known_findings.jsonl')]
plants = [(os.path.basename(os.path.dirname(f)), json.load(open(f))) for f in sorted(glob.glob(V + '/seeded/*/meta.json'))]
miss = {}
if os.path.exists(V + '/tools/missed.json'): miss = json.load(open(V + '/tools/missed.json'))
o = [D.HEAD]
for p in props:
    i = p['id']
    if i not in claimed: continue
    c = importlib.import_module('checks.' + os.path.basename(glob.glob(V + '/checks/%s_*.py' % i.lower())[0])[:-3]).CHECK
    o.append('### %s - %s\n' % (i, p['title']))
    o.append('* Oracle: ' + D.ORACLE[i])
    o.append('* Generated: %s.' % c.rule.rstrip('.'))
    o.append('* Bounds and cost: %d runs (quick), up to %d or the time budget (thorough); states counted as %s.' % (c.n_quick, c.n_thorough, c.state_measure))
    o.append('* Assumes: ' + ('; '.join(c.assumptions) or 'nothing further') + '.')
    o.append('* Real code: %s. Stub: %s.' % (', '.join(c.real), ', '.join(c.stub) or 'none'))
    mine = [(n, m) for n, m in plants if m['property'] == i]
    if mine:
        o.append('* Planted bugs: ' + '; '.join('`%s` (needs %s) - %s' % (n, m['needs'], 'MISSED: ' + miss[n] if n in miss else 'caught') for n, m in mine) + '.')
    o.append('')
o.append('## Not applicable\n')
for n in man['not_applicable']:
    t = [p['title'] for p in props if p['id'] == n['property']][0]
    o.append('* %s (%s): %s' % (n['property'], t, n['reason']))
o.append('\n## Findings\n\nDefects found by the checks and repaired in /repo ("fix:" commits; each check was confirmed to report the defect again with the fix reverted):\n')
for k in kf:
    if k['status'] == 'fixed': o.append('* %s `%s`: %s' % (k['property'], k['commit'], k['what']))
o.append('\nRecorded, not repaired (printed as KNOWN-FINDING; see known_findings.jsonl for the keys):\n')
for k in kf:
    if k['status'] == 'known': o.append('* %s `%s`: %s' % (k['property'], k['key'], k['what']))
o.append('')
o.append(D.OUTSIDE); o.append(D.FALSE)
open(V + '/DESIGN.md', 'w').write('\n'.join(o))
