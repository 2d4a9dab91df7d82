"""Writes MANIFEST.json from the checks present and properties.jsonl."""
import os, json, sys, subprocess, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
na = json.loads(subprocess.check_output([sys.executable, os.path.join(V, 'tools', 'gen_props.py'), 'na']))
na_ids = {d['property'] for d in na}
checks = []
for p in props:
    if p['id'] in na_ids: continue
    f = [x for x in os.listdir(os.path.join(V, 'checks')) if x.startswith(p['id'].lower())]
    if not f:
        na.append(dict(property=p['id'], reason='no check built yet')); continue
    c = importlib.import_module('checks.' + f[0][:-3]).CHECK
    note = ('Seeded search over %s. No violation in the explored runs is evidence, not proof. Trusts: %s. Real code: %s. Stubbed: %s.' % (
        c.rule.split('; non-trivial')[0].rstrip('.'), '; '.join(c.assumptions) or 'nothing further',
        ', '.join(c.real), ', '.join(c.stub) or 'nothing'))
    checks.append(dict(property=p['id'], quick_cmd='./check ' + p['id'], thorough_cmd='VERIF_TIER=thorough ./check ' + p['id'],
                       technique='deterministic simulation with fault injection (seeded search over schedules and faults, reference-model oracle, minimised replay)',
                       level='exploration', level_note=note))
m = dict(version=1, setup_cmd='./setup', hooks=dict(guard='none', enable='no hooks are needed: every seam is patched from outside at run time', source_commits=[]),
         checks=checks, not_applicable=na,
         notes='Each check is ./check ID; ./check ID --replay FILE replays a violation exactly. VERIF_SEED and VERIF_TIER select the runs.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
