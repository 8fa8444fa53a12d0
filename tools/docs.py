#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json from the table below.
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def prop(id, title, statement, over, qtext, why, files, mech, level_note, thorough=True, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=files, mech=mech, level_note=level_note, state=state))

NA = []  # not applicable: (id, title, statement, over, qtext, why, files, mech, reason)

exec(open(os.path.join(here, 'tools', 'proptable.py')).read())

with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P + [n[0] for n in NA]:
        assert len(p['title']) <= 80, p['title']
        a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']])
        if p.get('state'):
            a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in p['state']]
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'], anchors=a),
            ensure_ascii=False) + '\n')

TECH = ("solver-based: symbolic execution of the Go SSA of /repo's current source; path conditions and assertions "
        "are bit-vector formulas decided by rewriting to a canonical form over GF(2)/small truth tables (steps certified by z3) and by z3 5.3/cvc5; "
        "counterexamples replayed on the real build")
m = dict(version=1, setup_cmd='bash build.sh',
    checks=[dict(property=p['id'], quick_cmd='bash check.sh %s quick' % p['id'],
                 thorough_cmd='bash check.sh %s thorough' % p['id'],
                 technique=TECH, level='model_checking', level_note=p['level_note']) for p in P],
    not_applicable=[dict(property=n[0]['id'], reason=n[1]) for n in NA],
    notes='One executor (gosym/) and one Go harness per property (harness/). No hooks in /repo: harnesses enter through build overlays. See DESIGN.md.')
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')

# DESIGN.md from tools/DESIGN.in
import glob
fixed, known = [], []
for l in open(os.path.join(here, 'known-findings.txt')):
    l = l.strip()
    if l.startswith('fixed:'):
        w = l.split()
        fixed.append('* %s %s: %s' % (w[1][9:], w[2], ' '.join(w[3:])))
    elif l.startswith('known:'):
        w = l.split()
        known.append('* %s %s' % (w[1][9:], l.split('::')[1].strip()))
costs = {}
try:
    costs = json.load(open(os.path.join(here, 'tools', 'costs.json')))
except OSError:
    pass
for p in P:  # refreshed from evidence of quick runs when present
    try:
        e = json.load(open(os.path.join(here, 'evidence', p['id'] + '.json')))
    except OSError:
        continue
    if e.get('tier') == 'quick' and not os.environ.get('KEEPCOST'):
        c = e['coverage']
        costs[p['id']] = dict(wall=round(e['wall_s']), bounds=c['bounds'], jobs=sum(c['harnesses'].values()), h=sorted(c['harnesses']), out=c.get('outside_the_bounds', ''))
json.dump(costs, open(os.path.join(here, 'tools', 'costs.json'), 'w'), indent=1, sort_keys=True)
rows = []
for p in P:
    c = costs.get(p['id'], {})
    rows.append('| %s | %s | %s; harness %s | %s. Outside: %s | %s jobs, %s s |' % (p['id'], p['title'], p['level_note'],
        ', '.join(c.get('h', [])), c.get('bounds', ''), c.get('out', ''), c.get('jobs', '?'), c.get('wall', '?')))
seeds = ['| bug | property | what it breaks | needs | caught |', '|---|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(here, 'seeded', '*', 'meta.json'))):
    s = json.load(open(d))
    seeds.append('| %s | %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), s['property'], s['what_it_breaks'], s['needs'], s.get('caught', '?')))
t = open(os.path.join(here, 'tools', 'DESIGN.in')).read()
t = t.replace('PROPTABLE', '\n'.join(rows)).replace('NATABLE', '\n'.join('* %s %s: %s' % (n[0]['id'], n[0]['title'], n[1]) for n in NA) or 'none')
t = t.replace('FIXTABLE', '\n'.join(fixed)).replace('KNOWNTABLE', 'Recorded and not repaired:\n' + '\n'.join(known) if known else '')
t = t.replace('SEEDTABLE', '\n'.join(seeds))
open(os.path.join(here, 'DESIGN.md'), 'w').write(t)
