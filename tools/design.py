#!/usr/bin/env python3
"""Rewrites the generated part of DESIGN.md (after its mark) from props.py, notes.py, cost.json and seeds.json."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, 'tools'))
from checks import CHECKS
from notes import NOTES
P = {}
def prop(id, title, statement, over, text, why, files, mech, technique, level, note, state=None, observe=None):
    P[id] = dict(title=title, text=text, technique=technique, note=note, files=files)
exec(open(os.path.join(V, 'tools', 'props.py')).read())
cp = os.path.join(V, 'tools', 'cost.json'); cost = json.load(open(cp)) if os.path.exists(cp) else {}
for f in glob.glob(os.path.join(V, 'evidence', '*.json')):
    e = json.load(open(f)); c = e['coverage']
    if not e.get('violations'):
        cost.setdefault(e['property'], {})[e['tier']] = [int(e['wall_s']), {k: c[k] for k in ('schedules', 'states', 'transitions', 'traces_validated_against_impl', 'input_evaluations', 'evaluations', 'distinct_nontrivial') if isinstance(c.get(k), int) and c[k]}]
json.dump(cost, open(cp, 'w'), indent=0, sort_keys=True)
sp = os.path.join(V, 'tools', 'seeds.json'); seeds = json.load(open(sp)) if os.path.exists(sp) else {}
o = []
num = lambda n: format(n, ',')
for i in sorted(P):
    p = P[i]; orc, dec = NOTES[i]
    o.append('### %s %s\n' % (i, p['title']))
    o.append('* Decided by: %s.' % p['technique'].rstrip('.'))
    o.append('* Enumerated: %s' % p['text'])
    o.append('* Oracle: %s' % orc)
    if dec: o.append('* Decisions: %s' % dec)
    for t in ('quick', 'thorough'):
        if t in cost.get(i, {}):
            w, c = cost[i][t]; o.append('* Cost (%s): %d s on 8 cores; %s.' % (t, w, ', '.join('%s %s' % (num(v), k.replace('_', ' ')) for k, v in c.items())))
    s = sorted(k for k in seeds if seeds[k]['property'] == i)
    if s: o.append('* Planted bugs: ' + '; '.join('%s (%s)' % (k, seeds[k]['result']) for k in s) + '.')
    o.append('')
d = os.path.join(V, 'DESIGN.md'); t = open(d).read(); mark = '<!-- generated by tools/design.py -->\n'
open(d, 'w').write(t.split(mark)[0] + mark + '\n'.join(o))
