#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one description.
A property is claimed when checks.py has a check for it."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, level, note, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, level=level, note=note, state=state, observe=observe))


exec(open(os.path.join(V, 'tools', 'props.py')).read())


def with_headers(files, repo=os.environ.get('VERIF_REPO', '/repo')):
    """The anchored files, and the header or source of the same name in the same package."""
    r = list(files)
    for f in files:
        pkg, stem = f.split('/')[0], os.path.splitext(os.path.basename(f))[0]
        for d, dd, ff in sorted(os.walk(os.path.join(repo, pkg))):
            for g in sorted(ff):
                if os.path.splitext(g)[0] == stem and os.path.splitext(g)[1] in ('.h', '.hpp', '.cpp') and '/test' not in d:
                    g = os.path.relpath(os.path.join(d, g), repo)
                    if g not in r:
                        r.append(g)
    return r



out = []
man = dict(version=1, setup_cmd='python3 run.py --build-all', checks=[], not_applicable=[])
for p in P:
    a = dict(files=with_headers(p['files']), mechanism=[dict(name=n, where=w) for n, w in p['mech']])
    if p['state']:
        a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in p['state']]
    if p['observe']:
        a['observe_at'] = p['observe']
    a['hook_needed'] = None
    assert len(p['title']) <= 80, p['title']
    out.append(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                    why_tests_cant=p['why'], anchors=a))
    if p['id'] in CHECKS:
        assert CHECKS[p['id']].get('level', 'model_checking') == p['level'], p['id']
        man['checks'].append(dict(property=p['id'], quick_cmd='python3 run.py %s --tier quick' % p['id'],
                                  thorough_cmd='python3 run.py %s --tier thorough' % p['id'],
                                  evidence_file='evidence/%s.json' % p['id'], technique=p['technique'], level=p['level'], level_note=p['note']))
    else:
        man['not_applicable'].append(dict(property=p['id'], reason=p.get('na') or 'no check built yet; not claimed'))
missing = set(CHECKS) - {p['id'] for p in P}
assert not missing, missing
open(os.path.join(V, 'properties.jsonl'), 'w').write(''.join(json.dumps(o) + '\n' for o in out))
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
try:
    import jsonschema
    ps = json.load(open('/root/.vp/PROPERTIES.schema.json')); ms = json.load(open('/root/.vp/MANIFEST.schema.json'))
    for o in out: jsonschema.validate(o, ps)
    jsonschema.validate(man, ms)
except ImportError:
    pass
print('%d properties, %d checks' % (len(out), len(man['checks'])))
