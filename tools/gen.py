#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the descriptions in
tools/props/*.py, so that the two stay in step."""
import json, os, glob, importlib.util
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
props = []
for f in sorted(glob.glob(os.path.join(HERE, 'props', '*.py'))):
    spec = importlib.util.spec_from_file_location('p', f); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    props += m.PROPS
props.sort(key=lambda p: p['id'])
with open(os.path.join(V, 'properties.jsonl'), 'w') as o:
    for p in props:
        r = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'],
                 anchors=dict(files=p['files'], state=[dict(name=a, meaning=b, where=c) for a, b, c in p.get('state', [])],
                              mechanism=[dict(name=a, where=b) for a, b in p['mech']], observe_at=p.get('observe', []), hook_needed=None))
        assert len(p['title']) <= 80, p['title']
        for x in p['files']: assert os.path.exists(os.path.join('/repo', x)), x
        o.write(json.dumps(r) + '\n')
checks = [p for p in props if 'na' not in p]
man = dict(version=1, setup_cmd='./setup.sh',
           checks=[dict(property=p['id'], quick_cmd='./check %s --tier quick' % p['id'], thorough_cmd='./check %s --tier thorough' % p['id'],
                        evidence_file='evidence/%s.json' % p['id'], technique=p['technique'], level='other', level_note=p['note']) for p in checks],
           not_applicable=[dict(property=p['id'], reason=p['na']) for p in props if 'na' in p],
           notes='One driver (./check ID) decides each property from the sources under /repo; helper tools are built on demand into /verif/build.')
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
for p in checks: assert os.path.exists(os.path.join(V, 'checks', p['id'] + '.py')), p['id']
d = open(os.path.join(HERE, 'design.in.md')).read()
known = json.load(open(os.path.join(V, 'known-findings.json')))['findings']
fixed = ['* **%s** `%s`: %s' % (f['property'], f['commit'], f['what'].split(f['commit'], 1)[-1].strip()) for f in known if f['status'] == 'fixed']
seeds = []
for m in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    j = json.load(open(m)); seeds.append((j['property'], '* **%s** `%s`: %s (needs: %s)' % (j['property'], os.path.basename(os.path.dirname(m)), j['what_it_breaks'], j['needs'])))
na = ['* **%s** %s: %s' % (p['id'], p['title'], p['na']) for p in props if 'na' in p] or ['None.']
for k, v in (('FIXED', fixed), ('SEEDS', [x[1] for x in sorted(seeds)]), ('NA', na)): d = d.replace('@@%s@@' % k, '\n'.join(v))
open(os.path.join(V, 'DESIGN.md'), 'w').write(d.replace('@@EXTRA@@\n\n', ''))
print(len(props), 'properties,', len(checks), 'checks')
