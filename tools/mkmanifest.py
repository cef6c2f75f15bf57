"""writes MANIFEST.json from properties.jsonl and the lists below"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
TECH = {}
NOTE = {}
exec(open(os.path.join(V, 'tools', 'claims.py')).read())
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
m = dict(version=1, setup_cmd='python3 tools/setup.py',
         checks=[dict(property=p['id'], quick_cmd='python3 tools/check.py %s quick' % p['id'],
                      thorough_cmd='python3 tools/check.py %s thorough' % p['id'],
                      technique=TECH.get(p['id'], TECH['*']), level='model_checking',
                      level_note=NOTE.get(p['id'], NOTE['*']))
                 for p in props if p['id'] not in NA],
         not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())])
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
