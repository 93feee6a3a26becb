#!/usr/bin/env python3
# Regenerates MANIFEST.json from families.py.
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from families import PROPS
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
T_MC = 'stateless model checking of the real code: exhaustive schedule/time enumeration under a controlled scheduler'
T_SEQ = 'bounded exhaustive enumeration of inputs and operation sequences of the real code against a reference model'
checks = []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
                           technique=T_SEQ if p.get('assume') == 'seq' else T_MC, level=p.get('level', 'model_checking'), level_note=p.get('level_note') or p['bounds']))
na = [dict(property=i, reason='check under construction') for i in ids if i not in PROPS]
json.dump(dict(version=1, setup_cmd='python3 -c "import json; json.load(open(\'MANIFEST.json\'))" && g++ --version >/dev/null', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
