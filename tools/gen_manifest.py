#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from checks import CHECKS
NA = {
}
man = {'version': 1, 'setup_cmd': 'python3 run_check.py --setup', 'hooks': {'guard': 'EKF_CAL_MONITOR',
       'enable': 'harness/CMakeLists.txt compiles the sources of /repo with -DEKF_CAL_MONITOR',
       'source_commits': ['b2008bed7776c46fee92361803cd56aaa040ac6d']},
       'checks': [], 'not_applicable': []}
for l in open(R + '/properties.jsonl'):
    i = json.loads(l)['id']
    if i in CHECKS:
        c = CHECKS[i]
        man['checks'].append({
            'property': i,
            'quick_cmd': 'VERIF_TIER=quick python3 run_check.py ' + i,
            'thorough_cmd': 'VERIF_TIER=thorough python3 run_check.py ' + i,
            'technique': c.get('technique', 'runtime monitor: independent reference model as online oracle over random '
                               'hostile histories of the real code, under ASan+UBSan'),
            'level': 'exploration',
            'level_note': c.get('note', 'Holds on every observed execution; each step is compared with an independently '
                                'written reference within a stated numerical tolerance. Trusts the compiler, Eigen, '
                                'OpenCV and the reference model; says nothing about inputs outside the generators.'),
        })
    else:
        man['not_applicable'].append({'property': i, 'reason': NA.get(i, 'Check still under construction.')})
json.dump(man, open(R + '/MANIFEST.json', 'w'), indent=1)
