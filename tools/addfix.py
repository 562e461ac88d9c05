"""addfix.py <property> <commit> <what failed>: records a repaired defect"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
d = json.load(open(p))
n = 1 + sum(f['status'] == 'fixed' for f in d['findings'])
d['findings'].append(dict(id='F%02d' % n, property=sys.argv[1], status='fixed', commit=sys.argv[2], what='fixed: property=%s %s %s' % tuple(sys.argv[1:4])))
json.dump(d, open(p, 'w'), indent=1)
