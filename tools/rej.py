"""rej.py Cxx: what the last run rejected, by clause and kind of case"""
import json, sys, collections
d = json.load(open('/verif/evidence/replays/%s.json' % sys.argv[1]))
n = int(sys.argv[2]) if len(sys.argv) > 2 else 0
c = collections.Counter((r['clause'], r['event']['sig'].split()[0] + ' ... ' + r['event']['sig'].split()[-1], r['event'].get('what', '')[:100]) for r in d['rejected_events'])
for k, v in c.most_common(30):
    print(v, k)
for r in d['rejected_events'][:n]:
    print(r['clause'], json.dumps(r['event'])[:int(sys.argv[3]) if len(sys.argv) > 3 else 600])
