"""claim.py PID note module:prefix... : adds a claimed property to tools/claimed.json (specs/index.py holds the tasks)"""
import json, sys, os
H = os.path.dirname(os.path.abspath(__file__)); p = os.path.join(H, 'claimed.json'); c = json.load(open(p))
c['claimed'][sys.argv[1]] = sys.argv[2] if len(sys.argv) > 2 else ''
c['claimed'] = dict(sorted(c['claimed'].items())); c['na'].pop(sys.argv[1], None)
json.dump(c, open(p, 'w'), indent=1)
