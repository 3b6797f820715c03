import json,sys
r=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
miss=[t for t in b['stable'] if t not in r['passed']]
print('ok' if not miss else 'BROKEN '+' '.join(miss))
