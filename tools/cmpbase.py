import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
p=set(o['passed']); m=[x for x in b['stable'] if x not in p]
print("stable",len(b['stable']),"missing",len(m),m[:20])
sys.exit(1 if m else 0)
