#!/usr/bin/env python3
"""addcheck.py ID level note [bound] [key=json ...]: add or replace an entry of checks.json"""
import json, sys
p='/verif/checks.json'
c=json.load(open(p))
i=sys.argv[1]
d={"level":sys.argv[2],"harness":["./verifharness/"+i.lower()],"bound":sys.argv[4] if len(sys.argv)>4 else "","note":sys.argv[3]}
for kv in sys.argv[5:]:
    k,v=kv.split('=',1); d[k]=json.loads(v)
c[i]=d
c=dict(sorted(c.items()))
json.dump(c,open(p,'w'),indent=1)
