#!/usr/bin/env python3
# reg.py ID cases confs [key=value...]: registers a harness in harness/props.json
import json,sys,os
p=os.path.join(os.path.dirname(os.path.abspath(__file__)),'../harness/props.json'); d=json.load(open(p))
e=dict(configs=sys.argv[3].split(','),cases=int(sys.argv[2]))
for kv in sys.argv[4:]:
    k,v=kv.split('=',1); e[k]=json.loads(v) if v[0] in '{["0123456789tf' else v
d[sys.argv[1]]=e; json.dump(d,open(p,'w'),indent=1,sort_keys=True)
