#!/usr/bin/env python3
import json,sys
r=json.load(open(sys.argv[1]))
print(r['script']); 
n=int(sys.argv[2]) if len(sys.argv)>2 else 25
for i,e in enumerate(r['trace'][:r['rejected_event_index']+1]):
    if i>=r['rejected_event_index']-n: print(i+1,json.dumps(e)[:160])
