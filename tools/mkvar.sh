#!/bin/bash
# mkvar.sh FILE NAME DIR: applies a variant to a copy of /repo in DIR.
rm -rf "$3"; cp -a /repo "$3"
python3 - "$1" "$2" "$3" <<'P'
import sys
g={}; exec(open(sys.argv[1]).read(), g)
for n,e in [(v[0],v[1]) for v in g['V']]:
    if n==sys.argv[2]:
        for f,o,w in e:
            p=sys.argv[3]+'/'+f; t=open(p).read(); assert o=='' or t.count(o)==1
            open(p,'w').write(t+w if o=='' else t.replace(o,w))
P
