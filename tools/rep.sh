#!/bin/bash
# dev: rep.sh file old new (exactly one occurrence)
python3 - "$@" <<'P'
import sys
p,a,b=sys.argv[1:4];s=open(p).read();assert s.count(a)==1,(s.count(a));open(p,'w').write(s.replace(a,b))
P
