#!/bin/bash
# mut.sh contracts-module keysub file 'python replace old' 'new' : verify a mutated copy
m=$1; k=$2; f=$3; rm -rf /tmp/mutr; cp -a /repo /tmp/mutr
python3 - "$f" "$4" "$5" <<'P'
import sys
p='/tmp/mutr/'+sys.argv[1]; s=open(p).read(); assert sys.argv[2] in s, 'not found'
open(p,'w').write(s.replace(sys.argv[2],sys.argv[3],1))
P
VERIF_REPO=/tmp/mutr PYTHONHASHSEED=0 VERIF_RLIMIT=1000000 python3-vt tools/t.py $m $k
rm -rf /tmp/mutr
