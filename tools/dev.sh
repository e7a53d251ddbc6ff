#!/bin/bash
# development helper: run one check listing many violations grouped by message
cd "$(dirname "$0")/.."
MC_MAXVIOL=${MV:-600} MC_SHOW=${SHOW:-400} MC_VERBOSE=1 timeout 1800 python3 check.py "$@" > /tmp/dev_$1.out 2>&1
grep -v '^  \[' /tmp/dev_$1.out | tail -${TL:-30}
grep '^  \[' /tmp/dev_$1.out | sed -E 's/^  \[([^#]*)#[0-9]+\] (.*) :: (.*)$/\1 :: \3 @@ \2/' | awk '{k=substr($0,1,70); c[k]++; if(c[k]==1) f[k]=$0} END{for(k in c) print c[k] " x " substr(f[k],1,420)}' | sort -rn | head -${SH:-14}
