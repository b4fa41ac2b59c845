#!/bin/bash
# run one check verbosely and summarise per harness run
VT_V=1 timeout ${T:-900} python3 check.py $1 ${2:-quick} > /tmp/o.$1 2>&1
awk '/wall/{match($0,/wall [0-9]+/); w=substr($0,RSTART+5,RLENGTH-5); k=$3" "$4; if($2~/h_c/){k=$2" "$3}; n[k]++; s[k]+=w; if(w>m[k])m[k]=w; match($0,/[0-9]+ paths/); p[k]+=substr($0,RSTART,RLENGTH-6)} END{for(k in n)print k, n[k]" shards total "s[k]" max "m[k]" paths "p[k]}' /tmp/o.$1 | sort
grep -v "wall" /tmp/o.$1 | cut -c1-${W:-400} | tail -${N:-60}
grep -E "incomplete \{[^}]|viol [1-9]" /tmp/o.$1 | cut -c1-300 | head
