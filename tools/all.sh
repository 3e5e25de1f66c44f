#!/bin/bash
# all.sh file time harness... : run harnesses of a file in parallel
f=$1; t=$2; shift 2
hs="$*"; [ -z "$hs" ] && hs=$(grep -oP '^//! harness: *\K\S+' $f)
for h in $hs; do
 o=$(awk -v h="$h" '$0 ~ "^//! harness:"{on=($3==h)} on && /^\/\/! opts:/{sub("//! opts:","");print;exit}' $f)
 (bash /verif/tools/k.sh $f $h $o --time=$t 2>&1 | grep -E "kse:|error" | cut -c1-${W:-220}) &
 while [ $(jobs -r | wc -l) -ge 8 ]; do sleep 0.1; done
done; wait
