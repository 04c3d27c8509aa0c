#!/bin/bash
# run.sh variant [props]: all checks against a variant; prints those not quiet and slow ones
v=$1; shift
cd /verif
for c in ${@:-$(seq -f "C%02g" 1 32)}; do
 s=$(date +%s); LPA_REPO=/tmp/ref/$v timeout 900 python3 check.py $c quick >/tmp/ref/out.$v.$c 2>&1; r=$?
 e=$(( $(date +%s)-s ))
 [ $r != 0 ] && { echo "$v $c rc=$r ${e}s"; grep VIOL /tmp/ref/out.$v.$c | head -2; tail -2 /tmp/ref/out.$v.$c | cut -c1-300; }
 [ $e -gt 150 ] && echo "$v $c slow ${e}s"
done; echo $v done
