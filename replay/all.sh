#!/bin/bash
# all.sh BUDGET SEED... : run the bounded harness for all properties
b=$1; shift
for s in $@; do for i in $(seq -w 1 22); do echo C$i $s; done; done | xargs -P 7 -L 1 bash -c 'timeout 600 /opt/venv/bin/python run.py $0 --seed $1 --budget '$b' --noshrink > /tmp/h_$0_$1.json 2>/tmp/h_$0_$1.err; echo $0 seed $1 rc $?  $(python3 -c "
import json,sys
d=json.load(open(\"/tmp/h_$0_$1.json\")); print(d[\"evaluations\"], d[\"wall\"], (d.get(\"failure\") or d.get(\"harness_error\") or \"\")[:400])")'
