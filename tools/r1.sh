#!/bin/bash
# r1.sh MODULE [names]: run jobs, show only what is not proved
cd /verif; P=${P:-8} IPV_V=1 timeout ${T:-900} python3-vt run1.py "$@" > /tmp/o.$1 2>&1
grep -v "{'proved': [0-9]*} outs=[0-9]* [0-9.]*s q=[0-9]* $" /tmp/o.$1 | cut -c1-${W:-400} | head -${N:-60}; echo "ok: $(grep -c "{'proved': [0-9]*} outs=[0-9]* [0-9.]*s q=[0-9]* $" /tmp/o.$1)"
