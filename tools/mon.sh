#!/bin/bash
# mon.sh FILE.cpp : build and run one monitor against /repo's current tree (development aid)
cd /verif; python3-vt - "$@" <<'P'
import sys; sys.path[:0]=['/verif/ipv']
import native,os
e=native.build(sys.argv[1]); s,t=native.run(e,int(os.environ.get('VERIF_SEED','1')),os.environ.get('VERIF_TIER','quick'),timeout=800)
os.unlink(e); print(s); print(t[-6000:])
P
