#!/bin/bash
# tools/one.sh WORLD PROP SEED|PLANFILE [-v]: execute a single run, scratch directory kept in /tmp/b1
exe=$(cd /verif && python3 build.py) || exit 1
mkdir -p /tmp/b1; cd /tmp/b1; rm -rf /tmp/b1/one; mkdir one
if [ -f "$3" ]; then cp "$3" p.one; else $exe plan $1 $2 $3 > p.one; fi
[ "$4" = -v ] && export SIM_VERBOSE=1
SIM_FULLERR=1 SIM_KEEP=1 $exe exec p.one /tmp/b1/one
