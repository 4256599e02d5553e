#!/bin/bash
# thorough run of every check: variants that are not reported
cd /verif
for i in $(seq -w 1 99); do [ -e sa/props/c$i.py ] && echo C$i; done | xargs -P 2 -I{} sh -c 'echo "{}: $(bash tools/mut.sh {} 2>&1 | tail -6 | cut -c1-150)"'
