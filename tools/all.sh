#!/bin/bash
# every check on the unchanged tree; anything but "all discharged" is printed
cd /verif
for i in $(seq -w 1 99); do [ -e sa/props/c$i.py ] && echo C$i; done | xargs -P ${J:-8} -I{} sh -c 'python3-vt check.py {} 2>&1 | grep -v KNOWN | cut -c1-250 | head -3' | grep -v "0 undetermined" ; echo done
