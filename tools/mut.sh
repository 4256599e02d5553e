#!/bin/bash
# thorough tier and list of in-memory mutants
cd /verif; VERIF_TIER=thorough timeout 900 python3-vt check.py $1 > /tmp/mut.$1; grep -v '^  variant' /tmp/mut.$1 | cut -c1-300
echo "reported: $(grep -c '=> reported' /tmp/mut.$1)"; grep '^  variant' /tmp/mut.$1 | grep -v '=> reported' | sed 's/  */ /g' | cut -c1-330
