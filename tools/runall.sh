#!/bin/bash
# runall.sh IDS... : runs checks, one line each
cd /verif
for i in "$@"; do s=$(date +%s); bin/check $i > /tmp/ra.$i 2>&1; c=$?; echo "$i exit=$c $(( $(date +%s)-s ))s $(grep -v '^  ' /tmp/ra.$i | grep '^C' | tail -1 | cut -c1-150)"; done
