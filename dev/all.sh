#!/bin/bash
# run all checks on /repo, 5 at a time; print only the summary and problems
cd /verif
ls checker/rules/c??.py | sed 's/.*c\(..\).py/\1/' | xargs -P ${P:-6} -I{} bash -c 's=$(date +%s); VERIF_JOBS=${J:-2} timeout 900 python3 check.py C{} ${TIER:-quick} > /tmp/all_{}.log 2>&1; echo "C{} rc=$? $(( $(date +%s)-s ))s $(grep -m1 obligations /tmp/all_{}.log | cut -c1-120)"; grep -m3 "VIOLATION\|Error\|ANALYSIS" /tmp/all_{}.log | cut -c1-250' | sort
