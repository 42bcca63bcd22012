#!/bin/bash
# run every check (quick), four at a time; prints one line per property
cd /verif; mkdir -p /tmp/reg
P=${@:-$(ls contracts/c[0-9]*.py | sed 's/.*c\([0-9]*\).py/C\1/')}
printf "%s\n" $P | xargs -P 3 -I{} bash -c 's=$(date +%s); VERIF_SEED=1 python3 check.py {} --tier quick > /tmp/reg/{}.log 2>&1; echo "{} exit $? $(( $(date +%s)-s ))s $(grep -h -c "^KNOWN" /tmp/reg/{}.log) known; $(tail -1 /tmp/reg/{}.log | cut -c1-150)"'
