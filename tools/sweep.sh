#!/bin/bash
# usage: sweep.sh GROUP N scenario... : runs N seeds of each scenario twice plus a trace replay and summarises
cd /verif; g=$1; n=$2; shift 2
B=$(python3 tools/build.py $g) || exit 1
for s in "$@"; do (timeout 800 $B seed $s ${FROM:-1} $n > /tmp/sw.$s.txt; echo "rc $?" >> /tmp/sw.$s.txt) & done; wait
for s in "$@"; do echo "== $s: $(tail -2 /tmp/sw.$s.txt | tr '\n' ' ')"; grep 'DETERM\|REPLAY' /tmp/sw.$s.txt | cut -c1-300 | head -3; grep '^seed' /tmp/sw.$s.txt | grep -v 'DETERM\|REPLAY' | awk '{print $3}' | sort | uniq -c | sort -rn; done
