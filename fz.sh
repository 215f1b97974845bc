#!/bin/bash
# fz.sh variant harness prop seeds cases maxsec size  -- dev helper
v=$1; h=$2; p=$3; seeds=$4; cases=$5; ms=$6; sz=${7:-1}
mkdir -p /tmp/w
rm -f /tmp/w/$h.$p.*.fail
for s in $seeds; do /verif/build/$v/bin/$h run $p --seed $s --cases $cases --maxsec $ms --shrink 40 --size $sz --out /tmp/w/$h.$p.$s >/dev/null 2>&1 & done; wait
n=0
for s in $seeds; do f=/tmp/w/$h.$p.$s.fail; if [ -f $f ]; then echo "== FAIL seed $s"; n=$((n+1)); if [ $n -le 2 ]; then grep '# message' $f | cut -c1-300; grep -A6 'stderr.*ERROR\|stderr.*runtime error' $f | head -8 | cut -c1-170;  grep -m1 -A${LINES_:-12} 'case:' $f | cut -c1-200; fi; else python3 -c "
import json,sys; d=json.load(open('/tmp/w/$h.$p.$s.stats')); print('ok seed $s', d['total'], d['nontrivial'], d['discarded'])"; fi; done
