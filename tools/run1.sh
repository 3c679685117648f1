#!/bin/bash
# Usage: run1.sh CHECK SECONDS [ONLY] [TIER]: run a check (or one of its scenarios) with a time limit
C=$1; T=$2; ONLY=$3; TIER=${4:-quick}
cd /verif
O=$(mktemp)
setsid timeout -k 5 $T python3 run.py check $C --tier $TIER ${ONLY:+--only "$ONLY"} > $O 2>&1 &
P=$!
wait $P
rc=$?
kill -9 -- -$P 2>/dev/null
cut -c1-1500 $O
rm -f $O
echo "rc=$rc"
