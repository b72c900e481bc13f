#!/bin/bash
# survey.sh FLAVOR PROP SEED COUNT: classes of violations over COUNT runs, with one index each.
S=$(python3 "$(dirname "$0")/build.py" $1) || exit 2
N=$(( $4 / 8 ))
for i in 0 1 2 3 4 5 6 7; do $S hashes $2 $3 $((i*N)) $N > /tmp/survey.$$.$i & done; wait
cat /tmp/survey.$$.* | awk '$4!=0{c[$4" "$5]++; if(!(($4" "$5) in f)||$1<f[$4" "$5])f[$4" "$5]=$1} {n++} END{print n" runs"; for(k in c)print c[k], k, "first", f[k]}' | sort -rn
rm -f /tmp/survey.$$.*
