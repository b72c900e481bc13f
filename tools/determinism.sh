#!/bin/bash
# determinism.sh [SEED [COUNT]]: runs the same seeds in two processes with different environments and working
# directories and compares the hashes of all traces and outcomes.
cd "$(dirname "$0")/.." || exit 2
seed=${1:-5}; n=${2:-300}; bad=0
for f in tool toolasan lib libasan; do
	s=$(python3 tools/build.py $f) || exit 2
	case $f in tool*) props="C01 C02 C03 C04 C05 C06 C07 C13";; *) props="C08 C09 C10 C11 C12 C13";; esac
	for p in $props; do
		a=$($s hashes $p $seed 0 $n 2>/dev/null | sha256sum)
		b=$(cd /tmp && env -i UNRELATED=1 PATH=/usr/bin:/bin $s hashes $p $seed 0 $n 2>/dev/null | sha256sum)
		if [ "$a" = "$b" ]; then echo "$f $p: $n runs identical"; else echo "$f $p: DIFFER"; bad=1; fi
	done
done
exit $bad
