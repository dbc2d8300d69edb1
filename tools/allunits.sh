#!/bin/bash
# every unit must be proved on the current tree (an undecided unit would silently leave its property to the bounded check)
cd "$(dirname "$0")/.." || exit 2
bad=0
for u in units/*.vrs; do r=$(python3 lib/verus.py -v $u 2>&1); l=$(grep -m1 -E '^[a-z_0-9]+ (proved|failed|undecided)' <<<"$r"); echo "$l" | cut -c1-200; case "$l" in *" proved "*) ;; *) bad=1; echo "$r" | head -40;; esac; done
exit $bad
