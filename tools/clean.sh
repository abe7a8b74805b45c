#!/bin/bash
# every unit proves on the current tree: a unit that has come to be undecided would leave its checks to the searches
cd "$(dirname "$0")/.."
rc=0
for f in splay geom sweep mono decomp raster bops bset order; do
    o=$(python3 tools/unit.py run contracts/$f.rs 2>&1 | grep "verified\|vacuity:")
    echo "$f: $o" | tr '\n' ' '; echo
    case "$o" in ok\ *) ;; *) rc=1 ;; esac
done
exit $rc
