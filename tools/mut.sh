#!/bin/bash
# mut.sh FILE SED-EXPR CHECK...   run checks on a mutated scratch copy of the sources
f=$1; e=$2; shift 2
d=$(mktemp -d /tmp/mut.XXXXXX); mkdir -p $d/src
cp -r ${REF:-/repo}/src $d/ ; sed -i "$e" $d/src/$f
diff -q ${REF:-/repo}/src/$f $d/src/$f >/dev/null && echo "NO CHANGE: $e"
diff ${REF:-/repo}/src/$f $d/src/$f | grep '^[<>]' | head -4
for c in "$@"; do ATHSA_REPO=$d $(dirname $0)/../check.sh $c 2>&1 | grep -v "^    " | tail -${TAIL:-3} | cut -c1-${W:-200}; done
rm -rf "$d"
