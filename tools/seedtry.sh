#!/bin/bash
# seedtry.sh ID [CHECK]: demo on clean and patched scratch copies, and the check on the patched one
V=$(cd $(dirname $0)/..; pwd); s=$V/seeded/$1; c=${2:-$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")}
w=$(mktemp -d /tmp/st.XXXXXX); (cd ${REPO:-/repo} && git archive HEAD | tar -x -C $w); cp -r $s $w.demo
(cd $w; bash $w.demo/demo.sh >$w.log 2>&1; echo "demo clean: $?"; tail -3 $w.log)
(cd $w; patch -s -p1 < $s/patch.diff || echo PATCH FAILED; bash $w.demo/demo.sh >$w.log 2>&1; echo "demo patched: $?"; tail -3 $w.log)
ATHSA_REPO=$w $V/check.sh $c 2>&1 | cut -c1-220 | tail -6
rm -rf $w $w.demo $w.log
