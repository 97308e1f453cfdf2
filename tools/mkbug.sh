#!/bin/bash
# mkbug.sh <bug id> <check id> [extra helper files]: turns the edits in /tmp/wt
# into seeded/<bug id>/ (demo.py and meta.json must be there), and tries it out.
b=$1; c=$2; shift 2
W=${WT:-/tmp/wt}
d=/verif/seeded/$b
cd $W || exit 2
if ! git diff --quiet; then git diff > $d/patch.diff; else git apply $d/patch.diff || exit 2; fi
for f in pre.py demo.sh "$@"; do [ -f $d/$f ] && [ $f = demo.sh ] || cp /verif/tools/demo/$f $d/; done
(cd /repo && bash $d/demo.sh >/tmp/mk.$b.ok 2>&1); a=$?
(cd $W && bash $d/demo.sh >/tmp/mk.$b.bad 2>&1); e=$?
echo "$b demo: unchanged rc=$a patched rc=$e"; [ $a = 0 ] || tail -5 /tmp/mk.$b.ok; tail -2 /tmp/mk.$b.bad
if [ "$c" != none ]; then
cd /verif; VERIF_REPO=$W timeout 880 ./run_check.sh $c --seed 1 > /tmp/mk.$b.chk 2>&1; echo "check $c rc=$?"; grep -m2 VIOLATION /tmp/mk.$b.chk
fi
cd $W && git checkout -q -- .
