#!/bin/bash
# seedcheck.sh ID...: confirm planted bugs in a scratch copy: patch applies, builds, tests pass, demo 0 / nonzero.
for id in "$@"; do
S=/verif/seeded/$id
W=$(mktemp -d /tmp/seedXXXXXX)
cp -a /repo/. $W/repo 2>/dev/null || { mkdir -p $W/repo; cp -a /repo/. $W/repo; }
mkdir -p $W/demo; cp $S/demo.sh $W/demo/; for f in $S/*; do case $f in *.diff|*meta.json) ;; *) cp -r $f $W/demo/;; esac; done
cd $W/repo
export CARGO_NET_OFFLINE=true
bash $W/demo/demo.sh >$W/o0 2>&1; a=$?
git apply $S/patch.diff || { echo "$id: patch does not apply"; rm -rf $W; continue; }
CARGO_TARGET_DIR=/tmp/seedtgt cargo test --offline -q -- --include-ignored >$W/t 2>&1; t=$?
bash $W/demo/demo.sh >$W/o1 2>&1; b=$?
echo "$id: demo unchanged=$a tests=$t demo patched=$b"
[ $a -eq 0 ] || tail -5 $W/o0; [ $t -eq 0 ] || tail -15 $W/t; [ $b -ne 0 ] || tail -5 $W/o1
cd /; rm -rf $W
done
