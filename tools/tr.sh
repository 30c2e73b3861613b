#!/bin/bash
# tr.sh MODULE PROP TRACE: judge one recorded history by hand
D=$(mktemp -d); printf 'SPECIFICATION Spec\nINVARIANT NoBad\nVIEW View\nALIAS Short\nCHECK_DEADLOCK FALSE\nCONSTANT Prop = "%s"\n' $2 > $D/$1.cfg
TRACE=$3 timeout ${T:-300} java -XX:TieredStopAtLevel=1 -XX:+UseSerialGC -Xmx3g -Xss64m -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar -DTLA-Library=/verif/spec tlc2.TLC -noGenerateSpecTE -workers 1 -metadir $D/m -config $D/$1.cfg /verif/spec/$1.tla > $D/out 2>&1
grep -E "^Error|is violated|states generated|Finished in|l = |bad = |line [0-9]+, col|Evaluating|attempted" $D/out | grep -v Warning | tail -${N:-14}; rm -rf $D
