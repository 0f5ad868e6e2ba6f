#!/bin/bash
# tlcrun.sh MODULE CFGTEXT [workers]: one-off TLC run of a specification (development aid)
cd /verif/specs; d=$(mktemp -d /tmp/tlcrun.XXXX); printf "%s" "$2" > $d/c.cfg
timeout 900 java -XX:+UseParallelGC -Xmx6g -Xss64m -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -noGenerateSpecTE -workers ${3:-8} -metadir $d/md -config $d/c.cfg $1.tla > /tmp/tlcrun.out 2>&1
echo "$1: $(grep -E 'No error|violated|Deadlock|Error:|rror' /tmp/tlcrun.out | head -3 | tr '\n' ' ') $(grep 'distinct states found' /tmp/tlcrun.out | tail -1) $(grep '^Finished in' /tmp/tlcrun.out)"
rm -rf "$d"
