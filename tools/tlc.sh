#!/bin/bash
# tlc.sh module cfg [tlc args]; run in /verif/spec, scratch states under /tmp
M=$1; C=$2; shift 2
[ -f /verif/build/classes/Rat.class ] || { mkdir -p /verif/build/classes; javac -nowarn -cp /opt/veriftools/tla/tla2tools.jar -d /verif/build/classes /verif/java/Rat.java || exit 2; }
D=$(mktemp -d /tmp/tlcXXXXXX)
cd /verif/spec
java -XX:+UseParallelGC ${TLC_JAVA_OPTS:--Xmx8g} -cp /verif/build/classes:/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar -DTLA-Library=/verif/spec tlc2.TLC -metadir $D -noGenerateSpecTE -config $C "$@" $M
rc=$?; rm -rf "$D"; exit $rc
