#!/bin/bash
# tlc.sh MODULE TRACE PROP: trace validation by hand
cd "$(dirname "$0")/../spec" || exit 2
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
export TRACE=$2 PROP=${3:-ALL}
java -Djava.io.tmpdir=$d -XX:+UseParallelGC -XX:ParallelGCThreads=2 -Xss64m -Xmx3g -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -workers 1 -noGenerateSpecTE -metadir $d/m -config $1.cfg $1.tla
