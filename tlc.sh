#!/bin/bash
# ./tlc.sh CFG MODULE [workers]: run TLC on one specification
cd "$(dirname "$0")/spec"
exec java -Xmx${HEAP:-12g} -Xss64m -XX:+UseParallelGC -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -workers ${3:-8} -metadir /tmp/tlcmd.$$ -noGenerateSpecTE -config "$1" "$2"
