#!/bin/sh
# run one design model: mc.sh MODULE [CFG]
cd "$(dirname "$0")/../spec" && java -XX:+UseParallelGC -Xss64m -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -workers 8 -metadir /tmp/tlcm.$$ -noGenerateSpecTE -config "${2:-$1.cfg}" $1.tla | grep -v '^"@@CASE' | tail -${N:-25}; rm -rf /tmp/tlcm.$$
