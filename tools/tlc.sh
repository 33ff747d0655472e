#!/bin/sh
# tlc.sh MODULE [CFG] [tlc args]: run TLC by hand in /verif/spec
cd "$(dirname "$0")/../spec"
M=$1; shift; C=${1:-$M}; [ $# -gt 0 ] && shift
exec java -XX:+UseParallelGC -Xss64m -Xmx8g -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -metadir /tmp/tlcmeta.$$ -workers 8 -config $C.cfg "$@" $M.tla
