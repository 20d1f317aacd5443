#!/bin/bash
# development aid: mc.sh MODULE CFG
rm -rf /tmp/tlc; mkdir -p /tmp/tlc && cp /verif/specs/* /tmp/tlc && cd /tmp/tlc && time timeout ${T:-600} java -XX:+UseParallelGC -Xmx8g -Xss64m -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -workers 8 -config $2.cfg $1.tla > /tmp/mc.out 2>&1; grep -v '"CASE' /tmp/mc.out | grep -v '^Semantic proc\|^Parsing' | tail -${N:-20} | cut -c1-900; grep -c '"CASE' /tmp/mc.out
