#!/bin/sh
# tlc.sh [args] : TLC with the community modules and UTF-8 everywhere
exec java ${SV_JAVA:--XX:+UseParallelGC} -Xss64m -Dfile.encoding=UTF-8 -Dstdout.encoding=UTF-8 \
  -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC "$@"
