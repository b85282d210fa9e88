#!/bin/bash
exec java -XX:+UseParallelGC -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -noGenerateSpecTE -metadir ${TMPDIR:-/tmp}/tlcm.$$ "$@"
