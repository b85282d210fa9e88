#!/bin/bash
# Compiles the drivers once; every check builds again what has changed.
cd "$(dirname "$0")/harness" && . ./env.sh && cargo build --offline
