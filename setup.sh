#!/bin/bash
# Builds both monitor binaries once, to warm /verif/build/gocache for the checks.
cd "$(dirname "$0")" || exit 1
mkdir -p build evidence
harness/build.sh build/normal.test && harness/build.sh build/race.test race && rm -f build/normal.test build/race.test
