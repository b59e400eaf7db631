#!/bin/bash
# builds the MIR driver and primes the dependency artefacts; checks do the same by themselves if this was not run
cd "$(dirname "$0")" || exit 1
mkdir -p .build
bash analysis/dump.sh "${VERIF_REPO:-/repo}" "$PWD/.build/setup-dump.json"
