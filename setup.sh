#!/bin/bash
# Builds the verifier from the committed sources (the checks rebuild it themselves when bin/ is missing or older).
set -e
cd "$(dirname "$0")"
. ./env.sh
mkdir -p bin
cd govc && go build -o ../bin/govc .
