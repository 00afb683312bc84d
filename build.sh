#!/bin/bash
# Builds the symbolic execution engine into /verif/bin (offline, vendored).
set -e
cd "$(dirname "$0")/engine"
mkdir -p ../bin
GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=0 go build -o ../bin/eng.$$ .
mv -f ../bin/eng.$$ ../bin/eng
