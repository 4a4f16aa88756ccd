#!/bin/bash
# Builds the symbolic executor from the committed sources, offline.
set -e
cd "$(dirname "$0")/gosym"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off GOFLAGS=
mkdir -p ../bin
go build -mod=vendor -o ../bin/gosym.new .
mv ../bin/gosym.new ../bin/gosym
