#!/bin/bash
# builds the symbolic executor; offline
set -e
cd "$(dirname "$0")/gosym"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off
mkdir -p ../bin
go build -o ../bin/gosym .
