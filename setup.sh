#!/bin/sh
# Builds the checker from the committed files, offline.
set -e
cd "$(dirname "$0")/checker"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off
mkdir -p ../bin
go build -o ../bin/kmcheck .
