#!/bin/bash
# Builds the analyser from its committed source.
cd "$(dirname "$0")/checker" || exit 2
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
mkdir -p ../.bin
exec go build -o ../.bin/yotcheck .
