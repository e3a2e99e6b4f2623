#!/bin/bash
# check.sh PROPERTY: builds the analyser and decides one property on the current /repo.
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
bash ./build.sh || exit 2
exec ./.bin/yotcheck -prop "$1" -repo "${REPO:-/repo}" -known known_findings.txt -evidence evidence
