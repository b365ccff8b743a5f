#!/bin/bash
# check.sh PROPERTY quick|thorough  - or -  check.sh replay FILE  - or -  check.sh setup
# Builds the simulator and the code under test from their current sources in a
# scratch directory of its own, runs the check and removes the directory.
here=$(cd "$(dirname "$0")" && pwd)
work=$here/.work/$$
mkdir -p "$work" || exit 2
trap 'rm -rf "$work"' EXIT
export GOROOT=/opt/veriftools/go1.24.13 GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOENV=off GOWORK=off CGO_ENABLED=0
export PATH=$GOROOT/bin:$PATH HOME=${HOME:-/root} TMPDIR=$work
export VSIM_WORK=$work VSIM_HOME=$here/sim
(cd "$here/sim" && go build -o "$work/vsim" ./cmd/vsim) || exit 2
if [ "$1" = setup ]; then
	exit 0
elif [ "$1" = replay ]; then
	"$work/vsim" replay "$2"
else
	"$work/vsim" check "$1" "$2"
fi
exit $?
