#!/bin/bash
# check.sh <property> <quick|thorough> [harness flags]
# Builds the check of one property against /repo's working tree and runs it.
cd "$(dirname "$0")" || exit 2
verif=$PWD
id=$1; tier=$2; shift 2
export VERIF_TIER=$tier VERIF_SEED=${VERIF_SEED:-1}
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off GOTOOLCHAIN=local CGO_ENABLED=1
unset GODEBUG
name=${id,,}
mkdir -p "$verif/build"
race=
[ -e "harness/cmd/$name/RACE" ] && race=-race
if ! (cd harness && go build $race -o "$verif/build/$name.$$" "./cmd/$name"); then
	rm -f "$verif/build/$name.$$"
	echo "cannot build the check of $id against /repo" >&2
	exit 2
fi
"$verif/build/$name.$$" -verif "$verif" "$@"
rc=$?
rm -f "$verif/build/$name.$$"
exit $rc
