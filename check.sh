#!/bin/bash
# check.sh PROPERTY [quick|thorough] - builds the harness against /repo's
# working tree in a scratch directory and runs the property's check.
set -u
id=$1
tier=${2:-${VERIF_TIER:-quick}}
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off VERIF_DIR=$here
scratch=$(mktemp -d /tmp/pdftverif.XXXXXXXX) || exit 2
export TMPDIR=$scratch
trap 'rm -rf "$scratch"' EXIT
race=
[ "$id" = C19 ] && race=-race
if ! (cd "$here/harness" && go build $race -o "$scratch/harness" .) ; then
	echo "check.sh: the harness does not build against /repo" >&2
	exit 2
fi
"$scratch/harness" check -prop "$id" -tier "$tier"
rc=$?
exit $rc
