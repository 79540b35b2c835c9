#!/bin/bash
# check.sh PROPERTY: builds the simulator from /repo's current tree and runs one check.
V=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d /tmp/vsim.XXXXXXXX) || exit 3
trap 'rm -rf "$D"' EXIT
if ! "$V/build.sh" "$D" >"$D/build.log" 2>&1; then
	cat "$D/build.log"
	echo "check.sh: the simulator does not build against this tree"
	exit 3
fi
mkdir -p "$D/tmp" "$V/evidence"
TMPDIR="$D/tmp" VERIF_KNOWN="${VERIF_KNOWN:-$V/known-findings.json}" VERIF_EVIDENCE="${VERIF_EVIDENCE:-$V/evidence}" "$D/simbin" check "$@"
exit $?
