#!/bin/bash
# bash run.sh ID [quick|thorough]   build the simulator from /repo and decide a property
# bash run.sh replay FILE           run a replay file again (exit 1: it reproduces)
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d /tmp/boosim.XXXXXX) || exit 2
trap 'rm -rf -- "$scratch"' EXIT
trap 'exit 2' INT TERM
if ! bash "$here/build.sh" "$scratch" >"$scratch/build.log" 2>&1; then
	cat "$scratch/build.log" >&2
	echo "run.sh: the simulator does not build from this tree" >&2
	exit 2
fi
if [ "$1" = replay ]; then
	"$scratch/harness" -mode replay -file "$(realpath "$2")"
	exit $?
fi
grep -s "^KNOWN-FINDING: property=$1 " "$here/known-findings.txt"
"$scratch/harness" -mode drive -check "$1" -tier "${2:-${VERIF_TIER:-quick}}" -seed "${VERIF_SEED:-1}" -verif "$here"
exit $?
