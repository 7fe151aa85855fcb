#!/bin/bash
# bash check.sh PROPERTY quick|thorough [more flags of 'vh check']
# Exit 0: held; 1: VIOLATION line printed; 2: the check itself could not run.
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-quick}
shift 2
seed=${VERIF_SEED:-1}
work=$(mktemp -d "${TMPDIR:-/tmp}/vh.XXXXXX") || exit 2
trap 'rm -rf "$work"' EXIT
race=
case $prop in C09 | C10 | C11 | C14 | C17 | C22 | C24) race=race ;; C08) race=newer ;; C29) race=cover ;; esac
mkdir "$work/cover"
export GOCOVERDIR=$work/cover
if ! bash "$here/build.sh" "$work" $race >"$work/build.log" 2>&1; then
	cat "$work/build.log" >&2
	echo "the harness does not build with /repo" >&2
	exit 2
fi
"$work/vh" check -prop "$prop" -tier "$tier" -seed "$seed" -race "$work/vhr" -verif "$here" -work "$work" "$@"
