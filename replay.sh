#!/bin/bash
# bash replay.sh FILE: builds the harness with /repo and runs a replay file. Exit 0: holds; 1: fails again.
here=$(cd "$(dirname "$0")" && pwd)
file=$(realpath "$1") || exit 2
work=$(mktemp -d "${TMPDIR:-/tmp}/vh.XXXXXX") || exit 2
trap 'rm -rf "$work"' EXIT
bin=vh
second=race
grep -q '"prop": *"C08"' "$file" && second=newer
grep -q '"prop": *"C29"' "$file" && second=cover
mkdir "$work/cover"
export GOCOVERDIR=$work/cover
grep -q '"race": *true' "$file" && bin=vhr
bash "$here/build.sh" "$work" $second || exit 2
if [ "$bin" = vhr ]; then export VH_SECOND=1 GORACE="halt_on_error=1 exitcode=66"; fi
grep -qE '"prop": *"C08"' "$file" && export GOGC=20
GODEBUG=invalidptr=1,clobberfree=1 "$work/$bin" replay "$file" && exit 0
exit 1
