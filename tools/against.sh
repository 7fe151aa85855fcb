#!/bin/bash
# bash against.sh PATCH PROP...: quick checks of PROP... on a copy of /repo with the patch ("-": none). Scratch in /tmp.
verif=$(cd "$(dirname "$0")/.." && pwd)
patch=$1; shift
w=$(mktemp -d /tmp/ag.XXXXXX)
cp -a /repo "$w/r"
[ "$patch" = - ] || git -C "$w/r" apply "$patch" || { rm -rf "$w"; exit 2; }
mkdir "$w/v" && cp -r "$verif/harness" "$w/v/"
sed "s#/repo#$w/r#g" "$verif/build.sh" >"$w/v/build.sh"
cp "$verif/check.sh" "$w/v/check.sh"
for p in "$@"; do
	s=$(date +%s)
	bash "$w/v/check.sh" "$p" "${TIER:-quick}" >"$w/out" 2>&1; c=$?
	echo "$(basename "$(dirname "$patch")") $p exit=$c $(($(date +%s) - s))s $(grep -c VIOLATION "$w/out") $(grep -m1 -v '^$' "$w/out" | cut -c1-${W:-160})"
done
rm -rf "$w"
