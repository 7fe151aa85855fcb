#!/bin/bash
# Builds the harness once (with and without the race detector) and lists the properties.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d "${TMPDIR:-/tmp}/vh.XXXXXX") || exit 2
trap 'rm -rf "$work"' EXIT
bash "$here/build.sh" "$work" race && "$work/vh" list
