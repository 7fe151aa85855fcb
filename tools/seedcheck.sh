#!/bin/bash
# bash seedcheck.sh ID...: does the planted bug build, pass the tests, and does its demo tell it from the unchanged tree?
# Works on a copy of /repo in /tmp; test.sh and build.sh are run with /repo replaced by the copy.
verif=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
	w=$(mktemp -d /tmp/sc.XXXXXX)
	cp -a /repo "$w/r"
	sed "s#/repo#$w/r#g" /opt/vp/test.sh >"$w/test.sh"
	cp -r "$verif/seeded/$id" "$w/d"
	(cd "$w/r" && bash "$w/d/demo.sh" >"$w/clean" 2>&1); c=$?
	if git -C "$w/r" apply "$w/d/patch.diff" 2>"$w/apply"; then
		(. /opt/vp/env.sh; cd "$w/r" && go build ./... >"$w/build" 2>&1); b=$?
		bash "$w/test.sh" "$w/out.json" >/dev/null 2>&1
		t=$(python3 - "$w/out.json" /opt/vp/BASELINE.json <<'P'
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open(sys.argv[2]))
def names(x):
    if isinstance(x,dict):
        for k in ('stable','stable_tests','passed','tests'):
            if k in x: return names(x[k])
        return x
    return x
p=set(map(str,o.get('passed',[]))); want=set(map(str,names(b)))
print('ok' if want<=p else 'MISSING %s'%sorted(want-p)[:5])
P
)
		(cd "$w/r" && bash "$w/d/demo.sh" >"$w/bug" 2>&1); p=$?
		echo "$id: demo clean=$c build=$b tests=$t demo patched=$p: $(tail -1 "$w/bug" | cut -c1-150)"
		[ $c = 0 ] || tail -5 "$w/clean"
	else
		echo "$id: patch does not apply"; cat "$w/apply"
	fi
	rm -rf "$w"
done
