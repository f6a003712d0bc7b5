#!/bin/bash
# run.sh ID: decides one property. run.sh --build: builds the analyser.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOWORK=off GOPROXY=off GOTOOLCHAIN=local GOTELEMETRY=off
# the analyser's go command may be newer than the one that reads the repository; both are the same here
build() {
	mkdir -p "$here/bin" && (cd "$here/tool" && GOFLAGS=-mod=vendor go build -o "$here/bin/qv.$$" . && mv "$here/bin/qv.$$" "$here/bin/qv")
}
if [ "$1" = --build ]; then build; exit; fi
[ -x "$here/bin/qv" ] || build >&2 || exit 2
out=$("$here/bin/qv" -property "$1" -repo "${QV_REPO:-/repo}" -verif "$here" 2>&1)
rc=$?
printf '%s\n' "$out" | cut -c1-600
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
	# the analyser itself failed: the property is undecided, which counts as not shown
	mkdir -p "$here/evidence/replay"
	printf '%s\n' "$out" > "$here/evidence/replay/$1.txt"
	echo "VIOLATION property=$1 replay=$here/evidence/replay/$1.txt"
	exit 1
fi
exit $rc
