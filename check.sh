#!/bin/bash
# check.sh <property> [quick|thorough]: decide one property on /repo's source.
# check.sh -build: only build the analyzer.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
build() {
	# the analyzer is rebuilt only when its sources changed
	local sum
	sum="$(cd "$here/analyzer" && cat ./*.go go.mod | sha256sum | cut -d' ' -f1)"
	if [ -x "$here/bin/wsvet" ] && [ "$(cat "$here/bin/sum" 2>/dev/null)" = "$sum" ]; then
		return 0
	fi
	mkdir -p "$here/bin"
	(
		cd "$here/analyzer" || exit 1
		unset GOROOT GOWORK
		export GOFLAGS=-mod=vendor GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOTELEMETRY=off GOENV=off
		go=/usr/local/bin/go
		[ -x "$go" ] || go=go
		"$go" build -o "$here/bin/wsvet.$$" . && mv -f "$here/bin/wsvet.$$" "$here/bin/wsvet"
	) || return 1
	echo "$sum" >"$here/bin/sum"
}
if ! build >&2; then
	echo "the analyzer could not be built" >&2
	exit 3
fi
[ "${1:-}" = "-build" ] && exit 0
exec "$here/bin/wsvet" -check "$1" -tier "${2:-${VERIF_TIER:-quick}}" -repo /repo -verif "$here"
