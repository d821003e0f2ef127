#!/bin/bash
# exit 0 if the property holds in the scenario of demo_test.go, nonzero otherwise
d="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.24.13/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOROOT=/opt/veriftools/go1.24.13 GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOENV=off GOTELEMETRY=off GOFLAGS=-mod=mod
tmp="$(mktemp -d)"
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go","%s/zz_helper_test.go":"%s/helper_test.go"}}' "$repo" "$d" "$repo" "$d" >"$tmp/overlay.json"
timeout 200 go test -overlay "$tmp/overlay.json" -run '^TestDemo$' -count=1 -timeout 120s . 2>&1
rc=$?
rm -rf "$tmp"
[ $rc -eq 0 ]
