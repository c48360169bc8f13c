#!/bin/bash
# Runs the demonstration (demo_test.go) against the tree in the current directory.
d=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}" PATH="/opt/veriftools/go1.27.3/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GO111MODULE=on GOSUMDB=off
export GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
tmp=$(mktemp -d) || exit 2
trap '[ -n "$tmp" ] && rm -rf "$tmp"' EXIT
printf 'go 1.18\n\nuse (\n\t%s\n\t%s/activity/subflow\n)\n' "$PWD" "$PWD" >"$tmp/go.work"
[ -f /opt/vp/go.work.sum ] && cp /opt/vp/go.work.sum "$tmp/go.work.sum"
export GOWORK="$tmp/go.work"
printf '{"Replace":{"%s/zzdemo/lib_test.go":"%s/lib_test.go","%s/zzdemo/demo_test.go":"%s/demo_test.go"}}' "$PWD" "$d" "$PWD" "$d" >"$tmp/o.json"
[ -f "$d/env.sh" ] && . "$d/env.sh"
go test -c -vet=off -o "$tmp/demo" -overlay "$tmp/o.json" ./zzdemo || { echo "build failed"; exit 2; }
cd "$tmp" && ./demo -test.timeout 120s
