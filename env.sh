# Sourced by the scripts of /verif: the toolchain and an offline Go environment.
export HOME="${HOME:-/root}"
export PATH="/opt/veriftools/go1.27.3/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off
export GOFLAGS=-mod=mod
export GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
export GOSUMDB=off GONOSUMCHECK=1 GOFLAGS="-mod=mod"
