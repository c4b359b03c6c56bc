# Build environment: offline, no toolchain download.
if [ -d /opt/veriftools/go1.27.3/bin ]; then PATH=/opt/veriftools/go1.27.3/bin:$PATH; fi
export PATH GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=1 GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod
