# Sourced by run.sh, build.sh and replay.sh.
[ -x /opt/veriftools/go1.27.3/bin/go ] && PATH=/opt/veriftools/go1.27.3/bin:$PATH
export PATH HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS="-mod=mod -buildvcs=false"
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod}
export GOCACHE=$here/build/gocache
unset GOOS GOARCH GODEBUG GOEXPERIMENT GOGC GOMEMLIMIT GOMAXPROCS GOTRACEBACK
