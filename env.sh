# env.sh: the environment of the harness (sourced).
export HOME=${HOME:-/root} LANG=C.UTF-8
export GOROOT=/opt/veriftools/go1.24.13 GOTOOLCHAIN=local GOENV=off GOFLAGS= GOPROXY=off GOWORK=off GOSUMDB=off
export PATH=$GOROOT/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOPATH=${GOPATH:-$HOME/go} GOMODCACHE=${GOMODCACHE:-$HOME/go/pkg/mod} GOCACHE=${GOCACHE:-$HOME/.cache/go-build}
