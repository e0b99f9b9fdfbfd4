export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod HOME=${HOME:-/root} GOPATH=${GOPATH:-/root/go} GOCACHE=${GOCACHE:-/root/.cache/go-build}
