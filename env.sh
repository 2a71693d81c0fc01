# The offline Go environment of the checks (as /opt/vp/env.sh, without depending on it).
export HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.24.13/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GO111MODULE=on GOSUMDB=off GOTELEMETRY=off
export GOPATH="$HOME/go" GOMODCACHE="$HOME/go/pkg/mod" GOCACHE="${VERIF_GOCACHE:-$HOME/.cache/go-build}"
unset GOROOT GOFLAGS GOOS GOARCH GODEBUG
