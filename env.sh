# offline Go environment shared by setup.sh and check.sh
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=0 GOSUMDB=off GOFLAGS=
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOCACHE=$ROOT/.cache/go-build
mkdir -p "$GOCACHE" "$ROOT/bin" "$ROOT/evidence"
