#!/bin/bash
# run.sh <property id> [extra arguments]: builds the monitors against /repo's working tree and runs one check.
# Exit 0: held. Exit 1: a VIOLATION line. Anything else is an error of the check itself.
id=${1:?usage: run.sh ID}; shift
root=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOROOT=/opt/veriftools/go1.23.12
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1 GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod
tmp=$(mktemp -d /tmp/verif-build-XXXXXX) || exit 2
trap 'rm -rf "${tmp:?}"' EXIT
cp "$root/harness/go.mod" "$tmp/go.mod" && cp /repo/go.sum "$tmp/go.sum" || exit 2
flags=()
case "$id" in
C19) flags=(-race) ;;
C23) flags=(-asan) ;;
C21) flags=(-cover -covermode=atomic -coverpkg=github.com/LazarenkoA/1c-language-parser/ast,verif/cmd/check) ;;
esac
(cd "$root/harness" && go build -modfile="$tmp/go.mod" "${flags[@]}" -o "$tmp/check" ./cmd/check) || { echo "build failed"; exit 2; }
[ -n "$VERIF_BUILD_ONLY" ] && exit 0
"$tmp/check" -root "$root" -id "$id" "$@"
