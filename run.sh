#!/bin/bash
# run.sh ID: builds the harness against /repo's working tree and runs one check.
# run.sh replay FILE: judges a recorded violation again. run.sh setup: warms the build cache.
export HOME=/root
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOWORK=off GOPROXY=off GONOSUMDB=* GOFLAGS=-mod=mod
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$here
what=$1
[ -n "$what" ] || { echo "usage: run.sh ID | replay FILE | setup"; exit 2; }
id=$what
[ "$what" = replay ] && id=$(basename "$2" | cut -d- -f1)
tmp=$(mktemp -d /tmp/kfverif-build-XXXXXX) || exit 2
child=
cleanup() { [ -n "$child" ] && kill "$child" 2>/dev/null; rm -rf "${tmp:?}"; }
chmod 755 "$tmp"
trap cleanup EXIT
trap 'exit 2' INT TERM
build() { # build the harness with the hooks on; without them if they are gone
	out=$1; shift
	(cd "$here/harness" && { go build -tags verif "$@" -o "$out" ./cmd/kfverif 2>"$tmp/err1" || go build "$@" -o "$out" ./cmd/kfverif 2>"$tmp/err2"; }) && return 0
	echo "BUILD FAILED"; cat "$tmp/err1" "$tmp/err2"; return 1
}
build "$tmp/kfverif" || exit 2
case $id in
C17|setup)
	build "$tmp/kfverif-race" -race || exit 2
	export KF_RACE_BIN=$tmp/kfverif-race;;
esac
case $id in
C19|C20|setup)
	(cd /repo && go build -o "$tmp/kuneiform" .) || { echo "BUILD FAILED"; exit 2; }
	export KF_CLI=$tmp/kuneiform;;
esac
case $id in
C21|setup)
	(cd /repo && GOOS=js GOARCH=wasm go build -o "$tmp/kuneiform.wasm" ./wasm) || { echo "BUILD FAILED"; exit 2; }
	export KF_WASM=$tmp/kuneiform.wasm KF_WASM_EXEC=$(go env GOROOT)/lib/wasm/wasm_exec.js;;
esac
case $what in
setup) echo "built"; exit 0;;
replay) "$tmp/kfverif" replay "$2" & ;;
*) "$tmp/kfverif" check "$what" & ;;
esac
child=$!
wait $child
rc=$?
child=
exit $rc
