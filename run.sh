#!/bin/bash
# run.sh <property>: builds what the check needs from /repo's current tree and runs it.
# VERIF_SEED and VERIF_TIER (quick or thorough) select the run.
set -u
id=${1:?property}
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
export HOME=${HOME:-/root}
export PATH="/opt/veriftools/go1.27.3/bin:/usr/local/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off
export VERIF_ROOT=${VERIF_ROOT:-$here}
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}

bin=$(mktemp -d /tmp/verif-bin-XXXXXX) || exit 2
child=
finish() {
	[ -n "$child" ] && kill "$child" 2>/dev/null
	rm -rf "$bin"
}
trap finish EXIT
trap 'exit 3' TERM INT

# The module is used from a copy of its go.mod, so that no build can change the committed one
cp "$here/harness/go.sum" "$bin/go.sum"
sed "s#=> /repo#=> $repo#" "$here/harness/go.mod" >"$bin/go.mod"
mod="-modfile=$bin/go.mod"

fail() {
	echo "check $id: $1 failed" >&2
	exit 2
}
gobuild() { (cd "$here/harness" && go build $mod "$@"); }

# packages instrumented for this check besides the usual ones: reading log entries byte by byte with a call per byte
# would be too slow for the servers, so only the check of the identifiers has pkg/util
more=
[ "$id" = C31 ] && more=pkg/util

overlay() {
	[ -f "$bin/ov/overlay.json" ] && return
	mkdir -p "$bin/ov"
	gobuild -o "$bin/yieldgen" ./cmd/yieldgen || fail "building the instrumenter"
	"$bin/yieldgen" "$repo" "$bin/ov" "$here/harness/yield" pkg/concurrency pkg/network pkg/db pkg/replication pkg/log pkg/types $more >&2 ||
		fail "instrumentation"
}
need() {
	local what
	for what in "$@"; do
		case $what in
		plain) gobuild -o "$bin/vsrv-plain" ./cmd/vsrv ;;
		yield) overlay && gobuild -overlay "$bin/ov/overlay.json" -tags yield -o "$bin/vsrv-yield" ./cmd/vsrv ;;
		race) overlay && gobuild -race -overlay "$bin/ov/overlay.json" -tags yield -o "$bin/vsrv-race" ./cmd/vsrv ;;
		real) (cd "$repo" && go build -o "$bin/realserver" ./cmd/server) ;;
		client) (cd "$repo" && go build -o "$bin/realclient" ./cmd/client) ;;
		srv) gobuild -o "$bin/check" ./cmd/srvchk ;;
		lib) gobuild -o "$bin/check" ./cmd/libchk ;;
		libyield) overlay && gobuild -overlay "$bin/ov/overlay.json" -tags yield -o "$bin/check" ./cmd/libchk ;;
		librace) overlay && gobuild -race -overlay "$bin/ov/overlay.json" -tags yield -o "$bin/libchk-race" ./cmd/libchk ;;
		esac || fail "building $what"
	done
}

case $id in
C01 | C02 | C27) need plain yield srv ;;
C03 | C04 | C05 | C06 | C07 | C26 | C35) need plain srv ;;
C08) need plain yield srv ;;
C10 | C14) need plain yield real srv ;;
C34) need plain real srv ;;
C11) need plain yield srv ;;
C13) need plain yield srv ;;
C20) need race librace srv ;;
C22) need client srv ;;
C15 | C16 | C17 | C18 | C19 | C24 | C25 | C31) need libyield ;;
C09 | C12 | C21 | C23 | C28 | C29 | C30 | C32 | C33) need lib ;;
setup)
	need plain yield race real client srv
	need lib libyield librace
	exit 0
	;;
*)
	echo "unknown property $id" >&2
	exit 2
	;;
esac

export VERIF_BIN=$bin VERIF_REPO=$repo
"$bin/check" "$id" &
child=$!
wait "$child"
rc=$?
child=
exit $rc
