#!/bin/bash
# check.sh ID [quick|thorough] [driver flags...]
# Builds the harness against the current working tree of /repo and runs one property's check.
# check.sh setup: builds every harness binary once and throws it away.
set -u
cd "$(dirname "$0")" || exit 2
V=$PWD
id=${1:?usage: check.sh ID [quick|thorough]}
shift
tier=${VERIF_TIER:-quick}
if [ $# -gt 0 ] && { [ "$1" = quick ] || [ "$1" = thorough ]; }; then tier=$1; shift; fi
seed=${VERIF_SEED:-1}
case $seed in '' | *[!0-9]*) seed=1 ;; esac
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOSUMDB=off GOPROXY=off GOWORK=off CGO_ENABLED=1
T=$(mktemp -d /tmp/verif.XXXXXXXX) || exit 2
trap 'rm -rf -- "$T"' EXIT
trap 'exit 2' INT TERM HUP
cp harness/go.mod harness/go.sum "$T/" || exit 2

build() { # build OUT PKG FLAGS...
	out=$1 pkg=$2
	shift 2
	(cd harness && go build -modfile="$T/go.mod" "$@" -o "$T/$out" "./$pkg") >"$T/build.log" 2>&1 && return
	echo "the harness does not build against /repo:" >&2
	head -50 "$T/build.log" >&2
	exit 2
}

if [ "$id" = setup ]; then
	build props props
	build race props -race
	build lower lower -asan
	echo "harness builds"
	exit 0
fi
mkdir -p evidence replays
case $id in
C16 | C27) build run props -race ;;
C18) build run lower -asan ;;
*) build run props ;;
esac
"$T/run" -prop "$id" -tier "$tier" -seed "$seed" -evidence "$V/evidence" -replays "$V/replays" -known "$V/known_findings.txt" "$@"
rc=$?
case $rc in 0 | 1) exit $rc ;; *) exit 2 ;; esac
