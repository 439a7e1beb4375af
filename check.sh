#!/bin/bash
# Usage: check.sh PROPERTY [quick|thorough]   run the check of a property
#        check.sh replay FILE                 replay a recorded violation
#        check.sh build [DIR]                  only build the simulator
# Exit: 0 the property held; 1 a violation was found; 2 no verdict.
# Everything is rebuilt from the working tree of /repo.
set -u
here=$(cd "$(dirname "$0")" && pwd)
# shellcheck disable=SC1091
. /opt/vp/env.sh
unset GORACE GODEBUG
tmp=$(mktemp -d "${TMPDIR:-/tmp}/verifcheck.XXXXXX") || exit 2
trap 'rm -rf "$tmp"' EXIT
die() { echo "ERROR: $*" >&2; exit 2; }

build() { # DIR RACE
	cd "$here/sim" || exit 2
	go build -o "$1/ovgen" ./ovgen || die "building the instrumenter failed"
	"$1/ovgen" -out "$1/ov" || die "instrumenting /repo failed"
	go build -overlay "$1/ov/overlay.json" -o "$1/sim" ./cmd/sim || die "building the simulator over /repo failed"
	if [ "$2" = yes ]; then
		go build -race -overlay "$1/ov/overlay.json" -o "$1/simrace" ./cmd/sim || die "building the race-instrumented simulator failed"
	fi
	cd "$here" || exit 2
}

case "${1:-}" in
build)
	# Without DIR this only fills the build cache.
	build "$(realpath "${2:-$tmp}")" yes
	;;
replay)
	file=$(realpath "$2") || die "no file $2"
	race=no
	grep -q '^ "race": true' "$file" && race=yes
	build "$tmp" $race
	"$tmp/sim" replay -bin "$tmp/sim" -racebin "$tmp/simrace" "$file"
	exit $?
	;;
C*)
	prop=$1
	tier=${2:-${VERIF_TIER:-quick}}
	build "$tmp" no
	if [ "$("$tmp/sim" races "$prop")" = yes ]; then
		build "$tmp" yes
	fi
	TMPDIR="$tmp" "$tmp/sim" run -prop "$prop" -tier "$tier" -seed "${VERIF_SEED:-1}" \
		-bin "$tmp/sim" -racebin "$tmp/simrace" \
		-evidence "$here/evidence/$prop.json" -replays "$here/replays" \
		-known "$here/known-findings.json" ${VERIF_ARGS:-}
	exit $?
	;;
*)
	die "usage: check.sh PROPERTY [quick|thorough] | replay FILE"
	;;
esac
