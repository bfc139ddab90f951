#!/bin/bash
# Deterministic simulation of /repo's working tree.
#
#   check.sh PROPERTY          seeded search for violations of one property
#   check.sh replay FILE [-v]  execute a stored failing run again
#
# Exit 0: held on everything explored; 1: VIOLATION line; 3: no verdict.
# VERIF_SEED seeds every random choice; VERIF_TIER is quick (default) or thorough.
set -u
V=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
REPO=${VERIF_REPO:-/repo}
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0 GIN_MODE=release
GO=$(command -v go1.27 || command -v go) || { echo "no go compiler" >&2; exit 3; }
W=$(mktemp -d /tmp/verifsim.XXXXXXXX) || exit 3
trap 'rm -rf -- "$W"' EXIT
trap 'exit 3' INT TERM
build() {
	(cd "$V/tools/instrument" && "$GO" run . -repo "$REPO" -work "$W" -goroot "$("$GO" env GOROOT)" -modcache "$("$GO" env GOMODCACHE)") &&
		(cd "$V/sim" && "$GO" build -modfile "$W/go.mod" -overlay "$W/overlay.json" -o "$W/sim" .)
}
build >"$W/build.log" 2>&1 || { cat "$W/build.log" >&2; echo "check.sh: the simulator does not build" >&2; exit 3; }
if [ "${1:-}" = build ]; then exit 0; fi
if [ "${1:-}" = replay ]; then
	shift
	F=$1; shift
	"$W/sim" replay -points "$W/points.json" -file "$F" "$@"
	exit $?
fi
case "${VERIF_TIER:-quick}" in
thorough) A="-seconds ${VERIF_SECONDS:-600} -minruns 20000 -maxseconds 780" ;;
*) A="-seconds ${VERIF_SECONDS:-25} -minruns 1500 -maxseconds 240" ;;
esac
mkdir -p "$V/evidence" "$V/replays"
"$W/sim" check -points "$W/points.json" -prop "$1" -evidence "$V/evidence/$1.json" -replays "$V/replays" -known "$V/known-findings.txt" $A
exit $?
