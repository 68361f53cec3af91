#!/bin/bash
# run.sh PROPERTY           one check (VERIF_SEED, VERIF_TIER)
# run.sh replay FILE        a recorded violation again, against /repo's working tree
# run.sh digest PROPERTY    one line per run, to compare processes
#
# Everything is built from /repo's working tree in a scratch directory that is
# removed at the end; nothing in /repo is written.
here=$(cd "$(dirname "$0")" && pwd) || exit 3
repo=${VSIM_REPO:-/repo}
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
unset GOOS GOARCH GOEXPERIMENT GODEBUG

prop=$1
mode=check
case "$prop" in
replay | digest) mode=$prop; arg=$2; extra=("${@:3}") ;;
"") echo "usage: run.sh PROPERTY | replay FILE | digest PROPERTY" >&2; exit 3 ;;
esac
case "$mode" in
digest) prop=$arg ;;
replay) prop=$(sed -n 's/^ "property": "\(.*\)",$/\1/p' "$arg") ;;
esac

work=$(mktemp -d "${TMPDIR:-/tmp}/vsim.XXXXXXXX") || exit 3
trap 'rm -rf "$work"' EXIT
trap 'exit 3' INT TERM
if ! mkdir -p "$GOCACHE" 2>/dev/null || ! touch "$GOCACHE/.vsim" 2>/dev/null; then
	export GOCACHE=$work/gocache
fi
rm -f "$GOCACHE/.vsim"

say() { echo "run.sh: $*" >&2; }

tags=() cli=() race=1
case "$prop" in
C12) tags=(-tags vsimcli) cli=(-cli) race=0 ;;
C21 | C22) tags=(-tags vsimmains) cli=(-mains) race=0 ;;
esac

(cd "$here/sim/instr" && go build -o "$work/instr" .) || { say "cannot build the instrumenter"; exit 3; }

# build FLAGS...: instrument the working tree and build the harness with it.
build() {
	rm -rf "$work/o" && mkdir -p "$work/o" || return 1
	(cd "$repo" && "$work/instr" -repo "$repo" -out "$work/o" -rt "$here/sim/vsim" -harness "$here/sim/harness" "${cli[@]}" "$@") >"$work/log" 2>&1 || return 1
	(cd "$repo" && go build "${tags[@]}" -overlay "$work/o/overlay.json" -o "$work/harness" ./vsim/harness) >>"$work/log" 2>&1 || return 1
	if [ "$race" = 1 ]; then
		(cd "$repo" && go build -race "${tags[@]}" -overlay "$work/o/overlay.json" -o "$work/harness-race" ./vsim/harness) >>"$work/log" 2>&1 || return 1
	fi
	return 0
}

lost=""
if ! build; then
	cp "$work/log" "$work/log1"
	if build -no-reader; then
		lost="strings.NewReader"
	elif build -no-reader -no-os; then
		lost="strings.NewReader, package os"
	else
		cat "$work/log1" "$work/log" >&2
		say "cannot build the simulation"
		exit 3
	fi
	say "not simulated in this build: $lost"
fi

common=(-sites "$work/o/sites.json" -race-bin "$work/harness-race")
cd "$here" || exit 3
case "$mode" in
check)
	tier=${VERIF_TIER:-quick}
	mkdir -p "$work/runs" "$here/evidence/replays" || exit 3
	"$work/harness" check -prop "$prop" -tier "$tier" -seed "${VERIF_SEED:-1}" "${common[@]}" \
		-scratch "$work/runs" -evidence "$here/evidence/$prop.json" -replays "$here/evidence/replays" \
		-known "$here/known-findings.txt" -lost "$lost" ${VSIM_FLAGS:-}
	;;
replay)
	"$work/harness" replay "${common[@]}" "$arg"
	;;
digest)
	bin=$work/harness
	"$bin" digest -prop "$prop" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" "${common[@]}" "${extra[@]}"
	[ "$race" = 1 ] && GOMAXPROCS=2 GORACE="halt_on_error=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0" \
		"$work/harness-race" digest -prop "$prop" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" "${common[@]}" "${extra[@]}"
	;;
esac
code=$?
exit $code
