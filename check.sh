#!/bin/bash
# check.sh ID            explore the property; VERIF_TIER=quick|thorough
# check.sh replay FILE   execute a reported violation again
# check.sh list          what is enumerated
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cp "$here/mc/go.mod" "$here/mc/go.sum" "$tmp" || exit 2
cd "$here/mc" || exit 2

# A runtime that lets the harness decide where iterations over maps start.
hooked() {
	local src=$(go env GOROOT)/src/internal/runtime/maps/table.go
	sed 's/^\tit.entryOffset = rand()$/\tit.entryOffset = rand()\n\tif f := VerifOrder; f != nil {\n\t\tit.entryOffset = f(m.used)\n\t}/' "$src" > "$tmp/table.go" || return 1
	grep -q 'VerifOrder(\|f(m.used)' "$tmp/table.go" || return 1
	printf '\n// VerifOrder chooses where the iteration over a map with so many keys starts.\nvar VerifOrder func(used uint64) uint64\n' >> "$tmp/table.go"
	echo "{\"Replace\": {\"$src\": \"$tmp/table.go\"}}" > "$tmp/overlay.json"
}
build() { # build FLAGS... OUT
	go build -modfile="$tmp/go.mod" -tags "$tags" -ldflags=-checklinkname=0 "$@" ./cmd/mc
}

tags= overlay=
if hooked; then
	tags=verif_order overlay="-overlay=$tmp/overlay.json"
fi
# P14 runs goroutines under a scheduler: a copy of the package that passes a
# point before every statement, with and without the race detector.
case "$1${2:-}" in
P14*|replay*P14*)
	export GORACE="suppress_equal_stacks=0 suppress_equal_addresses=0 exitcode=0 log_path=$tmp/race" MC_RACE_LOG="$tmp/race"
	mkdir "$tmp/points"
	[ -f "$tmp/overlay.json" ] && cp "$tmp/overlay.json" "$tmp/points.json"
	if go run -modfile="$tmp/go.mod" ./cmd/instr /repo/Go/sereal "$tmp/points" "$tmp/points.json" &&
		tags="${tags:+$tags,}verif_sched" build -overlay="$tmp/points.json" -o "$tmp/mc" &&
		tags="${tags:+$tags,}verif_sched" build -race -overlay="$tmp/points.json" -o "$tmp/mc-race"; then
		export MC_INSTRUMENTED=1 MC_RACE="$tmp/mc-race"
	else
		echo "note: not instrumented: goroutines switch between operations only" >&2
		build -race $overlay -o "$tmp/mc-race" && export MC_RACE="$tmp/mc-race"
	fi
	;;
esac
case "$1${2:-}" in
P05*|P06*|P08*|P10*|P19*|replay*P05*|replay*P06*|replay*P08*|replay*P10*|replay*P19*)
	tags="${tags:+$tags,}clibs" build $overlay -o "$tmp/mc-clibs" 2> "$tmp/err.clibs" || tags=clibs build -o "$tmp/mc-clibs" 2>> "$tmp/err.clibs" &
	;;
esac
if [ ! -x "$tmp/mc" ]; then
	if build $overlay -o "$tmp/mc" 2> "$tmp/err"; then
		[ -n "$tags" ] && export MC_INSTRUMENTED=1
	else
		go build -modfile="$tmp/go.mod" -o "$tmp/mc" ./cmd/mc || exit 2
	fi
fi
# Spaces with zstd need the C library.
case "$1${2:-}" in
P05*|P06*|P08*|P10*|P19*|replay*P05*|replay*P06*|replay*P08*|replay*P10*|replay*P19*)
	wait
	[ -x "$tmp/mc-clibs" ] && export MC_CLIBS="$tmp/mc-clibs" || cat "$tmp/err.clibs" >&2
	;;
esac
case "$1" in
replay|list) "$tmp/mc" "$@" ;;
*) "$tmp/mc" run "$1" "${VERIF_TIER:-quick}" "$here" "${2:-}" ;;
esac
