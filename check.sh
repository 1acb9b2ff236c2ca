#!/bin/bash
# check.sh ID [tier] | check.sh replay FILE : builds the model checker from /repo's working tree and runs it
set -u
root=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off
id=$1; tier=${2:-${VERIF_TIER:-quick}}
scratch=$(mktemp -d "${TMPDIR:-/tmp}/verif-mc.XXXXXX") || exit 2
trap 'rm -rf "$scratch"' EXIT
cp -r "$root/mc" "$scratch/mc" || exit 2
cd "$scratch/mc" || exit 2
repo=${MC_REPO:-/repo}
[ "$repo" = /repo ] || sed -i "s#=> /repo\$#=> $repo#" go.mod
# Go's caches aren't writable everywhere
if [ -n "${GOCACHE:-}" ] && ! { mkdir -p "$GOCACHE" && touch "$GOCACHE/.w"; } 2>/dev/null; then export GOCACHE=$scratch/gocache; fi
export MC_SCRATCH=$scratch MC_ROOT=$root MC_GOROOT=$(go env GOROOT)
tags=
if ! go build -buildvcs=false -o "$scratch/mcbin" . >"$scratch/build.log" 2>&1; then
	# the interfaces of the inner packages concern only some checks
	tags="-tags noapi"
fi
if [ -n "$tags" ] && ! go build -buildvcs=false $tags -o "$scratch/mcbin" . >"$scratch/build2.log" 2>&1; then
	cat "$scratch/build.log"; echo "the checker doesn't build against /repo"; exit 2
fi
# some checks need the code under test rewritten for the controlled scheduler and with other batch sizes
what=$id
[ "$id" = replay ] && what=$(cd "$root" && sed -n 's/.*"property": *"\([A-Z0-9]*\)".*/\1/p' "$2" 2>/dev/null)
overlay() { # features, output, go build options
	"$scratch/mcbin" rewrite "$repo" "$scratch/ov-$1" "$1" >>"$scratch/build.log" 2>&1 &&
		go build -buildvcs=false $tags ${3:-} -overlay "$scratch/ov-$1/overlay.json" -o "$2" . >>"$scratch/build.log" 2>&1
}
bin=$scratch/mcbin
case $what in
C16 | C17 | C27)
	for f in spc sc c; do
		if overlay $f "$scratch/mcbin2"; then bin=$scratch/mcbin2; break; fi
		echo "note: the code can't be rewritten with features $f"
	done
	if overlay c "$scratch/mcrace" -race; then export MC_RACE=$scratch/mcrace; else echo "note: no race detector"; fi
	;;
C24)
	if overlay b "$scratch/mcbin2"; then bin=$scratch/mcbin2; else echo "note: the batch sizes can't be rewritten"; fi
	;;
C21)
	for f in cb c; do
		if overlay $f "$scratch/mcbin2"; then bin=$scratch/mcbin2; break; fi
		echo "note: the code can't be rewritten with features $f"
	done
	;;
C18 | C19 | C20 | C22 | C28 | C29 | C31)
	# package os asking a hook about each operation
	case $what in C19 | C28 | C29 | C31)
		if "$scratch/mcbin" rewriteos "$scratch/ov-os" >>"$scratch/build.log" 2>&1 &&
			go build -buildvcs=false -tags "osfault ${tags#-tags }" -overlay "$scratch/ov-os/overlay.json" -o "$scratch/mcbin2" . >>"$scratch/build.log" 2>&1; then
			bin=$scratch/mcbin2
		else
			echo "note: package os can't be instrumented"; [ -n "${MC_LOG:-}" ] && cat "$scratch/build.log"
		fi
		;;
	esac
	# the program itself
	go build -buildvcs=false -o "$scratch/cli" github.com/bnb-chain/zkbnb-setup >>"$scratch/build.log" 2>&1 && export MC_CLI=$scratch/cli
	;;
esac
cd "$root" || exit 2
if [ "$id" = replay ]; then TMPDIR=$scratch "$bin" replay "$2" "$root"; exit $?; fi
TMPDIR=$scratch "$bin" check "$id" "$tier" "$root"
exit $?
