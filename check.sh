#!/bin/bash
# check.sh ID [vmc flags]: builds the checker of property ID against /repo's working tree and runs it.
# Exit 0: held on everything explored; 1: VIOLATION line printed; anything else: the check is broken.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
id=${1:?property id}; shift
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOENV=off GOSUMDB=off LANG=C.UTF-8
unset GOEXPERIMENT GODEBUG GOMAXPROCS GORACE
scratch=$(mktemp -d "${TMPDIR:-/tmp}/verif-$id.XXXXXX") || exit 3
trap 'chmod -R u+rwx "$scratch" 2>/dev/null; rm -rf "$scratch"' EXIT
trap 'exit 143' TERM INT HUP

sum=/opt/vp/go.work.sum
[ -f "$sum" ] && cp "$sum" "$scratch/go.work.sum"
cat > "$scratch/go.work" <<X
go 1.25.0
use (
	$here/harness
	$repo
	$repo/cmd/xtemplate
)
X
export GOWORK=$scratch/go.work
export VMC_SCRATCH=$scratch/run
mkdir -p "$VMC_SCRATCH"

build() { # build the checker; a tree that does not compile is an error of the check, not a verdict
	"$@" 2> "$scratch/build.log" || { echo "check $id: build failed" >&2; cat "$scratch/build.log" >&2; exit 3; }
}
cd "$here/harness" || exit 3
. "$here/modes.sh"
build_$(mode "$id")

mkdir -p "$here/evidence" "$here/replays"
"$scratch/vmc" -prop "$id" -tier "${VERIF_TIER:-quick}" -evidence "$here/evidence/$id.json" \
	-known "$here/known_findings.json" -replays "$here/replays" "$@" &
pid=$!
trap 'kill -TERM $pid 2>/dev/null; wait $pid; exit 143' TERM INT HUP
wait $pid
exit $?
