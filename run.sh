#!/bin/bash
# run.sh setup | run.sh check <property> [gosym flags] | run.sh replay <file>
# Builds the symbolic executor from the committed sources, then runs it
# against /repo's current working tree.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export GOPROXY=off GOTOOLCHAIN=local
unset GODEBUG
mkdir -p "$here/.build" "$here/evidence"
bin="$here/.build/gosym"
tmp="$bin.$$"
( cd "$here/gosym" && GOFLAGS=-mod=readonly go build -o "$tmp" . ) || { echo "cannot build gosym" >&2; exit 2; }
mv -f "$tmp" "$bin"
cmd="${1:-}"; shift || true
case "$cmd" in
setup) exit 0 ;;
check) p="$1"; shift; exec "$bin" check "$p" -tier "${VERIF_TIER:-quick}" -verif "$here" "$@" ;;
replay) exec "$bin" replay "$@" ;;
*) echo "usage: run.sh setup|check|replay" >&2; exit 2 ;;
esac
