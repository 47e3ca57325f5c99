#!/bin/bash
# check.sh PROPERTY quick|thorough [SUB]: builds the checker against /repo's working tree and runs one check.
PROP="$1"; TIER="${2:-${VERIF_TIER:-quick}}"; shift 2
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
. "$HERE/tools/build.sh"
BUILD=$(mktemp -d /tmp/verif.XXXXXX) || exit 3
trap 'rm -rf "$BUILD"' EXIT
mkdir -p "$HERE/evidence"
export VERIF_DIR="$HERE" VERIF_BUILD="$BUILD"
copy_sources || exit 3
case "$PROP" in
C04|C05|C06|C07|C08|C25) build_conc || exit 3; EXE=conc ;;
C30) build_codec && build_tools || exit 3; EXE=codec ;;
*) build_codec || exit 3; EXE=codec ;;
esac
cd "$HERE"
"$BUILD/$EXE" "$PROP" "$TIER" "$@"
