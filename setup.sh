#!/bin/bash
# Checks that everything builds offline, and warms the build cache.
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
. "$HERE/tools/build.sh"
BUILD=$(mktemp -d /tmp/verif.XXXXXX) || exit 1
trap 'rm -rf "$BUILD"' EXIT
copy_sources && build_codec && build_tools && build_conc
