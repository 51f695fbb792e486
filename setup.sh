#!/bin/bash
# Builds the simulator once from /repo, which warms the build cache and shows that it builds.
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d /tmp/boosim.XXXXXX) || exit 2
trap 'rm -rf -- "$scratch"' EXIT
bash "$here/build.sh" "$scratch"
