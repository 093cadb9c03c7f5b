#!/bin/bash
# Checks build everything they need themselves; this only makes sure that the offline build works.
HERE=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
T=$(mktemp -d /tmp/verif-setup.XXXXXX)
trap 'rm -rf "$T"' EXIT
cd "$HERE/harness/refpg" && CARGO_TARGET_DIR=$T cargo build --release --offline
