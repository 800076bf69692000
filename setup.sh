#!/bin/bash
# Builds the replay harnesses from the committed files and /repo's working tree (offline).
set -e
cd "$(dirname "$0")"
. /opt/vp/env.sh
export VERIF_ICD="$PWD/harness-icd/empty"
for d in harness harness-usb harness-nusb harness-icd harness-e2e; do
  [ -d "$d" ] && (cd "$d" && CARGO_TARGET_DIR="$PWD/target" cargo build --offline --locked -q)
done
java -version >/dev/null 2>&1
exit 0
