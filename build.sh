#!/bin/bash
# build.sh [harness|all]: builds the harness against /repo's working tree, and the engine's own executable (for C31).
# Prints nothing on success.
. /verif/env.sh
cd /verif/harness || exit 2
T=${FIXCHECK_TARGET:-/verif/harness/target}
mkdir -p "$T"
exec 9>"$T/.fixcheck.lock"; flock 9
# cargo looks at modification times; a content hash makes sure that any change of the sources is seen
H=$(cd /repo && find src build resources Cargo.toml Cargo.lock build.rs -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
if [ "$(cat "$T/.repo-hash" 2>/dev/null)" != "$H" ]; then
  cargo clean --offline --target-dir "$T" -p fix-rs >/dev/null 2>&1
  rm -rf "$T"/debug/.fingerprint/fixcheck-*
fi
cargo build --offline --target-dir "$T" >"$T/.build.log" 2>&1 || { cat "$T/.build.log" >&2; rm -f "$T/.repo-hash"; exit 2; }
echo "$H" >"$T/.repo-hash"
[ "${1:-all}" = all ] || exit 0
cd /repo || exit 2
if [ "$(cat "$T/.app-hash" 2>/dev/null)" != "$H" ]; then
  cargo clean --offline --target-dir "$T/app" -p fix-rs >/dev/null 2>&1
fi
cargo build --offline --bins --target-dir "$T/app" >"$T/.app.log" 2>&1 || { cat "$T/.app.log" >&2; rm -f "$T/.app-hash"; exit 2; }
echo "$H" >"$T/.app-hash"
