#!/bin/bash
# run.sh setup | check <property> | replay <file>
# Builds the simulator from /repo's working tree and runs it. Everything built
# goes to /verif/build, which git ignores.
set -u
ROOT=$(cd "$(dirname "$0")" && pwd)
BUILD=$ROOT/build
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GONOSUMDB=* GOWORK=off
export GOCACHE=${VERIF_GOCACHE:-$BUILD/gocache}
ESBUILD=/opt/veriftools/node/node_modules/.bin/esbuild
mkdir -p "$BUILD" "$ROOT/evidence" "$ROOT/replays" || exit 2
# exclusive while building: checks may run side by side
build() {
  (
    flock 9 || exit 2
    tmp=$BUILD/tmp.$$
    mkdir -p "$tmp" || exit 2
    trap 'rm -rf "$tmp"' EXIT
    (cd "$ROOT/sim" && go build -o "$tmp/sim" .) || exit 2
    (cd /repo && go build -buildvcs=false -o "$tmp/appendable" ./cmd) || exit 2
    "$ESBUILD" /repo/src/index.ts --bundle --format=esm --log-level=error --outfile="$tmp/client.mjs" || exit 2
    # the transports by themselves, for C26
    "$ESBUILD" "$ROOT/tssim/resolvers.ts" --bundle --format=esm --log-level=error --outfile="$tmp/resolvers.mjs" || echo "the resolvers of /repo/src/resolver cannot be built" >&2
    rm -f "$BUILD/resolvers.mjs"
    [ ! -e "$tmp/resolvers.mjs" ] || mv -f "$tmp/resolvers.mjs" "$BUILD/" || exit 2
    mv -f "$tmp/sim" "$tmp/appendable" "$tmp/client.mjs" "$BUILD/" || exit 2
  ) 9>"$BUILD/lock"
}
# the conversion script, for C28: built from copies, so that /repo stays as it is
build_conv() {
  (
    flock 9 || exit 2
    src=$BUILD/rust
    rm -rf "$src" || exit 2
    mkdir -p "$src" || exit 2
    cp -r /repo/Cargo.toml /repo/scripts "$src/" || exit 2
    cp "$ROOT/tools/rust/Cargo.lock" "$src/" || exit 2
    (cd "$src" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$BUILD/cargo cargo build --offline --quiet -p jsonl2json) || exit 2
    cp "$BUILD/cargo/debug/jsonl2json" "$BUILD/jsonl2json.tmp" && mv -f "$BUILD/jsonl2json.tmp" "$BUILD/jsonl2json" || exit 2
  ) 9>"$BUILD/lock"
}
case "${1:-}" in
setup)
  build && build_conv || { echo "build failed" >&2; exit 2; }
  ;;
check)
  build || { echo "build failed" >&2; exit 2; }
  [ "$2" != C28 ] || build_conv || { echo "build failed" >&2; exit 2; }
  exec "$BUILD/sim" check -root "$ROOT" -prop "$2" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}"
  ;;
replay)
  build || { echo "build failed" >&2; exit 2; }
  ! grep -q '"prop": *"C28"' "$2" || build_conv || { echo "build failed" >&2; exit 2; }
  exec "$BUILD/sim" replay -root "$ROOT" "$2"
  ;;
*)
  echo "usage: run.sh setup | check <property> | replay <file>" >&2
  exit 2
  ;;
esac
