#!/bin/bash
# check.sh <property> | check.sh one <property> <seed> <tier> <case> | check.sh build
# Rebuilds the monitors (and, where needed, the executable) from /repo's working tree, then runs them.
set -u
root="$(cd "$(dirname "$0")" && pwd)"
repo="${RVMON_REPO:-/repo}"
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$root/target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUST_LOG
mkdir -p "$CARGO_TARGET_DIR" "$root/evidence"
log="$CARGO_TARGET_DIR/build-$$.log"
scratch="$(mktemp -d "${TMPDIR:-/tmp}/rvmon.XXXXXX")" || exit 2
trap 'rm -rf "$scratch" "$log"' EXIT
# cargo decides freshness by file times; the working tree's contents must decide instead
stamp="$( (cd "$repo" && find Cargo.toml Cargo.lock src -type f -print0 | sort -z | xargs -0 sha256sum) 2>/dev/null | sha256sum)"
build() { # build <what> <cargo args...>
  local what="$1"; shift
  if [ "$(cat "$CARGO_TARGET_DIR/stamp-$what" 2>/dev/null)" != "$stamp" ]; then
    rm -f "$CARGO_TARGET_DIR/stamp-$what"
    find "$CARGO_TARGET_DIR" -maxdepth 4 -type d -path '*/.fingerprint/retrocompressor-*' -prune -exec rm -rf {} + 2>/dev/null
  fi
  if ! cargo build --release --offline "$@" >"$log" 2>&1; then
    echo "build of $what from $repo failed:" >&2; tail -30 "$log" >&2; exit 2
  fi
  echo "$stamp" > "$CARGO_TARGET_DIR/stamp-$what"
}
lock() { exec 9>"$CARGO_TARGET_DIR/.lock"; flock 9; }
lock
build harness --manifest-path "$root/harness/Cargo.toml"
p="$1"; [ "$p" = one ] && p="$2"
if [ "$p" = C17 ] || [ "$p" = build ]; then
  CARGO_TARGET_DIR="$root/target/cli" build cli --manifest-path "$repo/Cargo.toml" --bin retrocompressor --config 'profile.release.overflow-checks=true'
  export RVMON_CLI="$scratch/retrocompressor"
  cp "$root/target/cli/release/retrocompressor" "$RVMON_CLI" || exit 2
fi
cp "$root/target/release/rvmon" "$scratch/rvmon" || exit 2
flock -u 9
export RVMON_ROOT="$root" RVMON_SCRATCH="$scratch/w"
mkdir -p "$RVMON_SCRATCH"
chmod 711 "$scratch" "$RVMON_SCRATCH"
case "$1" in
  build) exit 0 ;;
  one) "$scratch/rvmon" one "$2" "$3" "$4" "$5" ;;
  *) "$scratch/rvmon" run "$1" ;;
esac
