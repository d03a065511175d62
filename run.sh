#!/bin/bash
# run.sh <property> [quick|thorough]: builds the harness against /repo's working tree, runs one check.
# run.sh build: builds only.   run.sh replay <file>: replays one recorded case.
set -u
export VH_DIR="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset RUST_LOG RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG
REPO=/repo
BUILD="$VH_DIR/build"
PROP="${1:?usage: run.sh <property> [quick|thorough]}"
[ "$PROP" = build ] || [ "$PROP" = replay ] || export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
mkdir -p "$BUILD"

# Cargo goes by time stamps; a tree put back or copied may carry old ones. Go by content.
stamp() { (cd "$REPO" && find src Cargo.toml -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum); }

build() { # build <target dir> <toolchain> <flags...>
  local target="$1" toolchain="$2"; shift 2
  mkdir -p "$target"
  local now; now="$(stamp)"
  if [ "$(cat "$target/stamp" 2>/dev/null)" != "$now" ]; then
    rm -f "$target/stamp"
    (cd "$VH_DIR/harness" && cargo "+$toolchain" clean -p hybridcvrp --target-dir "$target") >/dev/null 2>&1
  fi
  (cd "$VH_DIR/harness" && cargo "+$toolchain" build --offline --target-dir "$target" "$@") >"$target/build.log" 2>&1 || return 1
  echo "$now" >"$target/stamp"
}

# The solver's own command line program, as a user has it.
build_cli() { # build_cli <target dir> <flags...>
  [ -f "$REPO/Cargo.lock" ] || cp /opt/vp/Cargo.lock.resolved "$REPO/Cargo.lock" 2>/dev/null
  local target="$1"; shift
  mkdir -p "$target"
  local now; now="$(stamp)"
  if [ "$(cat "$target/stamp" 2>/dev/null)" != "$now" ]; then
    rm -f "$target/stamp"
    (cd "$REPO" && cargo clean --offline -p hybridcvrp --target-dir "$target") >/dev/null 2>&1
  fi
  (cd "$REPO" && CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only \
    cargo build --offline --bin hybridcvrp --target-dir "$target" "$@") >"$target/build.log" 2>&1 || return 1
  echo "$now" >"$target/stamp"
}

exec 9>"$BUILD/lock"
flock 9

# The part of the harness this property needs, should the rest not build against the tree.
feature() { grep -l "id: \"$PROP\"" "$VH_DIR"/harness/src/p_*.rs | head -1 | sed 's#.*/p_##; s#\.rs$##'; }

if ! build "$BUILD/target" "$RUSTUP_TOOLCHAIN"; then
  f="$(feature)"
  if [ -z "$f" ] || ! build "$BUILD/target" "$RUSTUP_TOOLCHAIN" --no-default-features --features "$f"; then
    echo "cannot build the harness against $REPO:" >&2
    grep -E '^error' -A 12 "$BUILD/target/build.log" | head -60 >&2
    exit 2
  fi
fi
VH="$BUILD/target/debug/vh"

needs_cli() { case "$PROP" in C03|C18|C20|C21|C22|C34|C35|C36|build|replay) return 0;; esac; return 1; }
if needs_cli; then
  if ! build_cli "$BUILD/cli"; then
    echo "cannot build the command line program:" >&2
    grep -E '^error' -A 12 "$BUILD/cli/build.log" | head -40 >&2
    exit 2
  fi
  export VH_BIN="$BUILD/cli/debug/hybridcvrp"
fi

if [ "$PROP" = C30 ] || [ "$PROP" = build ] || [ "$PROP" = replay ]; then
  if build_cli "$BUILD/dimacs" --features dimacs; then
    export VH_BIN_DIMACS="$BUILD/dimacs/debug/hybridcvrp"
  else
    echo "cannot build the program for the DIMACS challenge:" >&2
    grep -E '^error' -A 12 "$BUILD/dimacs/build.log" | head -40 >&2
    [ "$PROP" = C30 ] && exit 2
  fi
fi

# Memory safety: the same harness under AddressSanitizer.
ASAN_OK=
if [ "$PROP" = C22 ] || [ "$PROP" = build ]; then
  if RUSTFLAGS="-Zsanitizer=address --cfg vh_asan" build "$BUILD/asan" nightly-x86_64-unknown-linux-gnu --target x86_64-unknown-linux-gnu; then
    ASAN_OK=1
  else
    echo "cannot build the harness under AddressSanitizer:" >&2
    grep -E '^error' -A 12 "$BUILD/asan/build.log" | head -40 >&2
    [ "$PROP" = build ] || exit 2
  fi
fi
flock -u 9
exec 9>&-
[ "$PROP" = build ] && exit 0
if [ "$PROP" = replay ]; then exec "$VH" replay "$2"; fi

cd "$VH_DIR" || exit 2
"$VH" check "$PROP"
rc=$?
if [ "$PROP" = C22 ] && [ $rc -eq 0 ]; then
  export ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:exitcode=86:allocator_may_return_null=1
  VH_STAGE=2 "$BUILD/asan/x86_64-unknown-linux-gnu/debug/vh" check "$PROP"
  rc=$?
fi
exit $rc
