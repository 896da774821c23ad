#!/bin/bash
# usage: check.sh <property> [--only <phase> <chunk>]
# Rebuilds the explorer against /repo's working tree and runs it.
set -u
ROOT="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTC_WRAPPER CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR TZ TZDIR
export MC_ROOT="$ROOT"
ID="${1:?property}"
case "$ID" in
  C18|C19|C20|C21|C22|C26) BIN=mcx ;;
  C23|C24|C25) BIN=mci ;;
  build-only) BIN="${2:-mc}" ;;
  *) BIN=mc ;;
esac
RUSTFLAGS=""
[ "$BIN" = mci ] && RUSTFLAGS="--cfg momentous_verif"
export RUSTFLAGS
TARGET="$ROOT/mc/target/$BIN"
mkdir -p "$TARGET"
# Rebuild the library whenever the content of its sources differs from what was last built here,
# whatever the file times say.
STAMP="$( (cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)"
if [ "$(cat "$TARGET/repo.stamp" 2>/dev/null)" != "$STAMP" ]; then
  rm -f "$TARGET/repo.stamp"
  (cd "$ROOT/mc" && cargo clean --offline --target-dir "$TARGET" -p momentous >/dev/null 2>&1)
fi
# These are explored twice: also as built by a user in release mode, where overflow wraps around.
BOTH=0
case "$ID" in C12|C16|C27|C18|C19|C20|C21|C22|C23|C24|C25|C26|build-only) BOTH=1 ;; esac
LOG="$TARGET/build.log"
build() {
  (cd "$ROOT/mc" && cargo build --offline --locked --target-dir "$TARGET" --bin "$BIN" --profile "$1") >"$LOG" 2>&1 && return
  tail -40 "$LOG"
  echo "BUILD ERROR: the explorer does not build against /repo"
  exit 2
}
build dev
[ $BOTH = 1 ] && build release
echo "$STAMP" > "$TARGET/repo.stamp"
if [ "$ID" = build-only ]; then
  case "$BIN" in mc) exec "$0" build-only mcx ;; mcx) exec "$0" build-only mci ;; *) exit 0 ;; esac
fi
SCRATCH="$(mktemp -d)"
trap 'rm -rf "$SCRATCH"' EXIT
export TMPDIR="$SCRATCH"
case "$* " in
  *"--only [unchecked build] "*) "$TARGET/release/$BIN" "$@"; exit $? ;;
  *" --only "*) BOTH=0 ;;
esac
if [ $BOTH = 1 ]; then
  MC_RESULT="$SCRATCH/unchecked" "$TARGET/release/$BIN" "$@" || exit 3
  export MC_PRIOR="$SCRATCH/unchecked"
fi
"$TARGET/debug/$BIN" "$@"
