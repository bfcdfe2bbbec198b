#!/bin/bash
# dump.sh OUT.json : build the driver if needed and dump the MIR of /repo's library from its current tree
set -e
HERE=$(cd "$(dirname "$0")/.." && pwd)
WORK=${VERIF_WORK:-$HERE/.work}
REPO=${VERIF_REPO:-/repo}
mkdir -p "$WORK"
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTUP_TOOLCHAIN RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
KEY=$(sha256sum "$HERE/driver/main.rs" | cut -c1-16)
DRV="$WORK/mirdump-$KEY"
if [ ! -x "$DRV" ]; then
  SYS=$(rustc +nightly --print sysroot)
  rustc +nightly --edition 2021 -O "$HERE/driver/main.rs" -o "$DRV.tmp.$$" -C link-args=-Wl,-rpath,"$SYS/lib" -Awarnings >&2
  mv "$DRV.tmp.$$" "$DRV"
fi
[ "$1" = --build-only ] && exit 0
export LD_LIBRARY_PATH="$(rustc +nightly --print sysroot)/lib"
TGT="$WORK/target"
mkdir -p "$TGT"
exec 9>"$WORK/lock"
flock 9
# cargo's freshness cache would skip the driver
find "$TGT" -depth \( -name 'auto-palette*' -o -name 'auto_palette*' -o -name 'libauto_palette*' \) -exec rm -rf {} + 2>/dev/null || true
OUT=$(realpath -m "$1")
rm -f "$OUT"
cd "$REPO"
RUSTC_WORKSPACE_WRAPPER="$DRV" VERIF_MIR_OUT="$OUT" CARGO_TARGET_DIR="$TGT" cargo +nightly check --lib --offline -q >&2
[ -s "$OUT" ]
