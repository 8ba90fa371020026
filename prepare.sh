#!/usr/bin/env bash
# Builds the MIR fact extractor and extracts the facts of /repo's current tree.
# Prints the facts directory.  Everything is written under /verif/work (ignored by git).
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=${VP_REPO:-/repo}
work=$here/work
mkdir -p "$work"
exec 9>"$work/.lock"
flock 9
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER
log=$work/prepare.log
: >"$log"

hash_of() { (cd "$1" && shift && find "$@" -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' -o -name '*.json' -o -name '*.sql' \) -not -path '*/target/*' -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -c1-24); }

dh=$(hash_of "$here/driver" src Cargo.toml Cargo.lock rust-toolchain.toml)
if [ ! -x "$work/drv/release/vpdriver" ] || [ "$(cat "$work/drv.hash" 2>/dev/null)" != "$dh" ]; then
  (cd "$here/driver" && CARGO_TARGET_DIR="$work/drv" cargo build --release --offline) >>"$log" 2>&1 || { echo "driver build failed, see $log" >&2; tail -30 "$log" >&2; exit 2; }
  echo "$dh" >"$work/drv.hash"
fi

rh=$(hash_of "$repo" Cargo.toml Cargo.lock rexecutor rexecutor-sqlx)
facts=$work/facts/$dh-$rh
if [ ! -f "$facts/.done" ]; then
  rm -rf "${work:?}/facts"
  mkdir -p "$facts"
  rm -rf "${work:?}"/tgt/debug/.fingerprint/rexecutor* "${work:?}"/tgt/debug/build/rexecutor*
  sys=$(rustc --print sysroot)
  ( cd "$repo" && env CARGO_TARGET_DIR="$work/tgt" LD_LIBRARY_PATH="$sys/lib" SQLX_OFFLINE=true \
      RUSTC_WORKSPACE_WRAPPER="$work/drv/release/vpdriver" VP_FACTS_DIR="$facts" VP_CRATES=rexecutor,rexecutor_sqlx \
      cargo check --locked --offline -p rexecutor -p rexecutor-sqlx ) >>"$log" 2>&1 || { echo "cargo check of $repo failed, see $log" >&2; tail -40 "$log" >&2; exit 2; }
  for c in rexecutor rexecutor_sqlx; do
    ls "$facts" | grep -q "^$c" || { echo "no facts for $c" >&2; exit 2; }
  done
  touch "$facts/.done"
fi
echo "$facts"
