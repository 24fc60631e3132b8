# shared build environment of the checks
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export CARGO_NET_OFFLINE=true
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_TARGET_DIR=$VERIF/symx/target
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_PROFILE_DEV_DEBUG CARGO_INCREMENTAL
export VERIF_TIER=${VERIF_TIER:-quick} VERIF_SEED=${VERIF_SEED:-1}
SYMX=$CARGO_TARGET_DIR/debug/symx

SYMX_NOSTD=$VERIF/symx/target/nostd/debug/symx

# forget the library's build products when its sources differ from those last built
# (cargo only looks at modification times)
fresh_repo() {
  local stamp=$1/repo.sha now
  mkdir -p "$1"
  now=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' -o -name '*.md' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)
  if [ "$(cat "$stamp" 2>/dev/null)" != "$now" ]; then
    rm -rf "$1"/*/.fingerprint/mapping-algorithms-*
    echo "$now" >"$stamp"
  fi
}
# build_symx [nostd]
build_symx() {
  local dir=$CARGO_TARGET_DIR flags=
  if [ "${1:-}" = nostd ]; then dir=$CARGO_TARGET_DIR/nostd; flags=--no-default-features; fi
  fresh_repo "$dir"
  python3 "$VERIF/tools/patch_nalgebra.py" || return 1
  local log=$dir/build.log
  if ! (cd "$VERIF/symx" && CARGO_TARGET_DIR=$dir cargo build --offline $flags >"$log" 2>&1); then
    grep -E '^error' -A12 "$log" | head -60
    echo "error: the checker does not build against /repo"
    return 1
  fi
}
