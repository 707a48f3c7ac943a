# Shared build helpers (sourced).
export RUSTUP_TOOLCHAIN=nightly-2024-09-05 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_PROFILE_DEV_DEBUG CARGO_INCREMENTAL CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
REPO=/repo
TGT_MON="$ROOT/harness/target"
TGT_CRYPTO="$ROOT/crypto/target"
mkdir -p "$ROOT/evidence"

# Which binary watches a property.
bin_of() {
  case "$1" in
    P01|P02|P03|P04|P05|P06|P07|P08|P30) echo t20 ;;
    P09|P10|P11|P12|P13) echo t721 ;;
    P15|P16|P31) echo t1155 ;;
    P[0-9]*) echo misc ;;
    C[0-9]*) echo crypto ;;
    *) echo none ;;
  esac
}

# Content fingerprint of the code under test: cargo's mtime check is not
# trusted across copied trees.
fingerprint() {
  (cd "$REPO" && find contracts contracts-proc lib/crypto Cargo.toml Cargo.lock \
     -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' \) -not -path '*/target/*' -print0 \
   | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
}

# fresh dir target packages...: drop stale builds of the code under test.
fresh() {
  local dir="$1" tgt="$2"; shift 2
  FP="$(fingerprint)"
  [ "$(cat "$tgt/.fp" 2>/dev/null)" = "$FP" ] && return 0
  if [ -d "$tgt" ]; then
    local a=(); for p in "$@"; do a+=(-p "$p"); done
    (cd "$dir" && cargo clean --offline --target-dir "$tgt" "${a[@]}" >/dev/null 2>&1
     [ -d "$tgt/wasm32-unknown-unknown" ] && cargo clean --offline --target-dir "$tgt" --release --target wasm32-unknown-unknown "${a[@]}" >/dev/null 2>&1)
  fi
  mkdir -p "$tgt"; echo "$FP" >"$tgt/.fp"
}

# build_mon [bin]
build_mon() {
  fresh "$ROOT/harness" "$TGT_MON" openzeppelin-stylus openzeppelin-stylus-proc mon
  local sel=(--bins); [ $# -gt 0 ] && sel=(--bin "$1")
  local log="$ROOT/evidence/build-${1:-all}.log"
  if ! (cd "$ROOT/harness" && cargo build --offline --target-dir "$TGT_MON" "${sel[@]}" >"$log" 2>&1); then
    echo "inconclusive: the monitor does not build against /repo" >&2
    grep -E -A6 '^error' "$log" | head -40 >&2
    return 1
  fi
}

# build_crypto: the crypto monitors, natively and as wasm32.
build_crypto() {
  fresh "$ROOT/crypto" "$TGT_CRYPTO" openzeppelin-crypto cmon
  local l1="$ROOT/evidence/build-crypto.log" l2="$ROOT/evidence/build-wasm.log" rc=0
  (cd "$ROOT/crypto" && cargo build --offline --target-dir "$TGT_CRYPTO" --bin cmon >"$l1" 2>&1) & local a=$!
  (cd "$ROOT/crypto" && cargo build --offline --target-dir "$TGT_CRYPTO" --release --lib --target wasm32-unknown-unknown >"$l2" 2>&1) & local b=$!
  wait $a || rc=1
  wait $b || rc=1
  if [ $rc != 0 ]; then
    echo "inconclusive: the monitor does not build against /repo" >&2
    grep -h -E -A6 '^error' "$l1" "$l2" | head -40 >&2
  fi
  return $rc
}

# run_crypto <property> <mode> [episode]: the wasm32 run first, its report is
# merged into the verdict of the native run.
run_crypto() {
  local bin="$TGT_CRYPTO/debug/cmon" wasm="$TGT_CRYPTO/wasm32-unknown-unknown/release/cmon.wasm"
  export VERIF_WASM=
  if [ "$2" != replay ]; then
    local idx q t n=0 th=0
    read -r idx q t < <("$bin" list | awk -v p="$1" '$1==p{print $2,$3,$4}')
    n="$q"; [ "$2" = thorough ] && { n="$t"; th=1; }
    export VERIF_WASM="$ROOT/evidence/wasm-$1.txt"
    rm -f "$VERIF_WASM"
    node "$ROOT/crypto/run.mjs" "$wasm" "${idx:-0}" "$n" "${VERIF_SEED:-1}" "$th" "$VERIF_WASM" || return 2
  fi
  "$bin" "$@"
}
