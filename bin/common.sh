# Sourced by the check scripts. Exit 0 held, 1 violation, anything else: no verdict.
set -u
export CARGO_NET_OFFLINE=true
: "${VERIF_SEED:=1}" "${VERIF_TIER:=quick}" "${VERIF_OUT:=/verif}"
export VERIF_SEED VERIF_TIER VERIF_OUT
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER

# Cargo trusts modification times. A tree restored from an archive may carry older ones than the
# build products, so the crates under test are marked dirty whenever their content changed.
# fresh <target-dir> <crate-name-globs> <repo-dirs...>
fresh() {
  local tgt=$1 names=$2; shift 2
  local sum
  sum=$(cd /repo && find "$@" -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.js' \) -not -path '*/target/*' -not -path '*/node_modules/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum)
  mkdir -p "$tgt"
  if [ "$(cat "$tgt/.repo-sum" 2>/dev/null)" != "$sum" ]; then
    local n
    for n in $names; do
      find "$tgt" -maxdepth 5 -path '*/.fingerprint/*' -type d -name "$n-*" -prune -exec rm -rf {} +
    done
    printf '%s' "$sum" > "$tgt/.repo-sum"
  fi
}

build() { # build <log> cargo args...
  local log=$1; shift
  if ! timeout 840 cargo "$@" >"$log" 2>&1; then
    tail -40 "$log" >&2
    echo "build failed: no verdict" >&2
    exit 2
  fi
}
