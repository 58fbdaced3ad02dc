#!/bin/bash
# Usage: check.sh HARNESS PROPERTY [HARNESS]
#                                        builds a harness against /repo's working tree and decides a property; the second
#                                        harness decides its other part and adds to the evidence
#        check.sh --build HARNESS...     only builds
#        check.sh --replay HARNESS FILE  runs one saved case again
cd "$(dirname "$(realpath "$0")")" || exit 2
export VERIF_ROOT=$PWD
export VERIF_REPO=${VERIF_REPO:-/repo}
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=1.98.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset RUSTC_WRAPPER

build() {
  local harness=$1 out=$VERIF_ROOT/.build/$1 hash names
  mkdir -p "$out"
  export CARGO_TARGET_DIR=$out
  unset RUSTFLAGS
  [ -f "harness/$harness/rustflags" ] && export RUSTFLAGS=$(cat "harness/$harness/rustflags")
  # Cargo trusts modification times; the contents decide here.
  hash=$( (
    cd "$VERIF_REPO" && find lib packages cmd Cargo.toml -name target -prune -o -type f \
      \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' -o -name '*.pen' -o -name '*.json' \) -print0 | sort -z | xargs -0 sha256sum
    cd "$VERIF_ROOT" && find harness -name target -prune -o -type f -print0 | sort -z | xargs -0 sha256sum
  ) | sha256sum)
  if [ "$(cat "$out/contents" 2>/dev/null)" != "$hash" ]; then
    if [ -d "$out/release" ]; then
      names=$(cd "harness/$harness" && cargo metadata --offline --filter-platform x86_64-unknown-linux-gnu --format-version 1 2>/dev/null |
        python3 -c 'import json,sys; print(*["-p "+p["name"] for p in json.load(sys.stdin)["packages"] if p["source"] is None])')
      (cd "harness/$harness" && cargo clean --offline --release $names) >/dev/null 2>&1
    fi
    rm -f "$out/contents"
  fi
  if ! (cd "harness/$harness" && cargo build --release --offline --locked) >"$out/log" 2>&1; then
    tail -60 "$out/log" >&2
    echo "ERROR of the check: harness $harness does not build" >&2
    return 2
  fi
  echo "$hash" >"$out/contents"
}

locked_build() {
  mkdir -p .build
  exec 9>".build/$1.lock"
  flock 9
  build "$1"
  local code=$?
  exec 9>&-
  return $code
}

case $1 in
--build)
  shift
  for harness; do
    locked_build "$harness" || exit 2
  done
  ;;
--replay)
  locked_build "$2" || exit 2
  exec ".build/$2/release/$2" replay "$3"
  ;;
*)
  locked_build "$1" || exit 2
  [ -z "$3" ] && exec ".build/$1/release/$1" check "$2"
  ".build/$1/release/$1" check "$2"
  code=$?
  [ $code -ne 0 ] && exit $code
  locked_build "$3" || exit 2
  export PBT_MERGE=1
  exec ".build/$3/release/$3" check "$2"
  ;;
esac
