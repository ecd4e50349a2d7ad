#!/bin/bash
# run.sh setup            build everything
# run.sh check ID [TIER]  run one check (TIER quick or thorough; default VERIF_TIER or quick)
# run.sh replay FILE      run one recorded case again
# Builds from /repo's current working tree, outside it.
set -u
cd "$(dirname "$(readlink -f "$0")")" || exit 3
export VERIF_DIR=$PWD
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR RUST_BACKTRACE
mkdir -p harness/target evidence
LOG=harness/target/build.$$.log

run_build() { # name, command...
  local name=$1; shift
  if ! "$@" > "$LOG" 2>&1; then
    grep -A12 -E '^error' "$LOG" | head -60
    echo "ERROR: building $name failed"
    rm -f "$LOG"
    exit 3
  fi
  rm -f "$LOG"
}

build_harness() {
  run_build "the harness" env RUSTUP_TOOLCHAIN=stable cargo build --offline --manifest-path harness/Cargo.toml
}

# The command line tool and the web API, with the repository's own toolchain.
REPO_ENV=(env RUSTUP_TOOLCHAIN=1.77.2 CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TARGET_DIR="$PWD/harness/target/repo")
build_cli() {
  run_build "twiggy" "${REPO_ENV[@]}" cargo build --offline --manifest-path /repo/twiggy/Cargo.toml --bin twiggy
  export TWV_TWIGGY=$PWD/harness/target/repo/debug/twiggy
}
build_web() {
  run_build "the web API" "${REPO_ENV[@]}" cargo build --offline --manifest-path /repo/wasm-api/Cargo.toml --target wasm32-unknown-unknown
  export TWV_WEB=$PWD/harness/target/repo/wasm32-unknown-unknown/debug/twiggy_wasm_api.wasm
}
# The coverage-guided search of the thorough tier: libFuzzer around the checks
# that run the code under test in their own process.
build_guided() {
  local san=-Cllvm-args=-sanitizer-coverage
  if env RUSTUP_TOOLCHAIN=stable RUSTFLAGS="--cfg fuzzing -Cpasses=sancov-module $san-level=4 $san-inline-8bit-counters $san-pc-table $san-trace-compares" \
      cargo build --offline --release --target x86_64-unknown-linux-gnu --manifest-path fuzz/Cargo.toml --target-dir fuzz/target > "$LOG" 2>&1; then
    export TWV_FUZZ=$PWD/fuzz/target/x86_64-unknown-linux-gnu/release/tape
  else
    grep -A6 -E '^error' "$LOG" | head -20
    echo "the coverage-guided search was not built; only the generated cases count"
  fi
  rm -f "$LOG"
}
needs() {
  case $1 in
    C15|C16|C18|C19|C21|C27) build_cli ;;
    C22) build_cli; build_web ;;
  esac
}

case "${1:-}" in
  setup)
    build_harness
    build_cli
    build_web
    ;;
  check)
    export VERIF_TIER=${3:-${VERIF_TIER:-quick}}
    export VERIF_SEED=${VERIF_SEED:-1}
    build_harness
    needs "$2"
    if [ "$VERIF_TIER" = thorough ]; then
      case $2 in
        C18|C19|C21|C22|C27) ;;
        *) build_guided ;;
      esac
    fi
    harness/target/debug/twv check "$2"
    exit $?
    ;;
  replay)
    build_harness
    needs "$(sed -n 's/^property //p' "$2" | head -1)"
    harness/target/debug/twv replay "$2"
    exit $?
    ;;
  *)
    sed -n 2,4p "$0"
    exit 2
    ;;
esac
