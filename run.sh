#!/bin/bash
# run.sh <property>      build from /repo's working tree and run one check
# run.sh replay FILE     run one recorded case again
# run.sh setup           build everything once
# Environment: VERIF_SEED, VERIF_TIER (quick|thorough), VERIF_SCALE (factor on
# the number of cases), VERIF_NOFUZZ=1 (skip the coverage-guided phase).
cd "$(dirname "$0")" || exit 2
V=$PWD
export HOME=${HOME:-/root}
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER CARGO_TARGET_DIR
T=x86_64-unknown-linux-gnu

# build <target dir> <wrapper> <cargo arguments...>
build() {
    local dir=$1 wrapper=$2 log
    shift 2
    mkdir -p "$dir"
    # cargo goes by modification times; forget what was built from /repo and
    # from here, so that restored files are seen
    rm -rf "$dir/release/.fingerprint"/osmpbf-* "$dir/$T/release/.fingerprint"/osmpbf-* \
        "$dir/$T/release/.fingerprint"/harness-* "$dir/$T/release/.fingerprint"/guard-*
    log=$dir/build.log
    if ! (cd "$V/harness" && CARGO_TARGET_DIR=$dir RUSTC_WRAPPER=$wrapper \
        cargo build --release --offline --locked --target $T "$@") >"$log" 2>&1; then
        echo "BUILD-ERROR: see below"
        grep -E "^error" -A 12 "$log" | head -60
        tail -5 "$log"
        exit 2
    fi
}
check() { build "$V/target" "$V/harness/rustc-cov.sh" --bin check; }
fuzz() { build "$V/target-fuzz" "$V/harness/rustc-fuzz.sh" --features fuzz --bin fuzz; }
backend() { build "$V/target-$1" "$V/harness/rustc-cov.sh" --no-default-features --features "$1" --bin check; }

exec 9>"$V/.build.lock"
flock 9

case "$1" in
setup)
    check
    fuzz
    backend zlib
    backend zlib-ng
    exit 0
    ;;
replay)
    case "$2" in
    *-zlib.replay) backend zlib; B=$V/target-zlib ;;
    *-zlib-ng.replay) backend zlib-ng; B=$V/target-zlib-ng ;;
    *) check; B=$V/target ;;
    esac
    flock -u 9
    exec "$B/$T/release/check" replay "$2"
    ;;
C23)
    check
    backend zlib
    backend zlib-ng
    flock -u 9
    mkdir -p "$V/evidence" "$V/out"
    parts=()
    for b in rust-zlib zlib zlib-ng; do
        d=$V/target
        [ $b = rust-zlib ] || d=$V/target-$b
        ev=$V/out/C23-$b.json
        rm -f "$ev"
        echo "backend $b:"
        VERIF_BACKEND=$b VERIF_EVIDENCE=$ev "$d/$T/release/check" C23
        rc=$?
        parts+=("$ev")
        python3 "$V/tools/merge_evidence.py" "$V/evidence/C23.json" "${parts[@]}" || exit 2
        [ $rc = 0 ] || exit $rc
    done
    exit 0
    ;;
C[0-9]*)
    check
    if [ -z "$VERIF_NOFUZZ" ]; then
        fuzz
        export VERIF_FUZZ_BIN=$V/target-fuzz/$T/release/fuzz
    fi
    flock -u 9
    exec "$V/target/$T/release/check" "$1"
    ;;
*)
    sed -n 2,7p "$0"
    exit 2
    ;;
esac
