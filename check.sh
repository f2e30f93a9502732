#!/bin/bash
# check.sh ID [quick|thorough] [driver options]   -- decide one property on /repo's working tree
# check.sh --setup                                -- build everything once
# Exit: 0 held, 1 violation (with a VIOLATION line), anything else: error of the check.
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 3
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTC_WRAPPER RUSTUP_TOOLCHAIN CARGO_ENCODED_RUSTFLAGS
export CARGO_NET_OFFLINE=true RUSTFLAGS="--cap-lints warn" CARGO_TERM_COLOR=never
work="$here/.work"
mkdir -p "$work" || exit 3

build() { # workspace binary
    local log="$work/build-$2.log"
    python3 tools/vendor.py "$work/vendor" "$1/Cargo.lock" >"$log" 2>&1 || { cat "$log" >&2; return 1; }
    (cd "$1" && CARGO_TARGET_DIR="$work/target-$1" cargo build --locked --offline -q -p "$2") >>"$log" 2>&1 || { tail -60 "$log" >&2; return 1; }
}
target() {
    case "$1" in
    C*|W*) ws=harness bin=puckchk ;;
    L*) ws=lv bin=lvchk ;;
    E*) ws=lv bin=appchk ;;
    *) echo "unknown property $1" >&2; exit 3 ;;
    esac
}

if [ "$1" = --setup ]; then
    build harness puckchk || exit 3
    build lv lvchk || exit 3
    build lv appchk || exit 3
    exit 0
fi
id="$1"; shift
target "$id"
build $ws $bin || { echo "check.sh: the harness does not build against /repo" >&2; exit 3; }
"$work/target-$ws/debug/$bin" "$id" "$@" --out "$here" --known "$here/known_findings.txt"
rc=$?
case $rc in 0|1) exit $rc ;; *) echo "check.sh: no verdict (the driver ended with $rc)" >&2; exit 3 ;; esac
