#!/bin/bash
# ./check.sh <property id> [quick|thorough]    explore one property (exit 0 held, 1 violated)
# ./check.sh replay <file>                     evaluate one recorded violation again
# ./check.sh build                             only build the explorers against /repo's working tree
here=$(cd "$(dirname "$0")" && pwd)
bin=$here/mc/target/release
# The explorer of a property (each program in mc/src/bin covers a group of them).
program() {
    case "$1" in
    D05) echo mc-r ;;
    J01 | J03 | J04 | J06) echo mc-j ;;
    D* | T*) echo mc-d ;;
    E*) echo mc-e ;;
    S*) echo mc-s ;;
    J*) echo mc-k ;;
    A04 | F*) echo mc-m ;;
    A*) echo mc-a ;;
    X*) echo mc-x ;;
    *)
        echo "ERROR: no such property: $1" >&2
        return 2
        ;;
    esac
}
build() {
    # The crates have a path dependency on /repo: cargo rebuilds them when its sources change.
    local log
    log=$(mktemp)
    if ! cargo build --release --offline --manifest-path "$here/mc/Cargo.toml" "$@" >"$log" 2>&1; then
        cat "$log" >&2
        rm -f "$log"
        echo "ERROR: the harness does not build against /repo" >&2
        return 2
    fi
    rm -f "$log"
}
case "$1" in
build) build --bins || exit 2 ;;
replay)
    p=$(program "$(basename "$2" | cut -d- -f1)") || exit 2
    build --bin "$p" || exit 2
    exec "$bin/$p" replay "$2"
    ;;
*)
    p=$(program "$1") || exit 2
    build --bin "$p" || exit 2
    export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
    exec "$bin/$p" check "$1"
    ;;
esac
