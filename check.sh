#!/usr/bin/env bash
# check.sh <ID> [--thorough]   decide one property on /repo's current tree
# check.sh replay <file>       re-run a recorded violation
# check.sh build               only build the explorer
set -u
verif=$(cd "$(dirname "$0")" && pwd)
cd "$verif" || exit 3
export CARGO_TARGET_DIR="$verif/target" CARGO_NET_OFFLINE=true
export RUSTFLAGS="-Awarnings"
build() {
    # The lock file is refreshed from the committed one, so that a build never depends on an earlier run
    if ! cargo build --quiet --offline --manifest-path harness/Cargo.toml 2>"$verif/target/build.log"; then
        cat "$verif/target/build.log" >&2
        echo "ERROR: building the explorer against /repo failed" >&2
        exit 3
    fi
}
mkdir -p "$verif/target"
(
    flock 9
    build
) 9>"$verif/target/.check-lock" || exit 3
mc="$verif/target/debug/mc"
case "${1:-}" in
    build) exit 0 ;;
    replay) exec "$mc" replay "$2" ;;
    "") echo "usage: check.sh <ID> [--thorough] | replay FILE | build" >&2; exit 2 ;;
esac
tier=${VERIF_TIER:-quick}
case "${2:-}" in --thorough | thorough) tier=thorough ;; --quick | quick) tier=quick ;; esac
exec "$mc" check "$1" --tier "$tier" --verif "$verif"
