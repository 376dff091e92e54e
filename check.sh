#!/bin/bash
# check.sh PROPERTY [thorough]: rebuilds the simulator with /repo's current tree and searches for a violation.
# Exit 0: held on every simulated run. Exit 1 and a VIOLATION line: broken. Exit 2: the check itself failed.
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$here" CARGO_TARGET_DIR="$here/.build" CARGO_NET_OFFLINE=true
mkdir -p "$here/evidence" "$here/replays" "$here/.build"
build() {
    # Modification times say nothing about copied trees: always compile what comes from /repo.
    find "$here/.build/debug/.fingerprint" -maxdepth 1 -type d \( -name 'coffer-*' -o -name 'coffer_macros-*' -o -name 'wtf-8-*' -o -name 'coffersim-*' \) -exec rm -rf {} + 2>/dev/null
    (cd "$here/sim" && cargo build --offline) >"$here/.build/build.log" 2>&1
}
(
    flock 9
    build
) 9>"$here/.build/lock" || { echo "the simulator does not build against /repo:"; grep -A12 '^error' "$here/.build/build.log"; tail -5 "$here/.build/build.log"; exit 2; }
[ "$1" = build ] && exit 0
exec "$here/.build/debug/coffersim" check "$1" ${2:-}
