#!/bin/bash
# Builds the harness from /repo's working tree and decides one property.
#   check.sh setup            build only
#   check.sh <ID>             run the check (VERIF_SEED, VERIF_TIER from the environment)
#   check.sh <ID> --replay F  re-run one recorded case
# Exit: 0 held, 1 violated (VIOLATION line), 2 error of the check.
set -u
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
ID=${1:?property id or setup}
shift
export CARGO_NET_OFFLINE=true
build() {
    (cd "$VERIF/harness" &&
        RUSTFLAGS="--cfg volaris_verif" cargo build --release --offline --locked --quiet --target-dir "$VERIF/target") || return 1
    gcc -O1 -shared -fPIC -Wall -Wno-format-truncation -o "$VERIF/target/shim.so" "$VERIF/shim/shim.c" -ldl -lpthread || return 1
}
LOG=$(mktemp /tmp/vh-build.XXXXXX) || exit 2
if ! build >"$LOG" 2>&1; then
    tail -n 60 "$LOG"
    rm -f "$LOG"
    echo "ERROR the harness does not build"
    exit 2
fi
rm -f "$LOG"
[ "$ID" = setup ] && exit 0

# Everything the code under test may touch lies in a directory of an unprivileged user.
S=$(mktemp -d /tmp/vh-run.XXXXXXXX) || exit 2
mkdir "$S/bin" "$S/work" "$S/tmp" "$S/out"
cp "$VERIF/target/release/vh" "$VERIF/target/release/volaris" "$VERIF/target/shim.so" "$S/bin/" || exit 2
REPLAY=()
if [ "${1:-}" = --replay ]; then
    cp "$2" "$S/replay.json" || exit 2
    REPLAY=(--replay "$S/replay.json")
fi
chmod 755 "$S" "$S/bin" "$S/bin/"*
chown -R 65534:65534 "$S/work" "$S/tmp" "$S/out"
cd "$S/work" || exit 2
ulimit -v 25165824 # what runs away must not take the sandbox with it
env -i PATH=/usr/bin:/bin HOME="$S/work" LC_ALL=C.UTF-8 TMPDIR="$S/tmp" VH_SCRATCH="$S/work" VH_BIN="$S/bin" \
    VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}" \
    ${VH_DEBUG:+VH_DEBUG=$VH_DEBUG} ${VH_SCALE:+VH_SCALE=$VH_SCALE} ${VH_SUB:+VH_SUB=$VH_SUB} \
    setpriv --reuid=65534 --regid=65534 --clear-groups \
    "$S/bin/vh" "$ID" --out "$S/out" "${REPLAY[@]}" 2>"$S/err"
RC=$?
if [ -n "${VH_DEBUG:-}" ] || [ $RC -gt 1 ]; then tail -c 6000 "$S/err" >&2; fi
cd "$VERIF" || exit 2
mkdir -p "$VERIF/evidence" "$VERIF/replays"
[ -d "$S/out/evidence" ] && cp "$S/out/evidence/"*.json "$VERIF/evidence/"
[ -d "$S/out/replays" ] && cp "$S/out/replays/"*.json "$VERIF/replays/"
case "$S" in /tmp/vh-run.*) rm -rf "$S" ;; esac
case $RC in 0 | 1) exit $RC ;; *) exit 2 ;; esac
