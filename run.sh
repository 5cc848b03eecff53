#!/bin/bash
# usage: run.sh ID [replay FILE]
# Builds what the check needs from /repo's current tree, then runs it as an unprivileged user in a
# scratch directory. Exit 0: held; 1: violated (VIOLATION line); anything else: error of the check.
set -u
VERIF=$(cd "$(dirname "$0")" && pwd)
ID=${1:?usage: run.sh ID [replay FILE]}
MODE=${2:-run}
FILE=${3:-}
REPO=${VC_REPO:-/repo}
. "$VERIF/tools/env.sh"

case "$ID" in
    C01|C12|C18|C21) KIND=${ID/C/c} ;;
    *) KIND=clih ;;
esac

"$VERIF/tools/build.sh" "$KIND" || { echo "ERROR: build failed"; exit 3; }

BASE=/dev/shm
[ -d "$BASE" ] && [ -w "$BASE" ] || BASE=/tmp
[ "$(df --output=avail "$BASE" 2>/dev/null | tail -1)" -gt 4000000 ] 2>/dev/null || BASE=/tmp
S=$(mktemp -d "$BASE/vc.XXXXXX") || exit 3
cleanup() {
    chmod -R u+rwX "$S" 2>/dev/null
    rm -rf "$S"
    [ -z "${JESS:-}" ] || rm -rf /home/jess
}
trap cleanup EXIT
trap 'exit 143' INT TERM
mkdir -p "$S/s" "$S/out" "$S/root"
cp "$TARGET/debug/$KIND" "$S/harness" || exit 3
cp "$TARGET/cli/debug/snapcd" "$S/snapcd" || exit 3
cp "$TARGET/shim.so" "$S/shim.so" || exit 3
cp "$VERIF/known-findings.json" "$S/root/" 2>/dev/null
[ -d "$VERIF/corpus" ] && cp -r "$VERIF/corpus" "$S/root/"
[ -n "$FILE" ] && { cp "$FILE" "$S/replay.json" || exit 3; }
chmod 755 "$S" "$S/harness" "$S/snapcd" "$S/shim.so"
chmod -R a+rX "$S/root"
[ -n "$FILE" ] && chmod a+r "$S/replay.json"

AS=()
if [ "$(id -u)" = 0 ]; then
    chown 65534:65534 "$S/s" "$S/out"
    if setpriv --reuid 65534 --regid 65534 --clear-groups true 2>/dev/null; then
        AS=(setpriv --reuid 65534 --regid 65534 --clear-groups)
    fi
fi
[ -x "$VERIF/tools/pre-$ID.sh" ] && { . "$VERIF/tools/pre-$ID.sh" || exit 3; }

# The directory where checkout is enabled is made on a file system of the check's own.
NS=()
case "$ID" in
    C10)
        mkdir -p "$S/s/dev0" "$S/s/dev1" && chown 65534:65534 "$S/s/dev0" "$S/s/dev1" 2>/dev/null
        if "${AS[@]}" unshare -Urm sh -c "mount -t tmpfs none $S/s/dev0" 2>/dev/null; then
            NS=(unshare -Urm sh -c 'mount -t tmpfs none "$VC_SCRATCH/dev0" && mount -t tmpfs none "$VC_SCRATCH/dev1" && exec "$@"' sh)
        fi ;;
    C14|C19)
        if "${AS[@]}" unshare -Urm sh -c 'mount -t tmpfs none /home' 2>/dev/null; then
            NS=(unshare -Urm sh -c 'mount -t tmpfs -o mode=755 none /home && mkdir -p /home/jess/src/snapcd/repo && exec "$@"' sh)
        elif [ ! -e /home/jess ]; then
            # No namespaces here: an empty directory, removed at the end.
            JESS=/home/jess
            mkdir -p /home/jess/src/snapcd/repo && chown -R 65534:65534 /home/jess || exit 3
        fi ;;
esac

# Runaway memory ends the process that asks for it, not the machine.
ulimit -v 12000000
LIMIT=850
[ "${VERIF_TIER:-quick}" = thorough ] && LIMIT=14000
cd "$S/s" || exit 3
env VC_ROOT="$S/root" VC_BIN="$S/snapcd" VC_SHIM="$S/shim.so" VC_SCRATCH="$S/s" VC_OUT="$S/out" \
    VC_REPLAYS="$VERIF/replays" HOME="$S/s" TMPDIR="$S/s" \
    timeout -k 5 "$LIMIT" "${AS[@]}" "${NS[@]}" "$S/harness" "$MODE" "$ID" "$S/replay.json" &
wait $!
RC=$?
cd "$VERIF" || exit 3
if [ "$MODE" = run ]; then
    mkdir -p "$VERIF/evidence"
    [ -f "$S/out/$ID.json" ] && cp "$S/out/$ID.json" "$VERIF/evidence/$ID.json"
    if [ -d "$S/out/replays" ]; then
        mkdir -p "$VERIF/replays"
        cp "$S/out/replays/"* "$VERIF/replays/"
    fi
fi
case "$RC" in
    0|1) exit "$RC" ;;
    *) echo "ERROR: check $ID ended with status $RC"; exit 2 ;;
esac
