#!/bin/bash
# usage: build.sh clih|c01|c12|c18|c21|all
# Builds snapcd (from /repo's working tree), the fault injector and the harnesses.
VERIF=$(cd "$(dirname "$0")/.." && pwd)
. "$VERIF/tools/env.sh"
LIBH=${VC_LIBH:-$VERIF/libh}
mkdir -p "$TARGET"
LOG=$TARGET/build-$$.log
exec 9>"$TARGET/.lock"
flock 9
fail() {
    tail -n 40 "$LOG"
    rm -f "$LOG"
    exit 1
}
# Cargo decides by time stamps whether a source changed. A copied tree may have old ones, so compare contents.
sum=$(cd "$REPO" && { find src -type f -print0 | sort -z | xargs -0 sha256sum; sha256sum Cargo.toml Cargo.lock; } | sha256sum)
vsum=$(cd "$VERIF" && { find clih/src libh/src -type f -print0 | sort -z | xargs -0 sha256sum; sha256sum clih/Cargo.* libh/Cargo.*; } | sha256sum)
if [ "$sum" != "$(cat "$TARGET/.repo-sum" 2>/dev/null)" ]; then
    rm -f "$TARGET/.repo-sum"
    cargo clean --offline -p snapcd --manifest-path "$REPO/Cargo.toml" --target-dir "$TARGET/cli" >/dev/null 2>&1
    cargo clean --offline -p snapcd -p libh --manifest-path "$LIBH/Cargo.toml" --target-dir "$TARGET" >/dev/null 2>&1
fi
if [ "$vsum" != "$(cat "$TARGET/.verif-sum" 2>/dev/null)" ]; then
    rm -f "$TARGET/.verif-sum"
    cargo clean --offline -p vc --manifest-path "$VERIF/clih/Cargo.toml" --target-dir "$TARGET" >/dev/null 2>&1
    cargo clean --offline -p vc -p libh --manifest-path "$LIBH/Cargo.toml" --target-dir "$TARGET" >/dev/null 2>&1
fi
# The dependencies are optimised, snapcd itself is not (faster to build), with all debug checks on.
cargo build --locked --offline --bin snapcd --manifest-path "$REPO/Cargo.toml" --target-dir "$TARGET/cli" \
    --config 'profile.dev.package."*".opt-level=2' --config 'profile.dev.opt-level=0' >"$LOG" 2>&1 || fail
case "$1" in clih|all)
    cargo build --locked --offline --manifest-path "$VERIF/clih/Cargo.toml" --target-dir "$TARGET" >"$LOG" 2>&1 || fail ;;
esac
if [ "$1" != clih ]; then
    for bin in c01 c12 c18 c21; do
        [ "$1" = all ] || [ "$1" = $bin ] || continue
        cargo build --locked --offline --bin $bin --manifest-path "$LIBH/Cargo.toml" --target-dir "$TARGET" >"$LOG" 2>&1 || fail
    done
fi
if [ ! -f "$TARGET/shim.so" ] || ! cmp -s "$VERIF/shim/shim.c" "$TARGET/shim.c"; then
    cc -O2 -g -Wall -Wno-nonnull-compare -U_FORTIFY_SOURCE -fno-builtin -shared -fPIC -o "$TARGET/shim.so" "$VERIF/shim/shim.c" -ldl -lpthread >"$LOG" 2>&1 || fail
    cp "$VERIF/shim/shim.c" "$TARGET/shim.c"
fi
# Only a complete build leaves the stamps; libh and clih are each always brought up to date by cargo.
echo "$sum" >"$TARGET/.repo-sum"
echo "$vsum" >"$TARGET/.verif-sum"
rm -f "$LOG"
exit 0
