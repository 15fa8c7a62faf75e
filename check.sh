#!/bin/bash
# usage: check.sh PROPERTY quick|thorough
# Builds the explorer against /repo's current working tree and runs one check.
# exit 0: held, 1: VIOLATION printed, 2: could not be decided.
root="$(cd "$(dirname "$0")" && pwd)"
id="$1"
tier="${2:-quick}"
export HOME="${HOME:-/root}"
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=1.70.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
feat=""
dir="$root/target"
if [ "$id" = C17 ] || [ "$id" = build-prod ]; then
    # the production build of the program, with its compile-time fee owner
    feat="--features prod"
    dir="$root/target/prod"
    export SWAP_PROGRAM_OWNER_FEE_ADDRESS=HfoTxFR1Tm6kGmWgYWD6J7YHVy1UwqSULUGVLXkJqaKN
fi
how="build --release --locked --offline $feat"
link=""
if [ "$id" = C28 ] || [ "$id" = build-meter ]; then
    # the program with its basic blocks and allocations counted
    dir="$root/target/meter"
    export RUSTC_WRAPPER="$root/mc/meter/rustc-metered.sh"
    how="rustc --release --locked --offline --features meter --bin mc"
    link="-- -Clink-arg=$dir/meter.o -Clink-arg=-Wl,--wrap=__udivti3,--wrap=__umodti3"
fi
export CARGO_TARGET_DIR="$dir"
mkdir -p "$dir" "$root/evidence" "$root/replays"
(
    flock 9
    # never trust time stamps: a different source tree is always rebuilt
    h="$(cd /repo && find programs/token-bonding-curve Cargo.toml Cargo.lock -type f \( -name '*.rs' -o -name 'Cargo.*' \) -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)"
    if [ "$(cat "$dir/src.hash" 2>/dev/null)" != "$h" ]; then
        (cd "$root/mc" && cargo clean --release --offline -p token-bonding-curve) >/dev/null 2>&1
        echo "$h" > "$dir/src.hash"
    fi
    if [ -n "$link" ]; then
        gcc -O2 -fPIC -c "$root/mc/meter/meter.c" -o "$dir/meter.o" >"$dir/build.log" 2>&1 || exit 1
    fi
    cd "$root/mc" && cargo $how $link >"$dir/build.log" 2>&1
) 9>"$dir/lock"
rc=$?
if [ $rc -ne 0 ] || [ ! -x "$dir/release/mc" ]; then
    echo "the explorer does not build against /repo:" >&2
    tail -40 "$dir/build.log" >&2
    exit 2
fi
case "$id" in build*) exit 0 ;; esac
exec "$dir/release/mc" "$id" "$tier" "$root"
