#!/bin/bash
# Builds the simulator together with /repo's current working tree, with the simulation seam on.
# A hook into private parts that does not compile (any more) is left out: the properties that
# need no private parts can still be checked then.
unset RUST_BACKTRACE RUST_LIB_BACKTRACE RUST_LOG RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS
here=$(cd "$(dirname "$0")/.." && pwd)
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
mkdir -p "$here/.build"
exec 9>"$here/.build/.lock-build"
flock 9
now=$(cat /repo/Cargo.toml "$here"/harness/Cargo.* $(find /repo/src "$here/harness/src" "$here/shims" -name '*.rs' -o -name '*.toml' | sort) 2>/dev/null | sha256sum | cut -d' ' -f1)
if [ "$(cat "$here/.build/.built" 2>/dev/null)" = "$now" ] && [ -x "$here/.build/simcheck" ]; then
    exit 0
fi
rm -f "$here/.build/.built" "$here/.build/simcheck"
cd "$here/harness" || exit 2
export RUSTC_WRAPPER="$here/tools/rustc.sh" PLUSENDI_WITHOUT=
export CARGO_TARGET_DIR="$here/.build" RUSTFLAGS="--cfg plusendi_sim -Awarnings"
for round in 1 2 3 4 5; do
    rm -rf "$here"/.build/debug/.fingerprint/plusendi-* "$here"/.build/debug/.fingerprint/simcheck-*
    if cargo build --offline --locked --message-format short 9>&- 2>"$here/.build/log"; then
        cat "$here/.build/log" >&2
        ln -sf "$here/.build/debug/simcheck" "$here/.build/simcheck"
        echo "$now" > "$here/.build/.built"
        exit 0
    fi
    cat "$here/.build/log" >&2
    # Errors in a hook, or in the program: leave that out.
    without=$({ grep -o 'src/sim/access_[a-z]*\.rs:[0-9:]* error' "$here/.build/log" | sed 's/.*access_\([a-z]*\)\.rs.*/--cfg plusendi_sim_no_\1/'; grep -q '^[^ ]*src/main\.rs:[0-9:]* error' "$here/.build/log" && [[ $PLUSENDI_WITHOUT != *program* ]] && ! grep -q '^src/main\.rs' "$here/.build/log" && echo '--cfg plusendi_sim_no_program'; } | sort -u | tr '\n' ' ')
    [ -n "$without" ] || exit 2
    PLUSENDI_WITHOUT="$PLUSENDI_WITHOUT $without"
done
exit 2
