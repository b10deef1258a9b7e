#!/bin/bash
# check.sh ID quick|thorough   build the library in /repo and check one property
# check.sh replay FILE         run the case of a replay file again
# check.sh setup               only build
#
# Exit 0: held on everything explored. Exit 1 (with a VIOLATION line): broken.
# Exit 2: the check could not be run.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR RUSTC_WRAPPER

# Build by content, never by time stamps: the output goes to a directory named
# by the hash of the sources of the library and of the checker.
hash=$(cd / && { find "/repo/src" "/repo/Cargo.toml" "$here/mc/src" "$here/mc/Cargo.toml" "$here/mc/wrap.sh" -type f -print0 | sort -z | xargs -0 sha256sum; rustc --version; } | sha256sum | cut -c1-24) || exit 2
target="$here/mc/target/$hash"

build() {
    # $1 profile, $2 directory of its output
    [ -x "$target/$2/mc.ok" ] && return 0
    (
        flock 9
        [ -x "$target/$2/mc.ok" ] && exit 0
        [ "$1" = metered ] && export RUSTC_WRAPPER="$here/mc/wrap.sh"
        cd "$here/mc" && CARGO_TARGET_DIR="$target" cargo build --offline --locked --profile "$1" >"$target/$1.log" 2>&1 || { cat "$target/$1.log" >&2; exit 1; }
        cp "$target/$2/mc" "$target/$2/mc.part" && mv "$target/$2/mc.part" "$target/$2/mc.ok"
    ) 9>"$target/lock"
}

mkdir -p "$target" || exit 2
# Keep the builds of the last few versions only.
ls -dt "$here"/mc/target/*/ 2>/dev/null | tail -n +9 | while read -r old; do
    [ "$old" = "$target/" ] || rm -rf "$old"
done
if ! build release release; then
    echo "check.sh: the library or the checker does not build" >&2
    exit 2
fi
export MC_HOME="$here"
case "${1:-}" in
setup | C01 | replay)
    if ! build unopt unopt; then
        echo "check.sh: the unoptimised build fails" >&2
        exit 2
    fi
    export MC_UNOPTIMISED="$target/unopt/mc.ok"
    ;;
esac
case "${1:-}" in
setup | C20 | C21 | replay)
    if ! build metered metered; then
        echo "check.sh: the metered build fails" >&2
        exit 2
    fi
    export MC_METERED="$target/metered/mc.ok"
    ;;
esac
[ "${1:-}" = setup ] && exit 0
if [ "${1:-}" = replay ]; then
    exec "$target/release/mc.ok" replay "$2"
fi
exec "$target/release/mc.ok" check "$1" "${2:-quick}"
