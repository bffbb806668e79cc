#!/bin/bash
# Build the simulator against /repo's current working tree, then run one check:
#   check.sh check --property C01 --tier quick
#   check.sh replay replays/C01-xxxxxxxx.json
# Other subcommands (show, digest) go through as they are.
set -u
cd "$(dirname "$0")/sim" || exit 2
export CARGO_NET_OFFLINE=true
export XSIM_ROOT="$(cd .. && pwd)"
mkdir -p target
build() {
    # cargo looks at modification times only; a tree put back with older times must rebuild too
    local now old
    now=$(cd /repo && { cat Cargo.toml; find src -type f -print0 | sort -z | xargs -0 sha256sum; } | sha256sum | cut -d' ' -f1)
    old=$(cat target/.repo-hash 2>/dev/null)
    if [ "$now" != "$old" ]; then
        rm -f target/.repo-hash
        cargo clean --offline -q -p xecs -p xsim >/dev/null 2>&1
    fi
    # first choice: with hooks at every atomic operation of the crate under test
    RUSTC_WRAPPER="$PWD/rustc-wrap.sh" cargo build --offline -q >target/build.log 2>&1 ||
        cargo build --offline -q >target/build.log 2>&1 || { cat target/build.log >&2; return 1; }
    echo "$now" >target/.repo-hash
}
{
    flock 9
    build || exit 2
} 9>target/.build-lock
if [ "${1:-}" = build ]; then
    exit 0
fi
exec ./target/debug/xsim "$@"
