#!/bin/bash
# Builds the simulation binary from /repo's current working tree (offline).
# Prints nothing when all is well.
export HOME=/root PATH=/usr/local/bin:/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WORKSPACE_WRAPPER CARGO_TARGET_DIR
here=$(cd "$(dirname "$0")" && pwd)
export RUSTC_WRAPPER="$here/sim/rustc-wrap.sh"
cd "$here/sim" || exit 3
mkdir -p target
exec 9> target/.build-lock
flock 9
# cargo looks at modification times: don't depend on them for the code under test
stamp=target/.termimad-hash
hash=$( (cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum; sha256sum "$here"/sim/rustc-wrap.sh; cd "$here/sim" && find src crossterm crossbeam-utils Cargo.toml Cargo.lock -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)
bin=target/debug/termsim
if [ -x "$bin" ] && [ "$(cat "$stamp" 2>/dev/null)" = "$hash" ]; then
  exit 0
fi
rm -f "$stamp"
cargo clean -q --offline -p termimad -p termsim 2>/dev/null
if ! cargo build -q --offline > target/.build-log 2>&1; then
  cat target/.build-log >&2
  echo "HARNESS-ERROR: build failed" >&2
  exit 3
fi
echo "$hash" > "$stamp"
exit 0
