#!/bin/bash
# Builds the checker against /repo's current working tree (offline). Output: target/release/mc
cd "$(dirname "$0")" || exit 2
HERE=$PWD
export PATH="/root/.cargo/bin:/usr/local/bin:${PATH:-/usr/bin:/bin}"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS=
export CARGO_TARGET_DIR="$HERE/target"
mkdir -p target
# cargo looks at time stamps; a change of contents must be seen whatever its time stamp
H=$(cd /repo && find src Cargo.toml -type f | LC_ALL=C sort | xargs sha256sum | sha256sum)
if [ "$(cat target/repo.hash 2>/dev/null)" != "$H" ]; then
  (cd mc && cargo clean --release --offline -p laz -q 2>/dev/null)
fi
(cd mc && cargo build --release --offline --locked -q 2>"$HERE/target/build.log") || { cat target/build.log; echo "build failed"; exit 2; }
echo "$H" > target/repo.hash
# "./build.sh plain": the same program as users build it, without debug assertions and overflow checks
if [ "$1" = plain ]; then
  [ "$(cat target/plain.hash 2>/dev/null)" = "$H" ] || (cd mc && cargo clean --profile plain --offline -p laz -q 2>/dev/null)
  (cd mc && cargo build --profile plain --offline --locked -q 2>"$HERE/target/build.log") || { cat target/build.log; echo "build failed"; exit 2; }
  echo "$H" > target/plain.hash
fi
# "./build.sh visible": the same program with every operation that other threads can see made a
# scheduling point (wrap.sh)
if [ "$1" = visible ]; then
  [ "$(cat target/visible.hash 2>/dev/null)" = "$H" ] || (cd mc && CARGO_TARGET_DIR="$HERE/target/visible-build" cargo clean --profile visible --offline -p laz -q 2>/dev/null)
  (cd mc && RUSTC_WRAPPER="$HERE/wrap.sh" CARGO_TARGET_DIR="$HERE/target/visible-build" cargo build --profile visible --features visible --offline --locked -q 2>"$HERE/target/build.log") || { cat target/build.log; echo "build failed"; exit 2; }
  echo "$H" > target/visible.hash
fi
true
