#!/bin/bash
# Build the harness against /repo's working tree and run it. Usage: run.sh check <id> ... | replay <file>
cd "$(dirname "$0")" || exit 3
export CARGO_TARGET_DIR="$PWD/harness/target" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
# Cargo compares modification times; a tree that was put in place with old times must be rebuilt, too.
repo=$(sed -n 's/^orc-format = .*path = "\([^"]*\)".*/\1/p' harness/Cargo.toml)
sum=$(cd "$repo" && find src protos Cargo.toml -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-64)
if [ "$sum" != "$(cat "$CARGO_TARGET_DIR/orc-format.sum" 2>/dev/null)" ]; then
  for f in release plain; do cargo clean --profile $f --offline --manifest-path harness/Cargo.toml -p orc-format >/dev/null 2>&1; done
  mkdir -p "$CARGO_TARGET_DIR" && echo "$sum" > "$CARGO_TARGET_DIR/orc-format.sum"
fi
# Two builds: with overflow checks and debug assertions, and plain.
build() {
  cargo build --profile $1 --offline --manifest-path harness/Cargo.toml --bin orc-verif 2>&1
}
mkdir -p "$CARGO_TARGET_DIR"
plain_log="$CARGO_TARGET_DIR/plain.log"
build plain >"$plain_log" & plain=$!
log=$(build release)
one=$?
wait $plain
two=$?
if [ $one -ne 0 ] || [ $two -ne 0 ]; then
  { echo "$log"; cat "$plain_log"; } | grep -E "^error" -A8 | head -60
  echo "ERROR: the harness does not build against /repo"
  exit 3
fi
exec harness/target/release/orc-verif "$@"
