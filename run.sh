#!/bin/bash
# run.sh <property> [quick|thorough]   build what the property's check needs from /repo and run it
# run.sh setup                         build everything
cd "$(dirname "$0")" || exit 2
V=$PWD
. ./env.sh
mkdir -p target evidence replays gen
# cargo trusts file times; the copies these checks run in need not keep them, so compare contents
H=$(cd /repo && find . \( -path ./target -o -path ./.git -o -path '*/target' \) -prune -o -type f \( -name '*.rs' -o -name '*.pest' -o -name Cargo.toml \) -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
if [ "$(cat target/repo.hash 2>/dev/null)" != "$H" ]; then
  rm -f "$V/target/repo.hash"
  cargo clean -q --offline --manifest-path harness/Cargo.toml -p graphviz-rust -p dot-structures -p dot-generator -p into-attr -p into-attr-derive >/dev/null 2>&1
fi
if ! cargo build -q --offline --locked --manifest-path harness/Cargo.toml >target/build.log 2>&1; then
  cat target/build.log >&2
  echo "the harness does not build against /repo" >&2
  exit 2
fi
if ! RUSTFLAGS="-C target-feature=+crt-static" cargo build -q --offline --locked --manifest-path fakedot/Cargo.toml --target x86_64-unknown-linux-gnu --target-dir target/fd >target/build.log 2>&1; then
  cat target/build.log >&2
  exit 2
fi
echo "$H" > target/repo.hash
[ "$1" = setup ] && exit 0
tier=${2:-${VERIF_TIER:-quick}}
exec target/debug/mc "$1" "$tier"
