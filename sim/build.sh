#!/bin/bash
# sim/build.sh [js|threads|all]: builds the simulated operating system, the simulated programs (from /repo's
# working tree) and the simulator, or with "js" the JavaScript packages and the native driver, under
# /verif/sim/target (ignored by git).
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=${ZKSIM_REPO:-/repo}
t=${ZKSIM_TARGET:-$here/target}
mkdir -p "$t"
exec 9>"$t/.lock"
flock 9
. /opt/vp/env.sh
unset CARGO_TARGET_DIR RUSTFLAGS
# cargo looks at times only: make it look at contents
stamp=$(cd "$repo" && find . -path ./target -prune -o -path ./.git -prune -o -path '*/node_modules' -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.json' -o -name '*.circom' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$(cat "$t/stamp" 2>/dev/null)" != "$stamp" ]; then
  (cd "$here/driver" && CARGO_TARGET_DIR="$t/driver" cargo clean --offline --release -p zk-regex-compiler -p zk-regex-apis -p zksim-driver >/dev/null 2>&1 || true)
  echo "$stamp" > "$t/stamp"
fi
(cd "$here/driver" && CARGO_TARGET_DIR="$t/driver" cargo build --offline --release -q)
if [ "$1" = js ] || [ "$1" = all ]; then
  if [ "$(cat "$t/stamp-js" 2>/dev/null)" != "$stamp" ]; then
    # the lock file of the workspace is not tracked: without one cargo could not choose offline
    src=$t/js/src
    rm -rf "$src"
    mkdir -p "$src/packages"
    cp "$repo/Cargo.toml" "$src/"
    if [ -e "$repo/Cargo.lock" ]; then cp "$repo/Cargo.lock" "$src/"; else cp "$here/js/Cargo.lock" "$src/"; fi
    for p in apis compiler; do
      mkdir -p "$src/packages/$p"
      cp "$repo/packages/$p/Cargo.toml" "$src/packages/$p/"
      cp -r "$repo/packages/$p/src" "$src/packages/$p/"
      [ ! -e "$repo/packages/$p/build.rs" ] || cp "$repo/packages/$p/build.rs" "$src/packages/$p/"
    done
    find "$src" -name '*.rs' -exec touch {} +
    for p in apis compiler; do
      checks="profile.release.package.zk-regex-$p"
      cargo build --config "$checks.overflow-checks=true" --config "$checks.debug-assertions=true" --offline --release --lib -q --target wasm32-unknown-unknown -p "zk-regex-$p" --manifest-path "$src/Cargo.toml" --target-dir "$t/js/build"
      /opt/vp/tools/bin/wasm-bindgen "$t/js/build/wasm32-unknown-unknown/release/zk_regex_$p.wasm" --target nodejs --out-dir "$t/js/pkg-$p"
    done
    echo "$stamp" > "$t/stamp-js"
  fi
fi
if [ "$1" != js ]; then
  gcc -O2 -mno-red-zone -fPIC -shared -fvisibility=hidden -fno-builtin-malloc -o "$t/shim.so.new" "$here/shim/shim.c" -ldl -lpthread
  mv "$t/shim.so.new" "$t/shim.so"
  if [ "$1" = threads ] || [ "$1" = all ]; then
    if [ "$(cat "$t/stamp-threads" 2>/dev/null)" != "$stamp" ]; then
      (cd "$here/driver" && CARGO_TARGET_DIR="$t/threads" cargo clean --offline --release -p zk-regex-compiler -p zk-regex-apis -p zksim-driver >/dev/null 2>&1 || true)
      echo "$stamp" > "$t/stamp-threads"
    fi
    (cd "$here/driver" && ZKSIM_SHIM=$t/shim.so RUSTC_WRAPPER=$here/instrument.sh CARGO_TARGET_DIR="$t/threads" cargo build --offline --release -q --bin driver)
  fi
  (cd "$here/harness" && CARGO_TARGET_DIR="$t/harness" cargo build --offline --release -q)
fi
