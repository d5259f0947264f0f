#!/bin/bash
# Builds demo.rs against the libraries in target/debug and runs it in a
# scratch directory. Run with the repository as working directory.
here="$(cd "$(dirname "$0")" && pwd)"
export PATH="/root/.cargo/bin:/usr/local/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
repo="$PWD"
d="$repo/target/debug/deps"
out="$(mktemp -d)" || exit 3
trap 'rm -rf "$out"' EXIT
ext=()
for c in bytes http http_body futures_core futures_sink olio blocking_permit tokio flate2 brotli tempfile; do
  f="$(ls -t "$d"/lib$c-*.rlib 2>/dev/null | head -1)"
  [ -n "$f" ] && ext+=(--extern "$c=$f")
done
for c in body_image barc body_image_futio; do
  ext+=(--extern "$c=$repo/target/debug/lib$c.rlib")
done
rustc --edition 2021 -A warnings -o "$out/demo" "$here/demo.rs" -L "dependency=$d" "${ext[@]}" || exit 3
mkdir "$out/work" && cd "$out/work" || exit 3
BARC_BIN="$repo/target/debug/barc" timeout 120 "$out/demo"
