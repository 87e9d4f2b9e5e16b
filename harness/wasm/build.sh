#!/bin/bash
# Builds the WebAssembly package of /repo for Node, offline:  build.sh OUT_DIR
#
# No wasm32 standard library is installed, but its source is (nightly's rust-src, with
# its dependencies), so it is built as well (-Zbuild-std). For that, cargo needs one
# directory that has the dependencies of the standard library and those of /repo.
# wasm-bindgen's command-line tool is built from its source, in the version of
# /repo/Cargo.lock.
set -eu
out=$1
mkdir -p "$out"
cd "$out"
reg=${CARGO_HOME:-$HOME/.cargo}/registry
std=$(rustc +nightly --print sysroot)/lib/rustlib/src/rust/library/vendor
unset CARGO_TARGET_DIR RUSTFLAGS
export CARGO_NET_OFFLINE=true

# The crates: std's as they are, /repo's unpacked from cargo's cache.
mkdir -p vendor
for d in "$std"/*/; do
  n=std-$(basename "$d")
  [ -e "vendor/$n" ] || ln -s "${d%/}" "vendor/$n"
done
awk '/^name = /{gsub(/"/,"",$3);n=$3} /^version = /{gsub(/"/,"",$3);print n"-"$3}' /repo/Cargo.lock | sort -u |
while read -r c; do
  [ -e "vendor/$c/.cargo-checksum.json" ] || [ -e "vendor/std-$c" ] && continue
  f=$(ls "$reg"/cache/*/"$c.crate" 2>/dev/null | head -1) || true
  [ -n "$f" ] || continue
  tar -xzf "$f" -C vendor
  printf '{"files":{},"package":"%s"}' "$(sha256sum < "$f" | cut -d' ' -f1)" > "vendor/$c/.cargo-checksum.json"
done

# The tool.
ver=$(awk '/^name = "wasm-bindgen"$/{getline;gsub(/"/,"",$3);print $3}' /repo/Cargo.lock)
cli=wasm-bindgen-cli-$ver
if [ ! -x "$out/$cli.bin" ]; then
  rm -rf "$out/$cli" # what an interrupted run left
  tar -xzf "$(ls "$reg"/cache/*/"$cli.crate" | head -1)" -C "$out"
  # Not a member of any workspace it happens to lie in.
  grep -q '^\[workspace\]' "$cli/Cargo.toml" || printf '\n[workspace]\n' >> "$cli/Cargo.toml"
  cargo build --release --offline --locked --quiet --manifest-path "$cli/Cargo.toml" --target-dir "$out/cli" --bin wasm-bindgen
  cp "$out/cli/release/wasm-bindgen" "$out/$cli.bin"
  rm -rf "$out/cli"
fi

# The package.
cargo +nightly build --release --offline --locked --quiet --manifest-path /repo/Cargo.toml -p math-core-wasm --features ariadne \
  -Zbuild-std=std,panic_abort --target wasm32-unknown-unknown --target-dir "$out/target" \
  --config 'source.crates-io.replace-with="v"' --config "source.v.directory=\"$out/vendor\""
"$out/$cli.bin" "$out/target/wasm32-unknown-unknown/release/math_core_wasm.wasm" --target nodejs --out-dir "$out/pkg"
