#!/bin/bash
# Runs the repository's own unit tests of BOTH programs (incl. the ones the
# official partial build leaves out) against the `decimal` stand-in, in a
# scratch copy. Usage: run.sh [SCRATCH]
set -e
here=$(cd "$(dirname "$0")" && pwd); . "$here/../env.sh"
s=${1:-$(mktemp -d)}; mkdir -p "$s"; rm -rf "$s/farming" "$s/amm"
cp -a /repo/programs/farming /repo/programs/amm "$s/"
for p in farming amm; do
  sed -i -e '/^anchortest/d' -e '/^criterion/d' -e '/^rand =/d' -e '/^pretty_assertions/d' -e '/^\[\[bench/,$d' \
    -e "s#^proptest = .*#proptest = { path = \"$here/proptest-shim\" }#" "$s/$p/Cargo.toml"
  rm -rf "$s/$p/tests" "$s/$p/benches"
  printf '\n[patch."https://github.com/aldrin-exchange/solana-decimal"]\ndecimal = { path = "%s/../decimal" }\n[workspace]\n[profile.dev]\nopt-level = 2\n' "$here" >> "$s/$p/Cargo.toml"
  cp /repo/Cargo.lock "$s/$p/Cargo.lock"
  (cd "$s/$p" && CARGO_TARGET_DIR=$s/target cargo test --offline --lib 2>&1 | grep -E "^test |test result|panicked|error" )
done
