#!/bin/bash
# make.sh <program> <dir>   copies the demonstration harness into a planted bug's folder
here=$(cd "$(dirname "$0")" && pwd)
p=$1 d=$2
mkdir -p "$d/crate/src" "$d/crate/svm/src" "$d/crate/decimal/src"
cp "$here/../decimal/Cargo.toml" "$d/crate/decimal/"
cp "$here"/../decimal/src/*.rs "$d/crate/decimal/src/"
cp "$here/../svm/Cargo.toml" "$d/crate/svm/"
cp "$here"/../svm/src/{hash,tok}.rs "$d/crate/svm/src/"
sed -e '/^pub mod bfs;/d' -e '/^pub mod report;/d' "$here/../svm/src/lib.rs" >"$d/crate/svm/src/lib.rs"
cp "$here/$p"/src/*.rs "$d/crate/src/"
m=fmc; [ $p = amm ] && m=amc
sed -e 's/^use crate::judge::St;$/use crate::sim::St;/' "$here/../$m/src/kit.rs" >"$d/crate/src/kit.rs"
sed -e "s/@P@/$p/g" "$here/Cargo.toml.in" >"$d/crate/Cargo.toml.in"
sed -e "s/^name = \"$m\"$/name = \"demo\"/" "$here/../$m/Cargo.lock" >"$d/crate/Cargo.lock"
cp "$here/demo.sh" "$d/demo.sh"
