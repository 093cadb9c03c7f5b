#!/bin/bash
# prepare.sh REPO DEST: a copy of this crate with the sources of the generators in it
HERE=$(cd "$(dirname "$0")" && pwd)
R=$1 D=$2
mkdir -p "$D/gen/src" || exit 1
cp -a "$HERE/../refpg" "$HERE/../data" "$D/" || exit 1
# the parser generator first, with its main function out of the way
cp -a "$R/crates/parser-generator/." "$D/gen/" && rm -rf "$D/gen/target" "$D/gen/build.rs" || exit 1
sed -i 's/^\(pub \)\?fn main()/#[allow(dead_code)]\nfn generator_main()/' "$D/gen/src/main.rs"
cp -a "$R/crates/lexer-generator/src/flex_file.rs" "$D/gen/src/flex_file.rs"
cp -a "$HERE/Cargo.toml" "$D/gen/Cargo.toml" && cp -a "$HERE/src/entry" "$HERE/src/entry.rs" "$D/gen/src/" || exit 1
cp -a "$HERE/Cargo.lock" "$D/gen/" 2> /dev/null
sed -i "s#\"/repo/#\"$R/#" "$D/gen/Cargo.toml"
# C20 needs nothing of the parser generator
cat > "$D/gen/src/small.rs" <<'X'
mod entry;
#[cfg(feature = "flex")]
mod flex_file;
fn main() {
    entry::main()
}
X
cat >> "$D/gen/src/main.rs" <<'X'

mod entry;
#[cfg(feature = "flex")]
mod flex_file;
fn main() {
    entry::main()
}
X
cat >> "$D/gen/Cargo.toml" <<'X'

[[bin]]
name = "gen"
path = "src/main.rs"
required-features = ["tables"]

[[bin]]
name = "gen-small"
path = "src/small.rs"
X
