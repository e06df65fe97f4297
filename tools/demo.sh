#!/bin/bash
# Compiles /repo's crate (cwd) together with the test beside this script and runs it: 0 = the behaviour holds.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cp -r src Cargo.lock "$T/" || exit 3
find "$T/src" -name '*.rs' -exec sed -i 's/^#\[cfg(test)\]$/#[cfg(any())]/' {} +
sed -e 's/^crate_type *=.*/crate_type = ["rlib"]/' -e 's/^crate-type *=.*/crate-type = ["rlib"]/' Cargo.toml > "$T/Cargo.toml"
printf '\n[workspace]\n[profile.dev]\ndebug=false\nopt-level=0\nincremental=false\n' >> "$T/Cargo.toml"
printf '\n#[cfg(test)]\n#[path = "%s/vp_stubs.rs"]\nmod vp_stubs;\n#[cfg(test)]\n#[path = "%s/vp_demo.rs"]\nmod vp_demo;\n' "$D" "$D" >> "$T/src/lib.rs"
cd "$T" || exit 3
export CARGO_TARGET_DIR="$T/target" CARGO_NET_OFFLINE=true VP_SCRATCH="$T/scratch"
mkdir -p "$VP_SCRATCH"
unset RUSTFLAGS
timeout 280 cargo test --offline --lib vp_demo -- --test-threads 1 > "$T/log" 2>&1
rc=$?
tail -15 "$T/log"
grep -q "^test result: ok. [1-9]" "$T/log" && [ $rc = 0 ] && exit 0
exit 1
