#!/bin/bash
# Build the library under test from /repo's working tree into /verif/.build (git-ignored).
# A shadow package (symlinks into /repo, Cargo.toml derived from /repo/Cargo.toml) is needed because
# the optional wchar dependency is an empty submodule.  Exit 2: could not build (tool error).
set -u
REPO=${REPO:-/repo}
HERE=$(cd "$(dirname "$0")/.." && pwd)
B=${VERIF_BUILD:-$HERE/.build}
S=$B/shadow
mkdir -p "$S/.cargo" || exit 2
exec 9>"$B/lock"; flock 9
export RUSTUP_TOOLCHAIN=nightly-2020-07-27 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTFLAGS RUSTC
put() { cmp -s "$1.new" "$1" && rm -f "$1.new" || mv "$1.new" "$1"; }
find "$S" -maxdepth 1 -type l -delete
for f in "$REPO"/*; do
    case ${f##*/} in Cargo.toml|Cargo.lock|target|deps|percase|shadow) ;; *) ln -s "$f" "$S/" ;; esac
done
{
    sed -E '/^wchar[[:space:]]*=/d; s/^(unicode_wchar_t[[:space:]]*=).*/\1 []/' "$REPO/Cargo.toml"
    printf '\n[profile.dev]\nopt-level = 1\ndebug = 1\noverflow-checks = true\ndebug-assertions = true\npanic = "abort"\n'
} > "$S/Cargo.toml.new" && put "$S/Cargo.toml"
[ -f "$S/Cargo.lock" ] || cp /opt/vp/Cargo.lock.rexpat "$S/Cargo.lock"
printf '[source.crates-io]\nreplace-with = "vendored"\n[source.vendored]\ndirectory = "/opt/vp/vendor"\n' > "$S/.cargo/config"
cd "$S" || exit 2
if ! cargo build --offline --lib --bin xmlwf > "$B/build.log" 2>&1; then
    tail -40 "$B/build.log" >&2
    echo "build of the library under test failed" >&2
    exit 2
fi
echo "$S/target/debug/librexpat.so"
