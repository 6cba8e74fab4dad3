#!/bin/bash
# Builds what the checks need from /repo's working tree, offline, into /verif/build.
# usage: build.sh [std|asan|wide|bins ...]      (always: harness and shim)
set -u
V=$(cd "$(dirname "$0")" && pwd)
R=${REPO:-/repo}
B=$V/build
mkdir -p $B || exit 2
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTFLAGS RUSTC CARGO_HOME RUSTUP_TOOLCHAIN
exec 9>$B/.lock; flock 9

die() { echo "build.sh: $*" >&2; exit 2; }

# --- harness and shim ---
( cd $V/harness && RUSTUP_TOOLCHAIN=stable cargo build --release --offline --quiet --target-dir $B/harness-target ) >&2 9>&- &
HP=$!
if [ ! -f $B/libcov.so ] || [ $V/harness/shim.c -nt $B/libcov.so ]; then
    gcc -O2 -fPIC -shared -o $B/libshim.so.new $V/harness/shim.c -ldl && mv $B/libshim.so.new $B/libshim.so || die "shim"
    gcc -O2 -fPIC -shared -DCOVONLY -o $B/libcov.so.new $V/harness/shim.c -ldl && mv $B/libcov.so.new $B/libcov.so || die "shim"
fi

# --- shadow packages: /repo's sources by symlink, manifest without the unavailable submodule ---
# shadow: the shared library only; shadow-bins: everything
for S in $B/shadow $B/shadow-bins; do
    mkdir -p $S/.cargo
    find $S -maxdepth 1 -type l -delete
    for f in $R/*; do
        case ${f##*/} in Cargo.toml | Cargo.lock | target | deps) ;; *) ln -s "$f" $S/ ;; esac
    done
    CT='s/x/x/'; [ $S = $B/shadow ] && CT='s/^(crate-type[[:space:]]*=).*/\1 ["cdylib"]/; /^\[\[(bin|bench)\]\]/,/^$/d'
    sed -E '/^wchar[[:space:]]*=/d; s/^(unicode_wchar_t[[:space:]]*=).*/\1 []/; '"$CT" $R/Cargo.toml > $S/Cargo.toml.new
    cmp -s $S/Cargo.toml.new $S/Cargo.toml && rm $S/Cargo.toml.new || mv $S/Cargo.toml.new $S/Cargo.toml
    cp /opt/vp/Cargo.lock.rexpat $S/Cargo.lock
    printf '[source.crates-io]\nreplace-with = "vendored"\n[source.vendored]\ndirectory = "/opt/vp/vendor"\n' > $S/.cargo/config
done
export RUSTUP_TOOLCHAIN=nightly-2020-07-27 CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_BUILD_OVERRIDE_DEBUG=0 CARGO_PROFILE_DEV_BUILD_OVERRIDE_CODEGEN_UNITS=16

SAN="-Cpasses=sancov -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters"
BASE="-Cpanic=abort -Copt-level=1 -Cdebuginfo=1 -Cdebug-assertions=on -Coverflow-checks=on -Ccodegen-units=16 -Awarnings"

for what in "$@"; do
    case $what in
    std)  F="$BASE $SAN"; A="--lib --target x86_64-unknown-linux-gnu"; D=lib-std ;;
    asan) F="$BASE -Zsanitizer=address $SAN"; A="--lib --target x86_64-unknown-linux-gnu"; D=lib-asan
          P=$(clang-18 -print-file-name=libclang_rt.asan-x86_64.so 2>/dev/null || clang -print-file-name=libclang_rt.asan-x86_64.so)
          echo "$P" > $B/asan-runtime.path ;;
    wide) F="$BASE"; A="--lib --features unicode"; D=lib-wide ;;
    bins) F="-Copt-level=1 -Cdebuginfo=1 -Cdebug-assertions=on -Coverflow-checks=on -Awarnings"; A="--lib --bin xmlwf"; D=bins ;;
    *) die "what is $what?" ;;
    esac
    S=$B/shadow; [ $what = bins ] && S=$B/shadow-bins
    ( cd $S && RUSTFLAGS="$F" cargo build --offline $A --target-dir $B/target-$what ) > $B/build-$what.log 2>&1 9>&- || { tail -30 $B/build-$what.log >&2; die "building /repo ($what)"; }
    mkdir -p $B/$D
    T=$B/target-$what/debug; case $what in asan|std) T=$B/target-$what/x86_64-unknown-linux-gnu/debug ;; esac
    if [ $what = bins ]; then
        cp -f $T/xmlwf $B/$D/ || die "copy bins"
    else
        cmp -s $T/librexpat.so $B/$D/librexpat.so || cp -f $T/librexpat.so $B/$D/librexpat.so || die "copy $what"
    fi
done
wait $HP || die "harness"
exit 0
