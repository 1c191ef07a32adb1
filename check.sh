#!/bin/bash
# check.sh ID [quick|thorough]   decide property ID on /repo's working tree
# check.sh --replay FILE         run the one case a VIOLATION line names
# check.sh --setup               build every variant the checks need
# Exit: 0 held, 1 violated (VIOLATION line on stdout), 2 error of the check.
export HOME=${HOME:-/root} RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export PATH=/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
cd "$(dirname "$0")" || exit 2
V=$PWD
export MC_ROOT=$V
mkdir -p target evidence replay

# Cargo decides by file times whether raw-cpuid changed; decide by content.
repo_hash() {
    (cd /repo && find Cargo.toml src -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
}

# build FEATURES -> target/<name>/release/mc
# build "" PROFILE -> target/PROFILE/PROFILE/mc
build() {
    local name=${2:-${1:-base}} p=${2:-release} dir h
    dir=$V/target/$name
    mkdir -p "$dir"
    h=$(repo_hash) || exit 2
    if [ "$(cat "$dir/repo.hash" 2>/dev/null)" != "$h" ]; then
        if [ -e "$dir/$p" ]; then
            cargo clean --offline --profile "$p" --manifest-path mc/Cargo.toml --target-dir "$dir" -p raw-cpuid -p mc >/dev/null 2>&1
        fi
        echo none >"$dir/repo.hash"
    fi
    if ! cargo build --quiet --profile "$p" --offline --manifest-path mc/Cargo.toml --target-dir "$dir" --features "$1" 2>"$dir/build.log"; then
        cat "$dir/build.log" >&2
        echo "check.sh: the build of the checker against /repo failed (features: ${1:-none})" >&2
        exit 2
    fi
    echo "$h" >"$dir/repo.hash"
}

# The repository's binary -> target/tool/release/cpuid
build_tool() {
    local dir=$V/target/tool h
    mkdir -p "$dir"
    h=$(repo_hash) || exit 2
    if [ "$(cat "$dir/repo.hash" 2>/dev/null)" != "$h" ]; then
        if [ -e "$dir/release" ]; then
            cargo clean --offline --release --manifest-path tool/Cargo.toml --target-dir "$dir" -p raw-cpuid -p tool >/dev/null 2>&1
        fi
        echo none >"$dir/repo.hash"
    fi
    if ! cargo build --quiet --release --offline --manifest-path tool/Cargo.toml --target-dir "$dir" 2>"$dir/build.log"; then
        cat "$dir/build.log" >&2
        echo "check.sh: the build of the cpuid binary of /repo failed" >&2
        exit 2
    fi
    echo "$h" >"$dir/repo.hash"
    # Tells which environment variables the program reads; without it, fixed ones are tried.
    [ "$dir/spy.so" -nt tool/spy.c ] || gcc -O1 -shared -fPIC -o "$dir/spy.so" tool/spy.c 2>/dev/null || rm -f "$dir/spy.so"
}

# The checker for 32-bit x86 -> target/narrow/i686-unknown-linux-gnu/release/mc
# The standard library is built from its sources and linked with the 32-bit C
# library of the machine, which comes without the files a linker expects.
build_narrow() {
    local dir=$V/target/narrow t=i686-unknown-linux-gnu h n
    mkdir -p "$dir/link"
    h=$(repo_hash) || exit 2
    if [ "$(cat "$dir/repo.hash" 2>/dev/null)" != "$h" ]; then
        if [ -e "$dir/$t" ]; then
            cargo clean --offline --release --target $t --manifest-path mc/Cargo.toml --target-dir "$dir" -p raw-cpuid -p mc >/dev/null 2>&1
        fi
        echo none >"$dir/repo.hash"
    fi
    for n in c.so.6 m.so.6 dl.so.2 pthread.so.0 rt.so.1 util.so.1 gcc_s.so.1; do
        ln -sf "/usr/lib32/lib$n" "$dir/link/lib${n%%.*}.so"
    done
    if ! gcc -m32 -c -o "$dir/link/start.o" mc/start32.s 2>"$dir/build.log" ||
        ! RUSTC_BOOTSTRAP=1 CARGO_TARGET_I686_UNKNOWN_LINUX_GNU_RUSTFLAGS="-Awarnings -Crelocation-model=static -Clink-arg=-nostartfiles -Clink-arg=$dir/link/start.o -Clink-arg=-L$dir/link" \
            cargo build -Zbuild-std=std,panic_unwind --quiet --release --offline --target $t --features display,serialize --manifest-path mc/Cargo.toml --target-dir "$dir" 2>"$dir/build.log"; then
        cat "$dir/build.log" >&2
        echo "check.sh: the build of the checker for 32-bit x86 against /repo failed" >&2
        exit 2
    fi
    echo "$h" >"$dir/repo.hash"
}

# What else a check runs.
extra() {
    case $1 in
    C03) build "" unopt ;;
    C26) for g in display serialize std; do build "$g"; done; build "" plain ;;
    C29) build_tool ;;
    C33) build_narrow ;;
    C34)
        # Miri builds what it interprets; decided by content, as above.
        local h
        h=$(repo_hash) || exit 2
        [ "$(cat "$V/target/foreign/repo.hash" 2>/dev/null)" = "$h" ] || rm -rf "$V/target/foreign"
        mkdir -p "$V/target/foreign" && echo "$h" >"$V/target/foreign/repo.hash"
        ;;
    esac
}

# The checker that decides a property.
binary() {
    if [ "$1" = C33 ]; then
        echo "$V/target/narrow/i686-unknown-linux-gnu/release/mc"
    else
        echo "$V/target/$2/release/mc"
    fi
}

variant() {
    case $1 in
    C23 | C24 | C29) echo display ;;
    C25) echo serialize ;;
    *) echo "" ;;
    esac
}

exec 9>"$V/target/lock"
flock 9

case $1 in
--setup)
    for f in "" display serialize std; do build "$f"; done
    build "" unopt
    build "" plain
    build_tool
    (build_narrow)
    exit 0
    ;;
--replay)
    p=$(sed -n 's/^property //p' "$2")
    f=$(variant "$p")
    build "$f"
    extra "$p"
    b=$(binary "$p" "${f:-base}")
    if grep -q '^build plain' "$2"; then
        build "" plain
        b=$V/target/plain/plain/mc
    fi
    exec "$b" replay "$2"
    ;;
C[0-9][0-9]) ;;
*)
    echo "usage: check.sh ID [quick|thorough] | --replay FILE | --setup" >&2
    exit 2
    ;;
esac

tier=${2:-${VERIF_TIER:-quick}}
f=$(variant "$1")
build "$f"
extra "$1"
[ "$1" = C34 ] && exec "$V/target/base/release/mc" foreign C34 "$tier"
"$(binary "$1" "${f:-base}")" check "$1" "$tier" || exit
case $1 in
C03)
    # Miri builds what it interprets; by content, as above.
    h=$(repo_hash) || exit 2
    [ "$(cat "$V/target/miri/repo.hash" 2>/dev/null)" = "$h" ] || rm -rf "$V/target/miri"
    mkdir -p "$V/target/miri" && echo "$h" >"$V/target/miri/repo.hash"
    exec "$V/target/base/release/mc" interpret C03 "$tier"
    ;;
C2[345689] | C33) exit 0 ;;
esac
# What held with debug assertions and overflow checks must hold without them.
build "" plain
exec "$V/target/plain/plain/mc" check "$1" quick
