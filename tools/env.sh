# Sourced by every command. Builds happen in /verif/.build (ignored by git).
. /opt/vp/env.sh
V="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
export VERIF_DIR="$V"
export CARGO_TARGET_DIR="$V/.build/target" CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS CARGO_PROFILE_DEV_DEBUG
unset RUSTC_WORKSPACE_WRAPPER
mkdir -p "$V/.build"

# Builds never trust file times alone: other contents of /repo means another build.
fresh() { # NAME CRATE...
    local h old name="$1"; shift
    h="$(cd /repo && find Cargo.toml src python/Cargo.toml python/src -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
    old="$(cat "$V/.build/$name.hash" 2>/dev/null)"
    if [ "$h" != "$old" ] && [ -n "$old" ]; then
        for c in "$@"; do cargo clean -q --offline -p "$c" 2>/dev/null; done
    fi
    echo "$h" > "$V/.build/$name.hash"
}
build_sim() (
    cd "$V/sim" && fresh sim sparseglm simsut &&
        RUSTC_WRAPPER="$V/tools/rustc-wrap" cargo build --offline --locked -q
)
SIM="$V/.build/target/debug/sim"

build_py() (
    export CARGO_TARGET_DIR="$V/.build/pytarget"
    cd "$V/pyext" && fresh pyext sparseglm pyext && gcc -O1 -fPIC -c gil.c -o "$V/.build/gil.o" &&
        RUSTC_WRAPPER="$V/tools/pyext-wrap" GIL_O="$V/.build/gil.o" cargo build --offline --locked -q &&
        mkdir -p "$V/.build/py" && cp "$V/.build/pytarget/debug/libsparseglmpy.so" "$V/.build/py/_lib.so"
)
