#!/bin/bash
# ./run.sh ID [--replay FILE]   decides property ID on /repo's current working tree
# ./run.sh --build              builds every harness (setup_cmd)
ROOT=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$ROOT HOME=${HOME:-/root}
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
ulimit -c 0

crate_of() {
    case $1 in
        C01|C02|C03|C04) echo kyber ;;
        C05|C06|C07|C08) echo noise ;;
        C09|C10|C11|C12|C13|C14|C32) echo session ;;
        C15) echo lines ;;
        C16|C17) echo rac ;;
        C27) echo processor ;;
        C30) echo real ;;
        C18|C19|C20|C21|C22|C23|C24|C25|C26|C31|C33) echo net ;;
        *) return 1 ;;
    esac
}

# Builds mc/$1 from /repo's current content. Cargo trusts modification times; the content hash does not.
build() {
    local c=$1 dir=$ROOT/mc/$1 tgt=$ROOT/target/$1 stamp now log
    stamp=$tgt/.repo-stamp
    log=$tgt/build.log
    mkdir -p "$tgt"
    now=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
    if [ -s "$dir/repo-packages" ] && [ -f "$stamp" ] && [ "$(cat "$stamp")" != "$now" ]; then
        (cd "$dir" && cargo clean --offline --release --target-dir "$tgt" $(cat "$dir/repo-packages") >/dev/null 2>&1)
    fi
    [ -x "$dir/prepare.sh" ] && { "$dir/prepare.sh" >"$log" 2>&1 || { tail -n 40 "$log"; return 1; }; }
    if ! (cd "$dir" && cargo build --offline --release --locked --target-dir "$tgt") >"$log" 2>&1; then
        grep -A 20 -E '^error' "$log" | head -n 80
        echo "build of mc/$c failed"
        return 1
    fi
    echo "$now" >"$stamp"
}

if [ "$1" = --build ]; then
    for d in "$ROOT"/mc/*/; do
        c=$(basename "$d")
        [ -f "$d/repo-packages" ] || continue
        build "$c" || exit 2
    done
    exit 0
fi

c=$(crate_of "$1") || { echo "unknown property $1"; exit 2; }
build "$c" || exit 2
"$ROOT/target/$c/release/mc-$c" "$@"
rc=$?
[ $rc -le 1 ] || { echo "check of $1 ended abnormally (status $rc)"; exit 2; }
exit $rc
