#!/bin/bash
# check.sh ID quick|thorough          run the check of a property
# check.sh replay ID TIER SPACE CASE  run one case of it again
# check.sh build ID                   only build
# Exit 0: held on everything explored; 1: VIOLATION; anything else: the check itself failed.
export HOME=/root
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:${PATH:-/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin}"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never
export RUSTC_WRAPPER= RUST_BACKTRACE=0
root=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)

mode=check
case "$1" in
    replay|build) mode=$1; shift ;;
esac
id=$1
tier=${2:-quick}

# Which hook of the library a check needs: each check builds only that one, so that a change to
# one component cannot keep the check of another from compiling.
case "$id" in
    P*) component= ;;
    C*) component=color ;;
    M*) component=point ;;
    N*) component=neighbors ;;
    D*) component=dbscan ;;
    K*) component=kmeans ;;
    G*) component=graph ;;
    H*|U*) component=hierarchical ;;
    S*) component=hdbscan ;;
    *) echo "check.sh: no check $id" >&2; exit 3 ;;
esac

flags=
if [ -n "$component" ]; then
    flags="--cfg auto_palette_verif --cfg auto_palette_verif=\"$component\""
fi
target="$root/harness/target/${component:-palette}"
log=$(mktemp)
trap 'rm -f "$log"' EXIT
if ! RUSTFLAGS="$flags" cargo build --release --offline --locked --quiet \
    --manifest-path "$root/harness/Cargo.toml" --target-dir "$target" >"$log" 2>&1; then
    cat "$log" >&2
    echo "check.sh: the harness does not build" >&2
    exit 3
fi
rm -f "$log"
mc="$target/release/mc"
case "$mode" in
    build) exit 0 ;;
    replay) exec "$mc" one "$id" "$tier" "$3" "$4" ;;
    check) exec "$mc" check "$id" "$tier" "$root" ;;
esac
