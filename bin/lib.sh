# Sourced by setup.sh and check: builds the harness and the CLI from /repo.
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
export VERIF_DIR="$VERIF"
REPO=/repo
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
export HOME="${HOME:-/root}" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_TERM_COLOR=never
export PATH="/root/.cargo/bin:$PATH"
BUILD="$VERIF/.build"
cd "$VERIF" || exit 3   # not /repo: its .cargo/config.toml denies warnings

# The content of everything the builds read from /repo.
fingerprint() {
    find "$REPO/src" "$REPO/crates" "$REPO/Cargo.toml" -path '*/target' -prune -o \
        -type f \( -name '*.rs' -o -name '*.toml' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum
}

# build DIR COMMAND...: runs cargo; if the sources changed since the last
# successful build, the crates of /repo are rebuilt whatever their times say.
build() {
    local dir="$1" want; shift
    mkdir -p "$dir"
    [ -e "$REPO/Cargo.lock" ] || cp "$VERIF/harness/repo-Cargo.lock" "$REPO/Cargo.lock"
    want="$(fingerprint)"
    if [ "$want" != "$(cat "$dir/stamp" 2>/dev/null)" ]; then
        rm -rf "$dir"/debug/.fingerprint/pica-record-* "$dir"/debug/.fingerprint/pica-cli-*
        rm -f "$dir/stamp"
    fi
    CARGO_TARGET_DIR="$dir" "$@" >"$dir/log" 2>&1 || { tail -n 60 "$dir/log"; echo "cannot build $dir"; return 1; }
    printf '%s\n' "$want" >"$dir/stamp"
}

build_libmon() {
    build "$BUILD/harness" cargo build --manifest-path "$VERIF/harness/Cargo.toml" -p libmon --offline
}

build_climon() {
    build "$BUILD/cli" env CARGO_PROFILE_DEV_DEBUG=0 \
        cargo build --manifest-path "$REPO/Cargo.toml" -p pica-cli --features performant,compat,unstable --offline &&
        build "$BUILD/harness" cargo build --manifest-path "$VERIF/harness/Cargo.toml" -p climon --offline
}
