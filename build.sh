# Sourced: build ID -> sets $bin. ID "all" builds every variant.
# Never trust timestamps: the code under test is rebuilt every time.
build() {
    local feat=()
    case $1 in
    C13 | C14 | C15 | C16 | C18 | C25 | C27 | C28 | all) feat=(--features html) ;;
    esac
    local t=$PWD/target-vp log
    mkdir -p "$t"
    log=$t/build.log
    find "$t/release/.fingerprint" -maxdepth 1 \( -name 'minifier-*' -o -name 'vp_api-*' \) -exec rm -r {} + 2>/dev/null
    if ! RUSTC_WRAPPER=$PWD/harness/rustc_wrap.sh CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never \
        cargo build --offline --release --manifest-path harness/Cargo.toml --target-dir "$t" "${feat[@]}" >"$log" 2>&1; then
        echo "build failed:" >&2
        tail -n 40 "$log" >&2
        return 1
    fi
    bin=$t/release/vp
    case $1 in
    C19 | C20 | all) build_cli ;;
    esac
}

# The command line tool -> sets VP_CLI_BIN.
build_cli() {
    local t=$PWD/target-cli repo log
    repo=$(sed -n 's/^minifier = { path = "\([^"]*\)".*/\1/p' harness/api/Cargo.toml)
    mkdir -p "$t"
    log=$t/build.log
    find "$t/debug/.fingerprint" -maxdepth 1 -name 'minifier-*' -exec rm -r {} + 2>/dev/null
    if ! CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_PROFILE_DEV_DEBUG=0 \
        cargo build --offline --bin minifier --manifest-path "$repo/Cargo.toml" --target-dir "$t" >"$log" 2>&1; then
        echo "build failed:" >&2
        tail -n 40 "$log" >&2
        return 1
    fi
    export VP_CLI_BIN=$t/debug/minifier
}

# A scratch directory that an unprivileged user can reach, removed at the end -> VP_CLI_DIR.
cli_dir() {
    VP_CLI_DIR=$(mktemp -d "${TMPDIR:-/tmp}/vp-cli.XXXXXX") || return 1
    export VP_CLI_DIR
    chmod 711 "$VP_CLI_DIR"
    trap 'rm -rf -- "$VP_CLI_DIR"' EXIT
}
