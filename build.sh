# sourced: build_mon builds the harness (release, overflow checks and debug assertions on) from /repo's working tree
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
export RUST_BACKTRACE=0 RUST_LIB_BACKTRACE=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET
build_dir="$here/.build"
mkdir -p "$build_dir"
log="$build_dir/build.log"
mon="$build_dir/release/mon"

# cargo decides by time stamps; a tree whose content changed under an older stamp must be seen too
repo_hash() {
  (cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name 'Cargo.*' -o -name '*.html' -o -name '*.toml' \) -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -c1-32
}
fresh() { # fresh <target dir> <cargo args...>: forget the library's artefacts if its sources changed
  local dir="$1"
  shift
  local h
  h="$(repo_hash) $(sha256sum "$here/cov-rustc.sh" | cut -c1-16)"
  if [ -d "$dir" ] && [ "$(cat "$dir/repo.hash" 2>/dev/null)" != "$h" ]; then
    (cd "$here/harness" && CARGO_TARGET_DIR="$dir" cargo "$@" >/dev/null 2>&1)
  fi
  mkdir -p "$dir"
  echo "$h" >"$dir/repo.hash"
}
build_mon() {
  fresh "$build_dir" clean --release --offline -p rphtml
  # the library is compiled with coverage callbacks, which steer part of the workload
  (cd "$here/harness" && RUSTC_WRAPPER="$here/cov-rustc.sh" CARGO_TARGET_DIR="$build_dir" timeout 600 cargo build --release --offline --bin mon >"$log" 2>&1)
}
