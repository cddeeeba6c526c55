#!/bin/bash
# sanitize.sh asan|miri|miri-threads SEED TIER: the small workload (bin mini) under a sanitizer.
# Prints "OBSERVED <count>" and, on a finding, "REPORT ..." lines with exit 1. Exit 2: could not run.
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. "$here/build.sh"
mode="$1"
seed="${2:-1}"
tier="${3:-quick}"
out="$(mktemp -d "${TMPDIR:-/tmp}/rphtml-san.XXXXXX")" || exit 2
trap 'rm -rf "$out"' EXIT
cd "$here/harness" || exit 2

finish() { # <code> <pattern of a finding>
  grep -h '^OBSERVED\|^REPORT' "$out/out" || true
  if grep -qE "$2" "$out/err" || grep -q '^REPORT' "$out/out"; then
    grep -E "$2" "$out/err" | head -n 6 | sed 's/^/REPORT /'
    grep -E '/repo/src/[a-z]+\.rs:[0-9]+' "$out/err" | head -n 6 | sed 's/^ */REPORT /'
    exit 1
  fi
  if [ "$1" -ne 0 ]; then
    echo "ended with code $1"
    tail -n 12 "$out/err"
    exit 2
  fi
  exit 0
}

case "$mode" in
asan)
  n=1500
  [ "$tier" = thorough ] && n=40000
  dir="$build_dir/asan"
  tgt=x86_64-unknown-linux-gnu
  fresh "$dir" +nightly clean --offline --target $tgt -p rphtml
  if ! RUSTFLAGS="-Zsanitizer=address -Cdebuginfo=1" CARGO_TARGET_DIR="$dir" timeout 600 cargo +nightly build --offline --target $tgt --profile asan --bin mini >"$out/build" 2>&1; then
    tail -n 20 "$out/build"
    exit 2
  fi
  ASAN_OPTIONS=detect_leaks=1:abort_on_error=0:exitcode=66 timeout 800 "$dir/$tgt/asan/mini" histories "$n" "$seed" >"$out/out" 2>"$out/err"
  finish $? 'ERROR: (Address|Leak)Sanitizer|SUMMARY:|unsafe precondition|panicked at'
  ;;
miri)
  n=10
  [ "$tier" = thorough ] && n=150
  dir="$build_dir/miri"
  fresh "$dir" +nightly clean --offline -p rphtml
  MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-seed=$seed" CARGO_TARGET_DIR="$dir" timeout 1500 cargo +nightly miri run --offline --bin mini -- histories "$n" "$seed" >"$out/out" 2>"$out/err"
  finish $? 'Undefined Behavior|memory leaked|Data race|panicked at'
  ;;
miri-threads)
  k=2
  [ "$tier" = thorough ] && k=24
  dir="$build_dir/miri"
  fresh "$dir" +nightly clean --offline -p rphtml
  rc=0
  : >"$out/out"
  : >"$out/err"
  for i in $(seq 1 $k); do
    MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-preemption-rate=0.1 -Zmiri-seed=$((seed * 1000 + i))" CARGO_TARGET_DIR="$dir" timeout 700 cargo +nightly miri run --offline --bin mini -- threads "$i" >>"$out/out" 2>>"$out/err" || rc=$?
  done
  finish $rc 'Undefined Behavior|memory leaked|Data race|panicked at'
  ;;
*)
  exit 2
  ;;
esac
