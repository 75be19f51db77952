#!/bin/bash
# check.sh <ID> [vsim options]   decide one property against /repo's working tree
# check.sh replay <FILE>         re-run one recorded execution exactly
# check.sh build                 build every variant of the simulator
# Exit 0: held. 1: violated (a VIOLATION line names the replay file). 2: no answer.
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
cd "$here/sim" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
mkdir -p work

# What the build depends on, by content: file times are not trusted.
inputs() {
  { find /repo/src -type f; echo /repo/Cargo.toml; find "$here/sim/src" "$here/sim/vendor" -type f; echo "$here/sim/Cargo.toml"; } |
    LC_ALL=C sort | xargs -d '\n' sha256sum 2>/dev/null | sha256sum | cut -c1-64
}

# build <profile> <target dir> [cargo options]
build() {
  local profile="$1" dir="$2" now log
  shift 2
  now="$(inputs)"
  log="work/build-$profile-$(basename "$dir").log"
  exec 9>"work/lock-$(basename "$dir")"
  flock 9
  if [ -d "$dir" ] && [ "$(cat "$dir/stamp-$profile" 2>/dev/null)" != "$now" ]; then
    cargo clean --offline --target-dir "$dir" --profile "$profile" ${TARGET:+--target "$TARGET"} -p triangulate -p vsim >/dev/null 2>&1
  fi
  if ! cargo build --offline --profile "$profile" ${TARGET:+--target "$TARGET"} --target-dir "$dir" "$@" >"$log" 2>&1; then
    grep -E "^error" -A 12 "$log" | head -60 >&2
    tail -3 "$log" >&2
    echo "check.sh: the simulator does not build against /repo" >&2
    exit 2
  fi
  echo "$now" >"$dir/stamp-$profile"
  exec 9>&-
}

# AddressSanitizer and the standard library's checks of unsafe calls
build_asan() {
  VSIM_ASAN=1 RUSTC_BOOTSTRAP=1 RUSTFLAGS="-Zsanitizer=address -Zub-checks=yes" \
    TARGET=x86_64-unknown-linux-gnu build asan target-asan
}
asan=target-asan/x86_64-unknown-linux-gnu/asan/vsim
export ASAN_OPTIONS=detect_leaks=0:abort_on_error=1:allocator_may_return_null=0:hard_rss_limit_mb=3000

# Coverage counters, as a measure of work
build_cov() {
  RUSTFLAGS="-Cinstrument-coverage --cfg vsim_cov" build release target-cov
}
export LLVM_PROFILE_FILE=/dev/null

variant() {
  case "$1" in
    C05) build_cov; bin=target-cov/release/vsim ;;
    C17) build assert target; bin=target/assert/vsim ;;
    C15) build release target-svg --features svg; bin=target-svg/release/vsim ;;
    *) build release target; bin=target/release/vsim ;;
  esac
}

case "${1:-}" in
  build)
    build release target
    build assert target
    build over target
    build release target-svg --features svg
    build_cov
    build_asan
    ;;
  replay)
    file="$(cd "$OLDPWD" 2>/dev/null && realpath "$2")" || exit 2
    [ -f "$file" ] || { echo "check.sh: no such file: $2" >&2; exit 2; }
    case "$(sed -n 's/^build //p' "$file")" in
      asan) build_asan; bin=$asan ;;
      over) build over target; bin=target/over/vsim ;;
      *) variant "$(sed -n 's/^property //p' "$file")" ;;
    esac
    shift 2
    "$bin" replay "$file" "$@"
    ;;
  C[0-9][0-9])
    id="$1"
    shift
    variant "$id"
    case "$id" in
      C14 | C16) build_asan; set -- "$@" --extra asan "$PWD/$asan" - - "under AddressSanitizer and unsafe-call checks" ;;
      C17) build over target; set -- "$@" --extra over "$PWD/target/over/vsim" 1099511627776 16 "of 66,000 to 270,000 vertices with overflow checks" ;;
    esac
    "$bin" check "$id" --tier "${VERIF_TIER:-quick}" --root "$here" "$@"
    ;;
  *)
    echo "usage: check.sh C01..C17 | replay FILE | build" >&2
    exit 2
    ;;
esac
