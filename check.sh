#!/bin/bash
# check.sh <property> [cedsim check options]: builds the simulator with the code
# in /repo as it is now and explores one property.
# check.sh build: only builds.
cd /verif/sim || exit 2
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTC_WRAPPER
# Build products are keyed by content, not by file times.
now=$( { find /repo/core /repo/remote /repo/remote-ffi /repo/remote-ffi-gen /repo/Cargo.toml /repo/Cargo.lock \
          -name target -prune -o -name ffi.rs -prune -o -type f -print0; find /verif/sim -name target -prune -o -name gen -prune -o -type f -print0; } |
        sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
mkdir -p target
exec 9>target/.check-lock
flock 9
if [ "$(cat target/.check-stamp 2>/dev/null)" != "$now" ]; then
  for d in target/release/.fingerprint; do
    [ -d "$d" ] && find "$d" -maxdepth 1 \( -name 'ced-*' -o -name 'ced-remote*' -o -name 'ced_remote*' -o -name 'cedsim-*' -o -name 'simrt-*' -o -name 'ffishim-*' -o -name 'async-net-*' -o -name 'async-executor-*' -o -name 'crossterm-*' \) -exec rm -rf {} +
  done
  rm -f target/.check-stamp
fi
if ! cargo build --release --offline --quiet >target/.check-build.log 2>&1; then
  cat target/.check-build.log >&2
  # what is built from the C interface is needed for one property only
  if [ "$1" = C18 ] || [ "$1" = build ] ||
     ! cargo build --release --offline --quiet --no-default-features --features term >target/.check-build.log 2>&1; then
    echo "check.sh: the simulator does not build with this tree" >&2
    exit 2
  fi
fi
echo "$now" >target/.check-stamp
exec 9>&-
[ "$1" = build ] && exit 0
exec ./target/release/cedsim check "$@"
