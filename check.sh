#!/bin/bash
# ./check.sh ID [quick|thorough] [--replay FILE]   (ID = C01 .. C20; "build" only builds)
# Builds the harness against /repo's current working tree, then runs one property check.
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin
export HOME=${HOME:-/root} CARGO_HOME=/root/.cargo CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTFLAGS
here=$(cd "$(dirname "$0")" && pwd) || exit 2
cd "$here/harness" || exit 2
exec 9>"$here/harness/.build.lock"
flock 9
# cargo goes by mtime: always recompile the crate under test (a restored file may carry an old mtime)
rm -rf "$here"/harness/target/release/.fingerprint/japanese_law_xml_schema-*
if ! cargo build --release --offline --quiet > "$here/harness/.build.log" 2>&1; then
  echo "HARNESS ERROR: build failed"; tail -n 60 "$here/harness/.build.log"; exit 2
fi
exe="$here/harness/target/release/jlx-check"
cd "$here" || exit 2
[ "$1" = build ] && exit 0
# run a private copy with a scratch directory of its own, so that a build for another check cannot replace the running binary
work=$(mktemp -d /tmp/jlx-check.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
cp "$exe" "$work/jlx-check" || exit 2
flock -u 9; exec 9>&-
TMPDIR=$work "$work/jlx-check" "$@"; rc=$?
if [ "$3" = --replay ] && [ $rc -ge 128 ]; then
  echo "the process ends abnormally (status $rc)"; echo "VIOLATION property=$1 replay=$4"; exit 1
fi
case $rc in 0|1|2) exit $rc;; *) echo "HARNESS ERROR: check process ended with status $rc"; exit 2;; esac
