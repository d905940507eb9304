#!/bin/bash
# check.sh <property id> [quick|thorough]: rebuild the checker from /repo's working tree and run it.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER=
id="$1"; tier="${2:-quick}"
bin=$(echo "$id" | tr 'A-Z' 'a-z')
log="harness/target/build-$bin.log"; mkdir -p harness/target
build() {
  (cd harness && RUSTFLAGS="${RUSTFLAGS:--Awarnings}" cargo build --profile "$1" --offline --locked --bin "$bin") > "$log" 2>&1 && return
  tail -40 "$log"; echo "error: the checker for $id does not build against /repo"; exit 2
}
# For properties that say "no panic" or "never refused", the enumeration also runs on a build of the code
# under test with overflow checks, as in a development build.
case "$id" in
C01|C04|C10|C11|C15|C17|C20|C22|C23)
  build checked
  CT_CHECKED_RUN="this run" "harness/target/checked/$bin" quick; r=$?
  [ $r = 0 ] || exit $r
  export CT_CHECKED_RUN="the quick enumeration also ran on a build with overflow checks: held" ;;
esac
build release
exec "harness/target/release/$bin" "$tier"
