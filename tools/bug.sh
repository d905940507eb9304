#!/bin/bash
# bug.sh validate ID        build, test and demonstrate seeded/ID in a scratch copy of /repo
# bug.sh check ID Cxx...    run checks against seeded/ID (a copy of the harness built against the scratch copy)
# bug.sh drop               remove the scratch copies
# Development helper; no check uses it.
set -u
V=$(cd "$(dirname "$0")/.." && pwd); W=/tmp/bugwork; cmd=$1
export RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
prep() {
  mkdir -p $W; [ -d $W/repo ] || cp -a /repo $W/repo
  (cd $W/repo && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD)
}
apply() { (cd $W/repo && git apply --check "$V/seeded/$1/patch.diff" && git apply "$V/seeded/$1/patch.diff"); }
case $cmd in
drop) rm -rf /tmp/bugwork;;
validate)
  id=$2; prep; D=$V/seeded/$id
  (cd $W/repo && bash "$D/demo.sh" > $W/demo0.log 2>&1); a=$?
  apply $id || { echo "$id: patch does not apply"; exit 1; }
  (cd $W/repo && bash "$D/demo.sh" > $W/demo1.log 2>&1); b=$?
  cd $W/repo
  export CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_PROFILE_DEV_OPT_LEVEL=1
  cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > $W/test.log 2>&1; t=$?
  n=$(grep -c '^test .* ok$' $W/test.log)
  cargo check --workspace --benches --features relations/bench_prover --offline > $W/bench.log 2>&1 && cargo check --workspace --benches --no-default-features --offline >> $W/bench.log 2>&1; c=$?
  echo "$id: demo clean=$a (want 0) patched=$b (want !=0); tests rc=$t ok=$n; benches rc=$c"
  git checkout -q -- . ;;
check)
  id=$2; shift 2; prep; apply $id || { echo "$id: patch does not apply"; exit 1; }
  mkdir -p $W/v/evidence $W/v/replays $W/v/harness; cp "$V/known_findings.txt" "$V/properties.jsonl" $W/v/
  rsync -a --delete --exclude target "$V/harness/" $W/v/harness/ 2>/dev/null || { (cd "$V/harness" && tar cf - --exclude=target .) | (cd $W/v/harness && tar xf -); }
  [ -d $W/v/harness/target ] || cp -a "$V/harness/target" $W/v/harness/target
  sed -i "s#/repo/#$W/repo/#" $W/v/harness/Cargo.toml
  for p in "$@"; do
    bin=$(echo $p | tr A-Z a-z)
    (cd $W/v/harness && RUSTFLAGS=-Awarnings cargo build --release --offline --bin $bin) > $W/build.log 2>&1 || { tail -20 $W/build.log; echo "$id $p: BUILD FAILED"; continue; }
    s=$(date +%s); (cd $W/v && VERIF_DIR=$W/v timeout 900 harness/target/release/$bin ${TIER:-quick}) > $W/check-$id-$p.log 2>&1; r=$?
    echo "$id $p: exit $r after $(( $(date +%s) - s )) s; $(grep -m1 VIOLATION $W/check-$id-$p.log)"
  done
  (cd $W/repo && git checkout -q -- .) ;;
esac
