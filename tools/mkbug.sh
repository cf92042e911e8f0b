#!/bin/bash
# mkbug.sh ID: takes the uncommitted edit in the scratch worktree /tmp/w and the demo in
# /verif/seeded/ID/demo.rs; confirms build + tests + demo and writes patch.diff, demo.sh.
# "mkbug.sh --init" (re)creates /tmp/w from /repo.
set -u
V=/verif
if [ "$1" = --init ]; then
  rm -rf /tmp/w && cp -a /repo /tmp/w && git -C /tmp/w checkout -q -- . && exit 0
fi
ID=$1; D=$V/seeded/$ID
[ -f $D/demo.rs ] || { echo "no demo.rs"; exit 1; }
git -C /tmp/w diff > $D/patch.diff
[ -s $D/patch.diff ] || { echo "empty patch"; exit 1; }
cp $V/native/Cargo.lock $D/Cargo.lock
sed -i 's/^name = "vpnative"/name = "demo"/' $D/Cargo.lock
FEAT=$(cat $D/features 2>/dev/null || echo '"sync"')
DEPS=$(cat $D/deps 2>/dev/null)
cat > $D/demo.sh <<EOF
#!/bin/bash
# Runs demo.rs against the crate in the current directory: exit 0 if the property holds there.
D=\$(cd "\$(dirname "\$0")" && pwd)
R=\$(pwd)
T=\$(mktemp -d) || exit 2
trap 'rm -rf "\$T"' EXIT
mkdir "\$T/src"
cp "\$D/demo.rs" "\$T/src/main.rs"
cp "\$D/Cargo.lock" "\$T/Cargo.lock"
cat > "\$T/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
tycho-types = { path = "\$R", default-features = false, features = [$FEAT] }
$DEPS
X
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="\$T/target" CARGO_TERM_COLOR=never
unset RUSTFLAGS RUSTC_WRAPPER
cd "\$T" && cargo build -q --offline 2>&1 | tail -20
[ -x "\$T/target/debug/demo" ] || { echo "demo does not build"; exit 3; }
timeout 60 "\$T/target/debug/demo"
EOF
chmod +x $D/demo.sh
echo "== demo on unchanged"; (cd /repo && bash $D/demo.sh > /tmp/demo1.out 2>&1); r=$?; echo "rc $r"; [ $r = 0 ] || { tail -5 /tmp/demo1.out; exit 1; }
echo "== demo on patched"; (cd /tmp/w && bash $D/demo.sh > /tmp/demo2.out 2>&1); r=$?; echo "rc $r"; tail -3 /tmp/demo2.out; { [ $r != 0 ] && [ $r != 3 ]; } || { echo "DEMO DOES NOT FAIL"; exit 1; }
. /opt/vp/env.sh; cd /tmp/w || exit 1
cargo test --workspace --features $FEATURES --no-fail-fast --offline --lib --tests -- --test-threads 8 > /tmp/w.log 2>&1
cargo test --workspace --features $FEATURES --no-fail-fast --offline --doc -- --test-threads 8 >> /tmp/w.log 2>&1
python3 /opt/vp/results.py /tmp/w.json cargo:/tmp/w.log >/dev/null
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); w=json.load(open('/tmp/w.json'))
base=b.get('passed') or b.get('stable') or b
miss=[t for t in base if t not in set(w['passed'])]
print('TESTS FAIL:' if miss else 'tests pass', miss[:10])
P
grep -n "^error" /tmp/w.log | head -3
