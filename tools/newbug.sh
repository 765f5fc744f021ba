#!/bin/bash
# newbug.sh <id> <property> <level: stdext|syntax|ide|server|ts> <main file> <needs> <breaks>
# Takes the uncommitted change in /repo as a planted bug, confirms it and stores it under seeded/<id>.
set -u
id=$1 prop=$2 lvl=$3 main=$4 needs=$5 breaks=$6
d=/verif/seeded/$id
mkdir -p $d
[ -n "$(git -C /repo diff --stat)" ] || { echo "no change in /repo"; exit 2; }
git -C /repo diff > $d/patch.diff
python3 - "$d" "$prop" "$needs" "$breaks" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
if [ $lvl = ts ]; then
  cp $main $d/main.mjs
  cat > $d/demo.sh <<'D'
#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
exec node "$d/main.mjs"
D
else
  cp $main $d/main.rs
  tar czf $d/kit.tar.gz -C /tmp/kit-$lvl --exclude=target shims demo
  cat > $d/demo.sh <<'D'
#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
tar xzf "$d/kit.tar.gz" -C "$w" && cp "$d/main.rs" "$w/demo/src/main.rs" && cd "$w/demo" || exit 3
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
export CARGO_TARGET_DIR=${DEMO_TARGET:-$w/target}
cargo build --offline --locked >"$w/log" 2>&1 || { tail -40 "$w/log"; exit 3; }
timeout 60 "$CARGO_TARGET_DIR/debug/demo"
D
fi
export DEMO_TARGET=/tmp/kit-target
bash /opt/vp/build.sh >/tmp/nb.log 2>&1 || { echo "BUILD FAILS"; tail /tmp/nb.log; }
bash /opt/vp/test.sh /tmp/nb.json >/tmp/nb.log 2>&1; python3 -c "
import json;print('tests',str(json.load(open('/tmp/nb.json')))[:200])"
(cd /repo && bash $d/demo.sh) >/tmp/nb-demo.log 2>&1; r=$?; echo "demo with bug: $r $(tail -1 /tmp/nb-demo.log | cut -c1-200)"
[ $r = 3 ] && cat /tmp/nb-demo.log
for p in ${CHECKS:-$prop}; do (cd /verif && bash run.sh $p) > /tmp/nb-check.log 2>&1; echo "check $p: $? $(tail -1 /tmp/nb-check.log | cut -c1-250)"; grep -m1 '^\[' /tmp/nb-check.log | cut -c1-300; done
git -C /repo checkout -q -- .
(cd /repo && bash $d/demo.sh) >/tmp/nb-demo.log 2>&1; r=$?; echo "demo clean: $r"; [ $r = 0 ] || cat /tmp/nb-demo.log | tail -20
