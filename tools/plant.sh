#!/bin/bash
# plant.sh ID PROP "needs" "breaks" : takes the uncommitted change in /tmp/plant (a copy of /repo) and demo.rs in /tmp/plant_demo.rs,
# confirms it and stores it as /verif/seeded/ID
set -e
ID=$1; PROP=$2; NEEDS=$3; BREAKS=$4
S=/verif/seeded/$ID
mkdir -p $S
cd /tmp/plant
git diff -- src > $S/patch.diff
[ -s $S/patch.diff ] || { echo "no change"; exit 1; }
cp /tmp/plant_demo.rs $S/demo.rs
cat > $S/demo.sh <<'D'
#!/bin/bash
# exit 0 if the property holds for the inputs of demo.rs, nonzero otherwise; run with cwd = the repository
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
mkdir "$T/src" && cp "$D/demo.rs" "$T/src/main.rs"
printf '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2018"\n[dependencies]\niota-mam = { path = "%s" }\n[profile.dev]\nopt-level = 2\n[workspace]\n' "$R" > "$T/Cargo.toml"
cd "$T" && CARGO_TARGET_DIR="$T/target" RUSTFLAGS=-Awarnings timeout 250 cargo run --offline --quiet
D
python3 - "$PROP" "$NEEDS" "$BREAKS" > $S/meta.json <<'P'
import json,sys
print(json.dumps({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},indent=1))
P
chmod +x $S/demo.sh
(cd /repo && bash $S/demo.sh) || { echo "DEMO FAILS ON CLEAN TREE"; exit 1; }
if bash $S/demo.sh > /tmp/plant_demo.out 2>&1; then echo "DEMO PASSES WITH PATCH"; exit 1; fi
export CARGO_NET_OFFLINE=true
CARGO_TARGET_DIR=/tmp/plant/target cargo test --offline > /tmp/plant_test.out 2>&1 || { grep -E "FAILED|error" /tmp/plant_test.out | head -5; echo "TESTS FAIL: not planted"; git checkout -q -- .; rm -r "$S"; exit 1; }
echo planted $ID
git checkout -q -- .
