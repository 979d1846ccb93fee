#!/bin/bash
# mkseed.sh NAME PROP "needs" "breaks": turns the edit in /tmp/sr into seeded/NAME, with demo source /tmp/demo.rs.
set -e
D=/verif/seeded/$1; mkdir -p $D
git -C /tmp/sr diff > $D/patch.diff; [ -s $D/patch.diff ]
[ -d $D/rt ] || { mkdir -p $D/rt; cp -r /verif/rt/sync.py /verif/rt/stubs /verif/rt/Cargo.lock $D/rt/; mkdir -p $D/rt/h $D/rt/hx; echo > $D/rt/hx/lib.rs; }
cp /tmp/demo.rs $D/main.rs
cat > $D/demo.sh <<'X'
#!/bin/bash
# Builds main.rs against the crates in the current directory (no source is copied) and runs it.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$T"' EXIT
cp -r "$D/rt" "$T/rt"; mkdir -p "$T/rt/h/demo"; cp "$D/main.rs" "$T/rt/h/demo/main.rs"
python3 "$T/rt/sync.py" "$T/ws" "$R" || exit 3
cd "$T/ws" || exit 3
unset RUSTFLAGS
export VX_REPO=$R RUSTUP_TOOLCHAIN=1.83.0 CARGO_TARGET_DIR=$T/target CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings
cargo build --offline -q -p demo || exit 3
exec timeout 120 "$T/target/debug/demo"
X
sed -i 's/^exec timeout/timeout/' $D/demo.sh
python3 - "$@" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(f"/verif/seeded/{sys.argv[1]}/meta.json","w"),indent=1)
P
