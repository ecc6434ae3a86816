#!/usr/bin/env python3
"""Author a planted bug: tools/seed.py ID PROPERTY FILE < spec   (spec: OLD \n====\n NEW \n====\n needs \n====\n breaks \n====\n demo.rs)
Works in a scratch copy of /repo; verifies: builds, tests pass, demo passes without and fails with the patch."""
import os, subprocess, sys, json, shutil
sid, prop, f = sys.argv[1:4]
parts = sys.stdin.read().split("\n====\n")
old, new, needs, breaks, demo = parts[0].strip("\n"), parts[1].strip("\n"), parts[2].strip(), parts[3].strip(), parts[4]
d = f"/verif/seeded/{sid}"
os.makedirs(d, exist_ok=True)
src = open("/repo/" + f).read()
assert src.count(old) == 1, f"{src.count(old)} matches"
blame = subprocess.run(["git", "-C", "/repo", "blame", "-s", f], capture_output=True, text=True).stdout.splitlines()
ln = src[:src.index(old)].count("\n")
for l in blame[ln:ln + old.count("\n") + 1]:
    if not l.startswith("^"): print("NOTE not original:", l)
wt = "/tmp/seedwt"
if not os.path.exists(wt):
    subprocess.run(["cp", "-a", "/repo", wt], check=True)
subprocess.run(["git", "-C", wt, "checkout", "-q", "--", "."], check=True)
open(f"{wt}/{f}", "w").write(src.replace(old, new))
p = subprocess.run(["git", "-C", wt, "diff"], capture_output=True, text=True).stdout
open(d + "/patch.diff", "w").write(p)
open(d + "/demo.rs", "w").write(demo.lstrip("\n"))
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
open(d + "/demo.sh", "w").write(f"""#!/bin/bash
# builds demo.rs against the crate in the current directory and runs it: exit 0 if the property holds
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export PATH="$PATH:/usr/local/bin:/root/.cargo/bin" RUSTUP_TOOLCHAIN=1.79.0 CARGO_NET_OFFLINE=true
s=/tmp/juno_demo_{sid}
mkdir -p $s/src || exit 99
cp "$here/demo.rs" $s/src/main.rs
cp "$repo/Cargo.lock" $s/Cargo.lock
cat > $s/Cargo.toml <<E2
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
juno = {{ path = "$repo/juno" }}
rand = "0.8"
serde = "1"
serde_json = "1"
E2
cd $s && CARGO_TARGET_DIR=$s/target cargo run --offline -q
r=$?
rm -rf /tmp/juno_demo_{sid}
exit $r
""")
os.chmod(d + "/demo.sh", 0o755)
b = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
print("demo clean:", b.returncode, b.stderr[-800:] if b.returncode else "")
a = subprocess.run(["bash", d + "/demo.sh"], cwd=wt, capture_output=True, text=True)
print("demo planted:", a.returncode, a.stderr[-300:])
t = subprocess.run("cd /tmp/seedwt && . /opt/vp/env.sh && export CARGO_TARGET_DIR=/tmp/seedwt/target && cargo test --workspace --offline 2>&1 | grep -E '^test |error' ", shell=True, capture_output=True, text=True, executable="/bin/bash").stdout
bad = [l for l in t.splitlines() if "FAILED" in l or l.startswith("error")]
print("tests:", len([l for l in t.splitlines() if l.endswith(" ok")]), "ok; bad:", bad[:5])
