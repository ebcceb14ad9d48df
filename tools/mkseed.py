#!/usr/bin/env python3
"""mkseed.py <id> <property>: reads a seed description from stdin (JSON: edits, demo, needs, breaks) and writes seeded/<id>/."""
import json, os, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/usr/bin/env bash
# Run in the repository: builds a small client of the crate and runs it.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
mkdir "$d/src"; cp "$here/demo.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
rangetools = { path = "$repo"%s }
%s
EOF
cd "$d" && CARGO_TARGET_DIR="$d/target" timeout 200 cargo run --offline -q
'''
def make(id, prop, edits, demo, needs, breaks, serde=False, deps=None):
    d = os.path.join(V, "seeded", id)
    s = tempfile.mkdtemp(prefix="mk.")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", s + "/r"], check=True)
        for f, old, new in edits:
            p = os.path.join(s, "r", f)
            t = open(p).read()
            assert t.count(old) == 1, (id, f, t.count(old))
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.run(["git", "-C", s + "/r", "diff"], capture_output=True, text=True, check=True).stdout
    finally:
        shutil.rmtree(s)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.rs", "w").write(demo)
    open(d + "/demo.sh", "w").write(DEMO_SH % ((', features = ["serde"]', deps or 'serde_json = "1"') if serde else ("", "")))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
