"""Helper for planting bugs: add(id, prop, file, old, new, needs, breaks, demo, features) writes seeded/<id>/."""
import json, os, subprocess, shutil, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: behaves as promised; nonzero: the property is broken
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d /tmp/gvdemo.XXXXXX)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies.generic-vec]
path = "$repo"
default-features = false
features = [@FEATURES@]
[profile.@PROFILE@]
debug = false
T
cd "$d"
export CARGO_TARGET_DIR="$d/t" CARGO_NET_OFFLINE=true @ENV@
cargo @CARGO@ build -q --offline @REL@ || exit 3
timeout 120 "$d/t/@DIR@/demo"
'''


def add(id, prop, edits, needs, breaks, demo, features=("std",), release=False, nightly=False):
    d = os.path.join(ROOT, "seeded", id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = tempfile.mkdtemp(prefix="mkseed", dir="/tmp")
    try:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w + "/r"])
        for f, old, new in edits:
            p = w + "/r/" + f
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", w + "/r", "diff"], text=True)
        open(d + "/patch.diff", "w").write(diff)
    finally:
        subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", w + "/r"])
        shutil.rmtree(w, ignore_errors=True)
    s = DEMO.replace("@FEATURES@", ", ".join('"%s"' % x for x in features))
    s = s.replace("@REL@", "--release" if release else "").replace("@DIR@", "release" if release else "debug")
    s = s.replace("@PROFILE@", "release" if release else "dev")
    s = s.replace("@CARGO@", "+nightly" if nightly else "")
    s = s.replace("@ENV@", 'RUSTFLAGS="--cfg generic_vec_modern_nightly"' if nightly else "")
    open(d + "/demo.sh", "w").write(s)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.rs", "w").write(demo)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
