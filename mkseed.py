"""mkseed.py FILE: FILE (python) calls seed(id, prop, needs, breaks, edits=[(file, old, new[, nth])], deps="alg util", main="...rust...")
makes /verif/seeded/<id>/ from edits of /repo's HEAD"""
import os, subprocess, json, sys, shutil
V = os.path.dirname(os.path.abspath(__file__)); S = "/tmp/seedwork/gen"
DEMO = '''#!/bin/bash
# builds main.rs against the crates of the repository in the current directory, in a scratch folder; exit 0 if the property holds
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD; w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
export HOME=${HOME:-/root} CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_TARGET_DIR=$w/target
mkdir "$w/src"; cp "$here/main.rs" "$w/src/main.rs"
{ printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[workspace]\\n[profile.dev]\\ndebug = 0\\n[dependencies]\\n'
  for d in %s; do echo "$d = { path = \\"$repo/$d\\" }"; done; } > "$w/Cargo.toml"
for l in "$repo/Cargo.lock" /opt/vp/Cargo.lock; do [ -e "$l" ] && cp "$l" "$w/Cargo.lock" && break; done
cd "$w" && cargo build -q --offline 2>build.log || { cat build.log; exit 3; }
timeout 120 "$w/target/debug/demo"
'''
def seed(id, prop, needs, breaks, edits, deps, main):
    if not os.path.exists(S): subprocess.run(["git", "clone", "-q", "/repo", S], check=True)
    subprocess.run("git fetch -q origin HEAD && git reset -q --hard FETCH_HEAD && git clean -fdq", shell=True, cwd=S, check=True)
    for e in edits:
        f, old, new = e[:3]; p = S + "/" + f; t = open(p).read(); n = t.count(old)
        if len(e) == 4:
            i = -1
            for _ in range(e[3] + 1): i = t.index(old, i + 1)
            t = t[:i] + new + t[i + len(old):]
        else:
            assert n == 1, (id, f, n, old); t = t.replace(old, new)
        open(p, "w").write(t)
    for f in {e[0] for e in edits}:  # a planted bug changes lines of the original repository
        base = subprocess.run(["git", "show", "33edbaf:" + f], cwd="/repo", capture_output=True, text=True).stdout.split("\n")
        for l in subprocess.run(["git", "diff", "-U0", f], cwd=S, capture_output=True, text=True).stdout.split("\n"):
            if l.startswith("-") and not l.startswith("---") and l[1:] not in base: print(id, "REMOVES A LINE THAT IS NOT ORIGINAL", l)
    d = V + "/seeded/" + id; os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(subprocess.run(["git", "diff"], cwd=S, capture_output=True, text=True).stdout)
    open(d + "/demo.sh", "w").write(DEMO % deps); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/main.rs", "w").write(main)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    print("made", id)
exec(open(sys.argv[1]).read())
