#!/usr/bin/env python3
"""seed.py FILE.py...  Each FILE.py defines BUGS = [dict(id, property, edits=[(path, old, new)], needs, breaks, demo, features=[], extra={}, stub=False)].
Validates each planted bug in a scratch copy of /repo (builds, stable tests pass, demo 0 on clean and non-zero on changed) and, if good,
writes /verif/seeded/<id>/, then runs the property's check against it."""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwork/repo"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings")
def sh(cmd, cwd, timeout=900, env=ENV):
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return 124, "timeout"
DEMO = '''#!/usr/bin/env bash
# run with cwd = the bellframe checkout; exits 0 if the property holds for the demonstrated case
set -eu
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
dir=$(mktemp -d)
trap 'rm -rf -- "$dir"' EXIT
mkdir -p "$dir/src" "$dir/home" "$dir/cache"
cp "$here/main.rs" "$dir/src/main.rs"
cp "$repo/Cargo.lock" "$dir/Cargo.lock"
cat > "$dir/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
bellframe = {{ path = "$repo", default-features = false, features = [{features}] }}
{deps}
EOF
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$dir/target" RUSTFLAGS=-Awarnings
export SCRATCH="$dir" XDG_CACHE_HOME="$dir/cache"
{pre}cargo build --quiet --offline --manifest-path "$dir/Cargo.toml"
HOME="$dir/home" timeout 120 "$dir/target/debug/demo"
'''
def stable():
    return set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def run_tests():
    rc, out = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8", W)
    sh(f"bash -c '. /opt/vp/env.sh; true'", W)
    # doc tests are named by line: number them within their item instead
    tests = re.findall(r"^test (.+?)(?: - should panic)? \.\.\. (ok|FAILED)$", out, re.M)
    items = {}
    for n, _ in tests:
        m = re.match(r"(.*) \(line (\d+)\)", n)
        if m: items.setdefault(m[1], set()).add(int(m[2]))
    ok = set()
    for n, r in tests:
        m = re.match(r"(.*) \(line (\d+)\)", n)
        if m: n = f"{m[1]} #{sorted(items[m[1]]).index(int(m[2]))}"
        if r == "ok": ok.add(n)
    return rc, out, ok
def main():
    bugs = []
    for f in sys.argv[1:]:
        g = {}
        exec(open(f).read(), g)
        bugs += g["BUGS"]
    if not os.path.isdir(W):
        os.makedirs("/tmp/seedwork", exist_ok=True)
        sh(f"cp -a /repo {W}", "/")
    sh("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq -e target", W)
    rc, out, base_ok = run_tests()
    print("baseline ok:", len(base_ok), "stable:", len(stable()))
    for b in bugs:
        sh("git checkout -q -f FETCH_HEAD -- .", W)
        bad = None
        for path, old, new in b["edits"]:
            s = open(f"{W}/{path}").read()
            if s.count(old) != 1:
                bad = f"{path}: {s.count(old)} matches of {old!r}"
                break
            open(f"{W}/{path}", "w").write(s.replace(old, new))
        if bad:
            print(b["id"], "BAD EDIT", bad); continue
        _, diff = sh("git diff", W)
        d = tempfile.mkdtemp()
        feats = ", ".join(f'"{x}"' for x in b.get("features", []))
        deps = b.get("deps", "")
        pre = ""
        if b.get("stub"):
            deps += '\\nreqwest = { version = "0.11", features = ["blocking"] }\n[patch.crates-io]\nreqwest = { path = "$dir/reqwest" }'.replace("\\n", "\n")
            pre = 'cp -r "$here/reqwest" "$dir/reqwest"\n'
            shutil.copytree(V + "/harness/fake-reqwest", d + "/reqwest", ignore=shutil.ignore_patterns("target"))
        open(d + "/demo.sh", "w").write(DEMO.format(features=feats, deps=deps, pre=pre))
        open(d + "/main.rs", "w").write(b["demo"])
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        rc, out = sh("cargo build --offline --features serde", W)
        if rc: print(b["id"], "BUILD FAILS", out[-1500:]); continue
        rc, out, ok = run_tests()
        if base_ok - ok: print(b["id"], "TESTS FAIL", sorted(base_ok - ok)[:5]); continue
        rc1, out1 = sh(f"bash {d}/demo.sh", W, 300)
        sh("git checkout -q -f FETCH_HEAD -- .", W)
        rc0, out0 = sh(f"bash {d}/demo.sh", W, 300)
        if rc0 != 0 or rc1 == 0:
            print(b["id"], "DEMO clean", rc0, out0[-700:], "patched", rc1, out1[-300:]); continue
        dst = f"{V}/seeded/{b['id']}"
        shutil.rmtree(dst, ignore_errors=True); shutil.copytree(d, dst); shutil.rmtree(d)
        os.chmod(dst + "/demo.sh", 0o755)
        check(b["id"])
def check(i, extra=""):
    dst = f"{V}/seeded/{i}"
    prop = json.load(open(dst + "/meta.json"))["property"]
    rc, out = sh(f"git -C /repo apply {dst}/patch.diff", V)
    if rc: print(i, "patch does not apply", out); return
    try:
        rc, out = sh(f"./check.sh {prop} {extra}", V)
    finally:
        sh("git -C /repo checkout -- .", V)
    v = [l for l in out.splitlines() if l.startswith("VIOLATION")]
    print(i, prop, "CAUGHT" if rc == 1 and v else f"MISSED rc={rc}", next((l.strip() for l in out.splitlines() if l.startswith("  [")), "")[:160] if v else out[-300:])
if __name__ == "__main__":
    if sys.argv[1] == "--check":
        for i in sys.argv[2:] or sorted(os.listdir(V + "/seeded")): check(i)
    else: main()
