#!/usr/bin/env python3
"""Plants the bugs of bugs.py: writes /verif/seeded/<id>, validates each in a scratch copy
(builds, passes the stable tests, the demonstration tells them apart) and runs the check of
its property against it in /repo, which is restored straight afterwards.

    plant.py write            (re)write the folders
    plant.py validate [id..]  in a scratch copy of /repo
    plant.py detect [id..]    with the checks, in /repo itself
"""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from bugs import BUGS
SEEDED = "/verif/seeded"
SCRATCH = "/tmp/plant-scratch"

DEMO = """#!/bin/bash
# Run in the repository: exit 0 if it behaves as the property demands.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
mkdir -p "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
postscript = { path = "$repo" }
[workspace]
EOF
cd "$work" || exit 3
CARGO_TARGET_DIR="$work/target" CARGO_NET_OFFLINE=true timeout 250 cargo run --offline --quiet --manifest-path "$work/Cargo.toml"
status=$?
rm -rf "$work"
exit $status
"""

def run(command, **options):
    return subprocess.run(command, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **options)

def chosen(arguments):
    return [bug for bug in BUGS if not arguments or bug["id"] in arguments]

def fresh():
    if os.path.isdir(SCRATCH): shutil.rmtree(SCRATCH)
    os.makedirs(SCRATCH)
    assert run(["cp", "-a", "/repo", SCRATCH + "/repo"]).returncode == 0
    run(["git", "-C", SCRATCH + "/repo", "checkout", "--", "."])

def edit(root, bug):
    for file, old, new in bug["edits"]:
        path = f"{root}/{file}"
        text = open(path).read()
        assert text.count(old) == 1, (bug["id"], file, text.count(old), old)
        open(path, "w").write(text.replace(old, new))

def write():
    fresh()
    for bug in BUGS:
        folder = f"{SEEDED}/{bug['id']}"
        os.makedirs(folder, exist_ok=True)
        edit(SCRATCH + "/repo", bug)
        diff = run(["git", "-C", SCRATCH + "/repo", "diff"]).stdout
        run(["git", "-C", SCRATCH + "/repo", "checkout", "--", "."])
        open(f"{folder}/patch.diff", "w").write(diff)
        open(f"{folder}/demo.sh", "w").write(DEMO)
        os.chmod(f"{folder}/demo.sh", 0o755)
        open(f"{folder}/demo.rs", "w").write(bug["demo"].strip() + "\n")
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, open(f"{folder}/meta.json", "w"), indent=1)
    shutil.rmtree(SCRATCH)

def validate(arguments):
    fresh()
    root = SCRATCH + "/repo"
    stable = set(json.load(open("/opt/vp/BASELINE.json")).get("stable_tests") or json.load(open("/opt/vp/BASELINE.json")).get("passing") or [])
    for bug in chosen(arguments):
        folder = f"{SEEDED}/{bug['id']}"
        clean = run(["bash", f"{folder}/demo.sh"], cwd=root)
        applied = run(["git", "-C", root, "apply", f"{folder}/patch.diff"])
        tests = run(["cargo", "test", "--workspace", "--no-fail-fast", "--offline"], cwd=root)
        passed = sum(int(line.split(" passed")[0].split()[-1]) for line in tests.stdout.splitlines() if line.startswith("test result"))
        built = "error: could not compile" not in tests.stdout
        broken = run(["bash", f"{folder}/demo.sh"], cwd=root)
        run(["git", "-C", root, "checkout", "--", "."])
        good = clean.returncode == 0 and applied.returncode == 0 and built and passed >= 17 and broken.returncode not in (0,)
        print(bug["id"], bug["property"], "VALID" if good else "INVALID", f"clean={clean.returncode} applied={applied.returncode} built={built} passed={passed} patched={broken.returncode}", broken.stdout.strip().splitlines()[:2] if good else (clean.stdout[-800:], broken.stdout[-600:]), flush=True)
    shutil.rmtree(SCRATCH)

def detect(arguments):
    assert not run(["git", "-C", "/repo", "status", "--porcelain", "-uno"]).stdout.strip()
    for bug in chosen(arguments):
        try:
            assert run(["git", "-C", "/repo", "apply", f"{SEEDED}/{bug['id']}/patch.diff"]).returncode == 0
            for property in [bug["property"]] + bug.get("also", []):
                result = run(["bash", "/verif/tools/check.sh", property, "quick"])
                line = [line for line in result.stdout.splitlines() if line.startswith((property + ":", "VIOLATION"))][:2]
                print(bug["id"], property, "CAUGHT" if result.returncode == 1 and any("VIOLATION" in l for l in line) else f"MISSED ({result.returncode})", [l[:220] for l in line], flush=True)
        finally:
            run(["git", "-C", "/repo", "checkout", "--", "."])

if __name__ == "__main__":
    {"write": lambda a: write(), "validate": validate, "detect": detect}[sys.argv[1]](sys.argv[2:])
