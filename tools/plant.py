#!/usr/bin/env python3
"""Writes and verifies the planted bugs of /verif/seeded.

    plant.py write [ID ...]    (re)generate the folders from tools/bugs.py
    plant.py verify [ID ...]   scratch copy: demo 0, patch, demo != 0, tests pass
    plant.py check [ID ...]    run the check of the bug's property against it

Everything happens in scratch copies of /repo that are removed afterwards.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SEEDED = os.path.join(VERIF, "seeded")
BASE = "829adb3"
PY = "/opt/venv/bin/python"
sys.path.insert(0, HERE)

DEMO = """#!/bin/sh
# cwd: the repository
here=$(cd "$(dirname "$0")" && pwd)
PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$here/demo.py"
"""


def git(*args, cwd="/repo"):
    return subprocess.run(
        ["git", "-C", cwd, *args], check=True, capture_output=True, text=True
    ).stdout


def scratch():
    folder = tempfile.mkdtemp(prefix="plant-")
    target = os.path.join(folder, "repo")
    subprocess.run(["cp", "-a", "/repo", target], check=True)
    return folder, target


def write(bug):
    folder, repo = scratch()
    try:
        for name, old, new in bug["edits"]:
            path = os.path.join(repo, "src/pymanopt", name)
            text = open(path).read()
            if text.count(old) != 1:
                raise SystemExit(f"{bug['id']}: {text.count(old)} matches in {name}: {old!r}")
            open(path, "w").write(text.replace(old, new))
        patch = git("diff", cwd=repo)
        # the changed lines have to be lines of the original repository
        original = 0
        current = None
        for line in patch.splitlines():
            if line.startswith("--- a/"):
                current = git("show", f"{BASE}:{line[6:]}").splitlines()
            elif line.startswith("-") and not line.startswith("---") and line[1:].strip():
                if line[1:] in current:
                    original += 1
                else:
                    print(f"{bug['id']}: not an original line: {line[1:]}")
        if not original:
            print(f"{bug['id']}: WARNING: changes no original line")
    finally:
        shutil.rmtree(folder)
    out = os.path.join(SEEDED, bug["id"])
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, "patch.diff"), "w").write(patch)
    open(os.path.join(out, "demo.py"), "w").write(bug["demo"].lstrip("\n"))
    demo = os.path.join(out, "demo.sh")
    open(demo, "w").write(DEMO)
    os.chmod(demo, 0o755)
    meta = {
        "property": bug["property"], "needs": bug["needs"],
        "what_it_breaks": bug["breaks"],
    }
    with open(os.path.join(out, "meta.json"), "w") as stream:
        json.dump(meta, stream, indent=1)
        stream.write("\n")


def demo(folder, ident, repo):
    away = os.path.join(folder, "demo")
    shutil.rmtree(away, ignore_errors=True)
    shutil.copytree(os.path.join(SEEDED, ident), away)
    proc = subprocess.run(
        [os.path.join(away, "demo.sh")], cwd=repo, capture_output=True, text=True,
        timeout=300,
    )
    return proc.returncode, (proc.stdout + proc.stderr).strip().splitlines()[-1:]


def apply(ident, repo):
    subprocess.run(
        ["git", "-C", repo, "apply", os.path.join(SEEDED, ident, "patch.diff")],
        check=True,
    )


def verify(ident):
    folder, repo = scratch()
    try:
        before = demo(folder, ident, repo)
        apply(ident, repo)
        after = demo(folder, ident, repo)
        junit = os.path.join(folder, "junit.xml")
        env = dict(os.environ, PYTHONPATH=os.path.join(repo, "src"))
        subprocess.run(
            [PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "4",
             "--timeout=300", "-W", "ignore", "--tb=line", "-o",
             "junit_family=xunit2", f"--junitxml={junit}", "tests"],
            cwd=repo, env=env, capture_output=True, text=True,
        )
        results = os.path.join(folder, "out.json")
        subprocess.run(
            [PY, "/opt/vp/results.py", results, f"junit:{junit}"], cwd=repo, env=env,
            capture_output=True, text=True,
        )
        got = json.load(open(results))
        base = json.load(open("/opt/vp/BASELINE.json"))
        passed = set(got.get("passed", []))
        missing = [t for t in stable(base) if t not in passed]
        ok = before[0] == 0 and after[0] != 0 and not missing
        print(
            f"{ident}: {'ok' if ok else 'BAD'} demo before {before}, after {after}, "
            f"{len(missing)} stable tests fail {missing[:3]}", flush=True,
        )
        return ok
    finally:
        shutil.rmtree(folder)


def stable(base):
    for key in ("stable", "passed", "tests", "pass"):
        if key in base:
            return base[key]
    raise SystemExit(f"keys of the baseline: {list(base)}")


def check(ident, *options):
    meta = json.load(open(os.path.join(SEEDED, ident, "meta.json")))
    folder, repo = scratch()
    try:
        apply(ident, repo)
        proc = subprocess.run(
            [os.path.join(VERIF, "run.sh"), "check", meta["property"], *options],
            env=dict(os.environ, SIMKIT_REPO=repo), capture_output=True, text=True,
        )
        last = (proc.stdout + proc.stderr).strip().splitlines()
        caught = proc.returncode == 1 and any(
            line.startswith("VIOLATION property=" + meta["property"]) for line in last
        )
        print(
            f"{ident} ({meta['property']}): {'caught' if caught else 'MISSED'}: "
            f"{(last[-2:] or [''])[0][:220]}", flush=True,
        )
        return caught
    finally:
        shutil.rmtree(folder)


def main(argv):
    import bugs

    command, *idents = argv
    options = [i for i in idents if "=" in i]
    idents = [i for i in idents if "=" not in i]
    idents = idents or [b["id"] for b in bugs.BUGS]
    if command == "write":
        for bug in bugs.BUGS:
            if bug["id"] in idents:
                write(bug)
    elif command == "verify":
        with ThreadPoolExecutor(2) as pool:
            return 0 if all(list(pool.map(verify, idents))) else 1
    elif command == "check":
        for ident in idents:
            check(ident, *options)
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
