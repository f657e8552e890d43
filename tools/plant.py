"""Tries out planted bugs in scratch copies of /repo and, with --keep, writes them to seeded/.

python3 tools/plant.py SPEC.py [--keep] [--only ID,ID] [--checks C01,C02]

SPEC.py defines BUGS, a list of dicts: id, property, needs, breaks, edits [(file, old, new)], demo (Python source,
which runs with the root of the repository as its working directory and fails if the bug is there).
A bug is kept only if it passes the stable tests and its demonstration tells the two trees apart.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PY = "/opt/venv/bin/python"
SH = """#!/bin/bash
# run with the root of the repository as working directory
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD/src"
exec /opt/venv/bin/python -B "$(cd "$(dirname "$0")" && pwd)/demo.py"
"""
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0")


def sh(cmd, cwd, env=None, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors="replace")


def try_bug(bug, checks):
    tmp = tempfile.mkdtemp(prefix="plant-")
    out = {"id": bug["id"], "property": bug["property"], "ok": False, "notes": [], "caught": {}}
    try:
        tree = os.path.join(tmp, "repo")
        sh(["git", "clone", "-q", REPO, tree], "/")
        for path, old, new in bug["edits"]:
            full = os.path.join(tree, path if path.startswith("src/") else "src/compas_cem/" + path)
            text = open(full).read()
            if text.count(old) != 1:
                out["notes"].append("%d matches in %s: %r" % (text.count(old), path, old[:60]))
                return out
            open(full, "w").write(text.replace(old, new))
        _, diff = sh(["git", "diff"], tree)
        env = dict(ENV, PYTHONPATH=os.path.join(tree, "src"))
        code, text = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], tree, env)
        if code != 0:
            out["notes"].append("tests fail: " + text[-300:])
        folder = os.path.join(tmp, "demo")
        os.makedirs(folder)
        open(os.path.join(folder, "demo.sh"), "w").write(SH)
        os.chmod(os.path.join(folder, "demo.sh"), 0o755)
        open(os.path.join(folder, "demo.py"), "w").write(bug["demo"].strip("\n") + "\n")
        clean, text0 = sh(["bash", os.path.join(folder, "demo.sh")], REPO)
        dirty, text1 = sh(["bash", os.path.join(folder, "demo.sh")], tree)
        if clean != 0:
            out["notes"].append("demo fails on the unchanged tree: " + text0[-600:])
        if dirty == 0:
            out["notes"].append("demo passes with the bug")
        out["demo"] = text1.strip().splitlines()[-1:] if dirty else None
        out["ok"] = not out["notes"]
        for pid in (checks or [bug["property"]]):
            env = dict(ENV, VERIF_REPO=tree)
            code, text = sh([os.path.join(ROOT, "check"), pid], ROOT, env)
            out["caught"][pid] = {0: "MISSED", 1: "caught"}.get(code, "ERROR %s" % text[-800:])
            if code == 1:
                out["how"] = [ln for ln in text.splitlines() if "Error" in ln or "VIOLATION" in ln][-2:]
        out["diff"], out["folder"] = diff, folder
        if out["ok"] and "--keep" in sys.argv:
            dest = os.path.join(ROOT, "seeded", bug["id"])
            shutil.rmtree(dest, ignore_errors=True)
            shutil.copytree(folder, dest)
            open(os.path.join(dest, "patch.diff"), "w").write(diff)
            json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
                      open(os.path.join(dest, "meta.json"), "w"), indent=1)
        return out
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = checks = None
    if "--only" in sys.argv:
        only = sys.argv[sys.argv.index("--only") + 1].split(",")
    if "--checks" in sys.argv:
        checks = sys.argv[sys.argv.index("--checks") + 1].split(",")
    bugs = [b for b in bugs if not only or b["id"] in only]
    for out in ThreadPoolExecutor(2).map(lambda b: try_bug(b, checks), bugs):
        print("%-28s %s ok=%s %s %s" % (out["id"], out["property"], out["ok"], out["caught"], " | ".join(out["notes"])))
        for ln in out.get("how", []):
            print("      " + ln[:200])
        sys.stdout.flush()


if __name__ == "__main__":
    main()
