"""Runs the checks against the planted bugs in seeded/ and rewrites the table in DESIGN.md.

python3 tools/seeded.py [--only ID,ID] [--all]     (--all: every check on every bug, not only that of its property)
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0")


def sh(cmd, env=ENV):
    p = subprocess.run(cmd, cwd=ROOT, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode(errors="replace")


def run(args):
    bug, pids = args
    folder = os.path.join(ROOT, "seeded", bug)
    tmp = tempfile.mkdtemp(prefix="seeded-")
    try:
        tree = os.path.join(tmp, "repo")
        sh(["git", "clone", "-q", "/repo", tree])
        code, text = sh(["git", "-C", tree, "apply", os.path.join(folder, "patch.diff")])
        if code:
            return bug, {"-": "does not apply: " + text}
        out = {}
        for pid in pids:
            code, text = sh([os.path.join(ROOT, "check"), pid], dict(ENV, VERIF_REPO=tree))
            out[pid] = {0: "missed", 1: "caught"}.get(code, "error")
            if code not in (0, 1):
                print(text[-1500:])
        return bug, out
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    bugs = sorted(os.listdir(os.path.join(ROOT, "seeded")))
    if "--only" in sys.argv:
        bugs = sys.argv[sys.argv.index("--only") + 1].split(",")
    meta = {b: json.load(open(os.path.join(ROOT, "seeded", b, "meta.json"))) for b in bugs}
    every = [c["property"] for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]]
    jobs = [(b, every if "--all" in sys.argv else [meta[b]["property"]]) for b in bugs]
    rows = []
    for bug, out in ThreadPoolExecutor(2).map(run, jobs):
        own = out.get(meta[bug]["property"], "?")
        others = sorted(p for p, r in out.items() if r == "caught" and p != meta[bug]["property"])
        print(bug, own, others, [p for p, r in out.items() if r == "error"])
        sys.stdout.flush()
        rows.append("| %s | %s | %s | %s |" % (bug, meta[bug]["property"], own, meta[bug]["what_it_breaks"]))
    if "--only" not in sys.argv:
        path = os.path.join(ROOT, "DESIGN.md")
        text = open(path).read()
        table = "| planted change | property | its check | what it breaks |\n|---|---|---|---|\n" + "\n".join(rows)
        text = re.sub(r"(<!-- seeded -->\n).*?(<!-- /seeded -->)", lambda m: m.group(1) + table + "\n" + m.group(2), text, flags=re.S)
        open(path, "w").write(text)


if __name__ == "__main__":
    main()
