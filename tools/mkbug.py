"""Confirms a planted bug in a scratch copy and stores it under /verif/seeded/<id>/.

bug(id, prop, needs, breaks, edits, demo): edits are (file, old, new) with old unique.
Kept only if: applies, builds (imports), the 10 stable tests pass, demo 0 before / non-zero after.
Also runs the named check against the patched copy (VERIF_REPO) and reports whether it is caught.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, env=None, timeout=400):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **(env or {}))
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       timeout=timeout)
    return p.returncode, p.stdout


DEMO = """#!/bin/sh
exec env PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def bug(bid, prop, needs, breaks, edits, demo, checks=None):
    d = os.path.join(ROOT, "seeded", bid)
    tmp = tempfile.mkdtemp(prefix="bug-")
    try:
        copy = os.path.join(tmp, "repo")
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        for f, old, new in edits:
            p = os.path.join(copy, f)
            s = open(p).read()
            n = s.count(old)
            if n != 1:
                print(bid, "edit matches %d times in %s: %r" % (n, f, old[:60]))
                return False
            open(p, "w").write(s.replace(old, new))
        _, diff = sh("git diff", copy)
        dd = os.path.join(tmp, "demo")
        os.mkdir(dd)
        open(os.path.join(dd, "demo.sh"), "w").write(DEMO)
        open(os.path.join(dd, "demo.py"), "w").write(demo)
        os.chmod(os.path.join(dd, "demo.sh"), 0o755)
        rc, out = sh("sh %s/demo.sh" % dd, "/repo")
        if rc != 0:
            print(bid, "demo fails on the unchanged tree", out[-1500:])
            return False
        rc, out = sh("sh %s/demo.sh" % dd, copy)
        if rc == 0:
            print(bid, "demo passes with the change")
            return False
        demo_out = out[-300:]
        rc, out = sh(PY + " -m pytest -q -p no:cacheprovider tests", copy,
                     {"PYTHONPATH": copy + "/src", "OPENBLAS_NUM_THREADS": "1", "MPLBACKEND": "Agg"})
        if "10 passed" not in out:
            print(bid, "tests do not pass", out[-1500:])
            return False
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(dd, d)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        caught = []
        for c in checks or [prop]:
            rc, out = sh("./check " + c, ROOT, {"VERIF_REPO": copy, "VERIF_EVIDENCE": tmp}, 900)
            last = [x for x in out.splitlines() if "run " in x or ": " in x][-3:]
            caught.append((c, rc))
            print("   ", c, rc, " | ".join(last)[:400])
        print(bid, "kept; checks:", caught, "" if any(r == 1 for c, r in caught if c == prop) else "  *** MISSED ***",
              flush=True)
        return True
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    # re-run: mkbug.py ID... -> checks against stored patches
    ids = sys.argv[1:] or sorted(os.listdir(os.path.join(ROOT, "seeded")))
    for bid in ids:
        d = os.path.join(ROOT, "seeded", bid)
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        tmp = tempfile.mkdtemp(prefix="bug-")
        try:
            copy = os.path.join(tmp, "repo")
            subprocess.run(["cp", "-a", "/repo", copy], check=True)
            rc, out = sh("git apply %s/patch.diff" % d, copy)
            if rc:
                print(bid, "does not apply", out)
                continue
            rc, out = sh("./check " + prop, ROOT, {"VERIF_REPO": copy, "VERIF_EVIDENCE": tmp}, 900)
            print(bid, prop, rc, "caught" if rc == 1 else "*** MISSED ***", [x for x in out.splitlines()][-3:-1], flush=True)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
