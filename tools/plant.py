"""confirm planted changes and lay them down in /verif/seeded.

    python3 tools/plant.py SPECS.py [ID ...] [-nocheck]

SPECS.py defines BUGS: list of dict(id, prop, edits=[(file, old, new)], demo,
needs, breaks). Each is applied in a scratch copy of /repo; it is kept only when
it changes lines of the original repository, the tests pass with it and the
demonstration passes without it and fails with it. The property's quick check
(or the checks of 'also') is then run on the copy and what it says is printed.
"""
import concurrent.futures as cf
import importlib.util
import json
import os
import shutil
import subprocess
import sys

BASE = "bfa30e3"
OUT = "/verif/seeded"
PY = "/opt/venv/bin/python"
STABLE = json.load(open("/opt/vp/BASELINE.json"))

DEMO = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export PATH="$PWD/radiance_depend/linux:$PATH"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True,
                       timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def plant(bug, check=True):
    sid = bug["id"]
    root = f"/tmp/plant/{sid}"
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs("/tmp/plant", exist_ok=True)
    subprocess.check_call(["cp", "-a", "/repo", root])
    try:
        for fn, old, new in bug["edits"]:
            s = open(f"{root}/{fn}").read()
            if s.count(old) != 1:
                return sid, f"EDIT {fn}: {s.count(old)} matches of {old!r}"
            open(f"{root}/{fn}", "w").write(s.replace(old, new))
        rc, diff = sh(["git", "diff"], root)
        removed, orig = 0, 0
        fn = None
        for ln in diff.splitlines():
            if ln.startswith("--- a/"):
                fn = ln[6:]
                base = sh(["git", "show", f"{BASE}:{fn}"], root)[1].splitlines()
            elif ln.startswith("-") and not ln.startswith("---") and ln[1:].strip():
                removed += 1
                orig += ln[1:] in base
        note = ""
        if orig == 0:
            return sid, "changes no original line"
        if orig < removed:
            note = f" ({removed - orig} of {removed} lines not original)"
        env = dict(PATH=f"{root}/radiance_depend/linux:/opt/venv/bin:" + os.environ["PATH"],
                   PYTHONPATH=root, PYTHONDONTWRITEBYTECODE="1")
        dd = f"/tmp/plant/demo_{sid}"
        shutil.rmtree(dd, ignore_errors=True)
        os.makedirs(dd)
        open(f"{dd}/demo.py", "w").write(bug["demo"].lstrip("\n"))
        open(f"{dd}/demo.sh", "w").write(DEMO)
        os.chmod(f"{dd}/demo.sh", 0o755)
        a = sh([f"{dd}/demo.sh"], "/repo", timeout=300)
        if a[0] != 0:
            return sid, "DEMO fails on the clean tree: " + a[1][-600:]
        b = sh([f"{dd}/demo.sh"], root, timeout=300)
        if b[0] == 0:
            return sid, "DEMO passes with the patch"
        rc, t = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"],
                   root, env)
        tail = t.strip().splitlines()[-1]
        if "42 passed" not in tail:
            return sid, "TESTS " + tail + "\n" + "\n".join(
                i for i in t.splitlines() if i.startswith("FAILED"))
        res = ""
        if check:
            for c in [bug["prop"], *bug.get("also", [])]:
                try:
                    rc, o = sh(["python3", "run.py", c], "/verif",
                               dict(RT_REPO=root, VERIF_SEED="1"), 900)
                except subprocess.TimeoutExpired:
                    rc, o = 99, "timeout"
                v = [i for i in o.splitlines() if i.startswith(f"VIOLATION property={c}")]
                res += (f" {c}:CAUGHT" if rc == 1 and v else
                        f" {c}:missed(rc={rc})" + (o[-300:] if rc not in (0, 1) else ""))
                if c == bug["prop"]:
                    bug["_caught"] = bool(rc == 1 and v)
        d = f"{OUT}/{sid}"
        os.makedirs(d, exist_ok=True)
        open(f"{d}/patch.diff", "w").write(diff)
        for f in ("demo.py", "demo.sh"):
            shutil.copy(f"{dd}/{f}", d)
        json.dump({"property": bug["prop"], "needs": bug["needs"],
                   "what_it_breaks": bug["breaks"]},
                  open(f"{d}/meta.json", "w"), indent=1)
        return sid, "ok" + note + res + "  demo: " + b[1].strip().splitlines()[-1][:110]
    finally:
        shutil.rmtree(root, ignore_errors=True)
        shutil.rmtree(f"/tmp/plant/demo_{sid}", ignore_errors=True)


def main():
    spec = importlib.util.spec_from_file_location("specs", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    ids = [i for i in sys.argv[2:] if not i.startswith("-")]
    bugs = [b for b in m.BUGS if not ids or b["id"] in ids]
    check = "-nocheck" not in sys.argv
    with cf.ThreadPoolExecutor(3) as ex:
        todo = {ex.submit(plant, b, check): b["id"] for b in bugs}
        for f in cf.as_completed(todo):
            try:
                print(*f.result(), flush=True)
            except Exception as e:
                print(todo[f], "FAILED", repr(e)[:300], flush=True)


if __name__ == "__main__":
    main()
