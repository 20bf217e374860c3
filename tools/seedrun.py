"""run the checks of planted changes against scratch copies and keep docs/seeded.json

    python3 tools/seedrun.py [-all] [ID ...]      (-all: every check, not only the property's own)
"""
import concurrent.futures as cf
import glob
import json
import os
import shutil
import subprocess
import sys

STORE = "/verif/docs/seeded.json"


def one(sid, every):
    root = f"/tmp/plant/run_{sid}"
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs("/tmp/plant", exist_ok=True)
    subprocess.check_call(["cp", "-a", "/repo", root])
    try:
        p = subprocess.run(["git", "apply", f"/verif/seeded/{sid}/patch.diff"], cwd=root, capture_output=True, text=True)
        if p.returncode:
            return sid, None, "patch does not apply"
        prop = json.load(open(f"/verif/seeded/{sid}/meta.json"))["property"]
        checks = [prop] if not every else [c["property"] for c in json.load(open("/verif/MANIFEST.json"))["checks"]]
        got = {}
        for c in checks:
            try:
                r = subprocess.run(["python3", "run.py", c], cwd="/verif", capture_output=True, text=True, timeout=900,
                                   env=dict(os.environ, RT_REPO=root, VERIF_SEED="1"))
                got[c] = "caught" if r.returncode == 1 and f"VIOLATION property={c}" in r.stdout else "quiet" if r.returncode == 0 else f"rc {r.returncode}"
            except subprocess.TimeoutExpired:
                got[c] = "timeout"
        return sid, prop, got
    finally:
        shutil.rmtree(root, ignore_errors=True)


def main():
    ids = [i for i in sys.argv[1:] if not i.startswith("-")]
    ids = ids or sorted(os.path.basename(os.path.dirname(i)) for i in glob.glob("/verif/seeded/*/patch.diff"))
    store = json.load(open(STORE)) if os.path.exists(STORE) else {}
    with cf.ThreadPoolExecutor(3) as ex:
        for f in cf.as_completed([ex.submit(one, i, "-all" in sys.argv) for i in ids]):
            sid, prop, got = f.result()
            print(sid, prop, got, flush=True)
            if isinstance(got, dict):
                store.setdefault(sid, {}).update(got)
    live = {os.path.basename(os.path.dirname(i)) for i in glob.glob("/verif/seeded/*/patch.diff")}
    with open(STORE, "w") as f:
        json.dump({k: v for k, v in sorted(store.items()) if k in live}, f, indent=0)
        f.write("\n")


if __name__ == "__main__":
    main()
