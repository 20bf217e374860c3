"""python3 run.py <ID> [--tier quick|thorough] [--replay FILE]"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("RT_REPO", "/repo")
PY = "/opt/venv/bin/python"
MARK = "RTMC_STARTED"


def restart():
    env = dict(os.environ)
    env["PATH"] = (f"{REPO}/radiance_depend/linux:/opt/venv/bin:"
                   "/usr/local/bin:/usr/bin:/bin")
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONHASHSEED"] = "0"
    for v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
        env[v] = "1"
    for v in ("RAYPATH", "RAYTOOLS_PROC_CAP", "PYTHONPATH"):
        env.pop(v, None)
    env["LC_ALL"] = "C.UTF-8"
    env[MARK] = "1"
    os.execve(PY, [PY, "-X", "utf8"] + sys.argv, env)


if os.environ.get(MARK) != "1":
    restart()

sys.path.insert(0, REPO)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "tools"))

import argparse  # noqa
import importlib  # noqa


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int)
    a = ap.parse_args()
    import registry
    meta = {q["id"]: q for q in registry.P}[a.id]
    import raytools
    assert os.path.dirname(os.path.dirname(os.path.abspath(raytools.__file__))) \
        == os.path.abspath(REPO), raytools.__file__
    from mc import core
    try:
        mod = importlib.import_module(f"checks.{a.id.lower()}")
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        traceback.print_exc()
        if any(t.filename.startswith(REPO + "/") for t in tb):
            print(f"VIOLATION property={a.id} replay=none")
            return 1
        return 2
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    return core.main(a.id, mod, meta, a.tier, seed, a.replay, a.jobs)


if __name__ == "__main__":
    sys.exit(main())
