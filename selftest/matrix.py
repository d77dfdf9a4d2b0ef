"""matrix.py [ids]: run each planted bug's own property check on a scratch copy; write selftest/matrix.json."""
import glob, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
only = set(sys.argv[1:])


def one(d):
    sid = os.path.basename(d)
    prop = json.load(open(d + "/meta.json"))["property"]
    w = tempfile.mkdtemp(prefix="matrix")
    try:
        shutil.copytree("/repo", w + "/r", symlinks=True)
        r = subprocess.run(["git", "apply", d + "/patch.diff"], cwd=w + "/r", capture_output=True, text=True)
        if r.returncode:
            return sid, prop, "does not apply"
        env = {**os.environ, "SA_REPO": w + "/r", "SA_JOBS": "4"}
        r = subprocess.run([sys.executable, V + "/run.py", prop], capture_output=True, text=True, env=env)
        return sid, prop, {0: "missed", 1: "caught"}.get(r.returncode, f"exit {r.returncode}")
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    ds = [d for d in sorted(glob.glob(V + "/seeded/*")) if not only or os.path.basename(d) in only]
    out = HERE + "/matrix.json"
    res = json.load(open(out)) if os.path.exists(out) else {}
    res = {k: v for k, v in res.items() if os.path.isdir(V + "/seeded/" + k)}
    with ThreadPoolExecutor(3) as ex:
        for sid, prop, r in ex.map(one, ds):
            res[sid] = [prop, r]
            print(sid, prop, r, flush=True)
            json.dump(dict(sorted(res.items())), open(out, "w"), indent=0)
