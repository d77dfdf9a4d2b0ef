"""quiet.py [bundle ..] [--checks C01,C02]: apply behaviour-preserving rewrites to a scratch copy, run the
repository's tests and every check on it; every check must stay quiet (exit 0).  A bundle is a list of edits (file, old, new)."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
B = {}
for f in sorted(os.listdir(HERE)):
    if f.startswith("rewrites") and f.endswith(".py"):
        ns = {}
        exec(open(os.path.join(HERE, f)).read(), ns)
        B.update(ns["B"])


def build(name, w):
    shutil.copytree("/repo", w, symlinks=True)
    for e in B[name]:
        f, old, new = e[:3]
        p = f"{w}/asyncapi3/{f}"
        s = open(p).read() if os.path.exists(p) else ""
        if old is None:
            open(p, "w").write(new)
            continue
        n = s.count(old)
        if n == 0 or (n > 1 and len(e) < 4):
            raise SystemExit(f"{name}: {n} matches in {f}: {old[:80]!r}")
        open(p, "w").write(s.replace(old, new))
    t = subprocess.run(["/opt/venv/bin/python", "-B", "-m", "pytest", "-q", "-o", "addopts=", "-p", "no:cacheprovider"], cwd=w, capture_output=True, text=True)
    if t.returncode:
        print(name, "TESTS FAIL", "\n".join(t.stdout.splitlines()[-8:]))
        return False
    return True


def main():
    args = sys.argv[1:]
    checks = None
    if "--checks" in args:
        i = args.index("--checks")
        checks = args[i + 1].split(",")
        del args[i:i + 2]
    if checks is None:
        checks = [c["property"] if "property" in c else c["id"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
    bad = 0
    for name in args or list(B):
        tmp = tempfile.mkdtemp(prefix="quiet")
        try:
            if not build(name, tmp + "/r"):
                bad += 1
                continue

            def run(c):
                r = subprocess.run([sys.executable, V + "/run.py", c], capture_output=True, text=True, env={**os.environ, "SA_REPO": tmp + "/r", "SA_JOBS": "3"})
                return c, r
            with ThreadPoolExecutor(3) as ex:
                for c, r in ex.map(run, checks):
                    last = (r.stdout.strip().splitlines() or [r.stderr[-300:]])
                    if r.returncode or "undecided=0" not in r.stdout:
                        bad += 1
                        print(name, c, "exit", r.returncode, "|", "\n   ".join(x[:400] for x in last[:3]), r.stderr[-500:], flush=True)
            print(name, "done", flush=True)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    print("problems:", bad)
    return bad > 0


if __name__ == "__main__":
    sys.exit(main())
