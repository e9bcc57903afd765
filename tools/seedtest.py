#!/usr/bin/env python3
"""seedtest.py [-t] [-j N] ID...   confirm planted bugs in a scratch copy of /repo.
For each: patch applies, demo passes on the clean copy and fails on the patched
one, the property's quick check (VERIF_REPO=copy) raises a VIOLATION; with -t
also runs the repository's tests on the patched copy."""
import json, os, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def run(cmd, cwd, env=None, t=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **(env or {}))
    e.pop("PYTHONPATH", None) if not env or "PYTHONPATH" not in env else None
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def main():
    args = sys.argv[1:]
    tests = "-t" in args
    ids = [a for a in args if not a.startswith("-")] or sorted(os.listdir(V + "/seeded"))
    tmp = tempfile.mkdtemp(prefix="seedtest_", dir="/tmp")
    work = tmp + "/repo"
    try:
        run(["cp", "-a", "/repo", work], "/")
        for i in ids:
            d = f"{V}/seeded/{i}"
            meta = json.load(open(d + "/meta.json"))
            dd = tmp + "/demo"
            shutil.rmtree(dd, ignore_errors=True)
            shutil.copytree(d, dd, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
            env = {"PYTHONPATH": work + "/src"}
            c0, o0 = run(["bash", dd + "/demo.sh"], work, t=300)
            a, ao = run(["git", "apply", d + "/patch.diff"], work)
            if a:
                print(i, "PATCH DOES NOT APPLY", ao)
                continue
            c1, o1 = run(["bash", dd + "/demo.sh"], work, t=300)
            chk = meta["property"].lower()
            c2, o2 = run([PY, f"{V}/checks/{chk}.py", "--tier", "quick", "--seed", "1"], V, {"VERIF_REPO": work, "VERIF_REPLAY_DIR": tmp})
            caught = c2 == 1 and f"VIOLATION property={meta['property']}" in o2
            tr = ""
            if tests:
                c3, o3 = run([PY, "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "-n", "8", "-m", "not visual", "--ignore=tests/test_fasteners.py"], work, env)
                tr = " tests=" + next((l for l in reversed(o3.splitlines()) if "passed" in l), "?").strip("= ")
            print(f"{i}: demo clean={c0} patched={c1} {meta['property']}={'CAUGHT' if caught else 'missed rc=%d' % c2}{tr}", flush=True)
            if c0:
                print(o0[-1500:])
            if "-v" in args:
                print(o1[-600:], "\n".join(l[:250] for l in o2.splitlines()[:6]))
            run(["git", "checkout", "-q", "--", "."], work)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


main()
